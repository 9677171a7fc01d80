"""The properties, in the order of properties.jsonl (written by mkmanifest.py)."""
NOTES = ("Every check compiles /repo's working tree to LLVM IR, instruments it and explores all paths of the "
         "harness; see DESIGN.md for bounds, stubs and assumptions per property.")

PROPS = []


def P(id, title, statement, over, text, why, where, note, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      where=where, note=note, na=na))


REAL = "real arithmetic stands for double rounding; "

P("P01", "Fuzzy floating-point comparison means what it says",
  "Two numbers count as equivalent exactly when they are absolutely close or close on the number line of "
  "representable values, whatever their signs, and the relation is symmetric. A number that is fuzzily less than "
  "another is less than it.",
  ["inputs"], "all pairs of finite doubles, including zeros, subnormals and mixed signs",
  "tests compare a handful of pairs; the failures sit at sign changes and at the edge of the tolerance",
  [("unit-in-last-place distance", "src/util/fp_utils.hpp:fp_equiv_ulp"),
   ("combined comparison", "src/util/fp_utils.hpp:fp_equiv"), ("ordering", "src/util/fp_utils.hpp:fuzzy_lt")],
  "bit-precise over all finite doubles")
P("P02", "Random streams are reproducible and stay in range",
  "Skipping ahead by n draws gives the state that n single draws give, for any n. A random number lies in [0,1), a "
  "random index below n lies in [0,n), and sampling a cumulative distribution returns an outcome of positive "
  "probability whose interval holds the random number.",
  ["inputs", "histories"], "all 2^64 generator states; skips composed of any two of a list up to 2^56; all "
  "cumulative distributions of up to 3 outcomes",
  "the failing states are a few in 2^63; tests sample averages",
  [("generator step", "src/util/rng_lcg.hpp:RNG_LCG::operator()"), ("skip", "src/util/rng_lcg.hpp:jump_ahead"),
   ("range", "src/util/rng_lcg.hpp:random"), ("cdf", "src/util/rng_lcg.hpp:sample_cdf")],
  "bit-precise over all generator states; cdf length at most 3")
P("P12", "The coarse mesh is a consistent grid of cells and surfaces",
  "Cells and surfaces of the coarse mesh form a grid: every interior surface joins exactly two neighbouring cells, "
  "every cell has six distinct surfaces, indices and positions are mutual inverses, and volumes, areas and "
  "thicknesses are those of the cell boxes. Cell volumes add up to the domain volume.",
  ["inputs", "configurations"], "all cell widths in [0.25,4], mesh shapes up to 2x2x2 (3x2x2 in thorough), mixed "
  "boundary conditions", "tests look at one mesh with equal spacings",
  [("surface numbering", "src/core/mesh.cpp:prepare_surfaces"), ("neighbours", "src/core/mesh.hpp:coarse_neighbor"),
   ("areas", "src/core/mesh.hpp:coarse_area")], REAL + "mesh shapes as bounded")
P("P13", "Points and rays are located in the coarse mesh without gaps",
  "A point inside the domain is assigned the cell that contains it; a point on a cell boundary is assigned the "
  "surface it lies on and is handed to the cell the ray is entering. A straight line through the domain crosses "
  "cells in contact with each other, and the crossing points lie on cell boundaries in order along the line.",
  ["inputs"], "all points of the domain, all spacings in [0.25,4], lines of fixed slopes at every offset",
  "tests trace a few rays through one mesh", [("cell of a point", "src/core/mesh.cpp:coarse_cell_point"),
   ("surface of a point", "src/core/mesh.cpp:coarse_surf_point"),
   ("boundary surfaces", "src/core/mesh.cpp:coarse_boundary_surf"), ("trace", "src/core/mesh.cpp:trace")],
  REAL + "2x2 cells, fixed slopes; corners are met exactly or missed by more than 1e-4")
P("P16", "The Sn sweep balances neutrons in every cell",
  "After a discrete-ordinates sweep, leakage through the faces of each cell (from the reported currents) plus "
  "collisions equals the source in the cell, in 2-D and 3-D and for each axial treatment. The flux and the currents "
  "are those of the diamond-difference equations with outgoing values handed to the mirrored direction at "
  "reflective faces and dropped at vacuum faces.",
  ["inputs", "configurations"], "all starting fluxes in [0.5,2] and fission sources in [1,2], independent in every cell and group; "
  "several boundary-condition and update-order configurations, thin and thick planes", "regression tests compare one eigenvalue to a stored number",
  [("sweep", "src/sweepers/sn/sn_sweeper_variant.hpp:sweep_1g"), ("cell equations", "src/sweepers/sn/sn_sweeper_dd.hpp:evaluate"),
   ("currents", "src/sweepers/sn/sn_current_worker.hpp:Current"), ("boundary exchange", "src/core/boundary_condition.cpp:update")],
  REAL + "fixed 3x2x2 core, S4, two groups; fluxes and sources symbolic")

P("P03", "Directions and angular quadratures are consistent",
  "A direction's angles, cosines and octant agree with each other, and reflecting or reversing it changes exactly the "
  "intended components. Every quadrature set fills eight mirrored octants with distinct unit directions whose weights "
  "add up to one per octant, and it integrates the moments its type promises. Changing the azimuths keeps the "
  "mirror images in step and gives each azimuth the weight of the wedge it covers.",
  ["inputs", "configurations"], "all directions away from the axes by 0.05; level-symmetric orders 2 to 16, "
  "Chebyshev-Gauss up to 3 by 4, Chebyshev-Yamamoto up to 6, listed directions at one height; all azimuths within the middle 40% of their wedge",
  "tests look at two orders and at weight sums only", [("directions", "src/core/geometry/direction.hpp:to_octant"),
   ("reversal", "src/core/angular_quadrature.hpp:reverse"), ("level symmetric sets", "src/core/level_symmetric.hpp:GenSn"),
   ("product sets", "src/core/product_quadrature.hpp:GenProduct"),
   ("weight update", "src/core/angular_quadrature.cpp:update_chebyshev_weights")],
  REAL + "trigonometric functions obey identities and range axioms; set orders as listed")
P("P04", "Cross-section containers return what was put in",
  "A scattering matrix gives back every entry, row, column total and outgoing probability of the table it was built "
  "from, through copies and assignments, and compares equal only to the same table. A material's transport cross "
  "section is absorption plus out-scatter, its fission spectrum is normalized, and the removal cross section, reaction "
  "probabilities and fissile flag of a region follow from its current data.",
  ["inputs"], "all non-negative tables of 3 groups (2 groups for probabilities and materials), every zero pattern, "
  "negative self-scatter allowed", "tests build one dense matrix",
  [("packing", "src/core/scattering_matrix.cpp:ScatteringMatrix"), ("comparison", "src/core/scattering_matrix.hpp:operator=="),
   ("material", "src/core/material.cpp:Material"), ("region", "src/core/xs_mesh_region.hpp:update")],
  REAL + "2 or 3 groups; in the 3-group comparison self-scatter exceeds 0.25")
P("P05", "Homogenized cross sections preserve reaction rates",
  "Cross sections homogenized over a pin give the same collision, fission, neutron production, group-to-group "
  "scattering and emission rates as the detailed pin, with volume weighting and with flux weighting. They are applied "
  "to exactly the cells the pin occupies in its macroplane, and an update is announced to users of the data.",
  ["inputs", "configurations"], "all cross sections (volume weighting) or all fluxes in [0.1,10] in selected regions "
  "(flux weighting), two pins in each of two macroplanes", "tests compare one pin at constant flux",
  [("volume weighting", "src/core/xs_mesh_homogenized.cpp:homogenize_region"),
   ("flux weighting", "src/core/xs_mesh_homogenized.cpp:homogenize_region_flux"),
   ("update", "src/core/xs_mesh_homogenized.cpp:update")],
  REAL + "2x1 pins, 3 planes in 2 macroplanes, 2 groups, symbolic flux in at most 3 regions of a pin")
P("P06", "The source of a sweep is fission, scattering and external source",
  "For each group the source is the external source, plus the fission source times the emission spectrum, plus "
  "in-scatter from every other group, plus auxiliary terms, in whatever order they are added. Self-scatter is added "
  "from the current flux each time it is asked for, divided by the transport cross sections handed in, and nothing is "
  "left over from the previous group.",
  ["inputs", "histories"], "all fluxes and fission sources in [0,100], auxiliary sources in [-100,100]; sequences of three groups in any order",
  "tests do not build sources", [("assembly", "src/core/source.cpp:in_scatter"),
   ("self-scatter", "src/core/source_isotropic.cpp:self_scatter"), ("external source", "src/core/source.cpp:add_external")],
  REAL + "2 groups, a core of 2x1 pins in 2 macroplanes; cross sections concrete, one external source file")
P("P07", "Every region gets the cross sections of its material",
  "Each region of the mesh is covered exactly once by the cross-section mesh and receives the data of the material the "
  "input puts there, plane by plane and macroplane by macroplane. Values expanded onto regions are those of the group, "
  "cross-section state and splitting last asked for, also for objects that share the storage.",
  ["inputs", "histories"], "all material data; all sequences of three expand, split and update requests",
  "tests check counts of regions", [("mapping", "src/core/xs_mesh.cpp:XSMesh"), ("expansion", "src/core/xs_mesh.hpp:expand")],
  REAL + "2x1 pins in 3 planes and 2 macroplanes, 2 groups")
P("P18", "The MoC sweep balances neutrons in every pin",
  "After a characteristics sweep, leakage through the sides of each pin (from the reported currents) plus collisions "
  "equals the source in the pin, in every macroplane and plane, and currents that belong to others are left alone. The "
  "flux is that of the characteristic equations solved along the rays, with rays continued into their mirror image at "
  "reflective faces and started empty at vacuum faces.",
  ["inputs", "configurations"], "all starting fluxes in [0.5,2], fission sources in [1,2], previous currents and axial leakages in [-1,1]; boundary "
  "conditions, update order, pin shapes, volume corrections, modularity and sub-planes as configured",
  "regression tests compare one eigenvalue to a stored number",
  [("sweep", "src/sweepers/moc/moc_sweeper_kernel.inc.hpp:sweep1g"),
   ("currents", "src/sweepers/moc/moc_current_worker.hpp:Current"), ("rays", "src/sweepers/moc/ray_data.cpp:RayData"),
   ("boundary exchange", "src/core/boundary_condition.cpp:update")],
  REAL + "fixed 2x2 pins, S4, two groups, ray spacing 0.35; fluxes, sources and old currents symbolic; flux compared "
  "to 2e-5 because of the exponential table")
P("P21", "The coarse-mesh acceleration keeps the transport balance",
  "For any currents, surface fluxes and cell fluxes received from transport, the coarse diffusion system is exactly the "
  "neutron balance of each coarse cell expressed with the currents it returns. When its solution is the flux it started "
  "from, it returns the currents and surface fluxes it was given; without transport data it returns the diffusion "
  "currents, with nothing entering through a vacuum face.",
  ["inputs", "configurations"], "all cell and surface fluxes in [1e-4,2], currents in [-0.1,0.1], eigenvalues in [0.5,1.5]; reflective and "
  "vacuum faces, with and without radial or axial data, with and without macroplanes",
  "no test drives the coarse solver on its own; a wrong sign only slows or spoils convergence on some meshes",
  [("linear system", "src/core/cmfd.cpp:setup_solve"), ("returned currents", "src/core/cmfd.cpp:store_currents"),
   ("eigenvalue update", "src/core/cmfd.cpp:solve"), ("data exchange", "src/core/coarse_data.hpp:CoarseData")],
  REAL + "1x2, 2x1 and 2x2 pins in 2 or 3 planes, two groups, fixed cross sections; a whole solve is decided on one cell for one outer "
  "iteration; the preconditioner is not modelled where the system is only built")
P("P22", "Coarse and fine fluxes agree after being exchanged",
  "The pin fluxes a sweeper reports are the volume averages of its fine flux. After new pin fluxes are imposed the "
  "sweeper reports exactly those, the shape inside each pin or macroplane is kept, other groups are untouched and the "
  "returned residual is the distance moved. Angular fluxes entering the domain are rescaled with the partial currents of "
  "the surface they enter through.",
  ["inputs", "configurations"], "all fine fluxes and imposed pin fluxes in [1e-3,2], old and new partial currents in [1e-3,10]; both "
  "sweepers, with pin-wise and macroplane-wise exchange, each group",
  "tests never exchange fluxes with non-uniform planes",
  [("averages", "src/sweepers/moc/moc_sweeper.cpp:get_pin_flux_1g"), ("projection", "src/sweepers/moc/moc_sweeper.cpp:set_pin_flux_1g"),
   ("Sn exchange", "src/sweepers/sn/sn_sweeper.hpp:set_pin_flux_1g"),
   ("incoming flux", "src/sweepers/moc/moc_sweeper.hpp:update_incoming_generic")],
  REAL + "2x2 pins of four kinds, 3 planes in 2 macroplanes, two groups, fixed cross sections")
P("P26", "Fission source, total fission and pin powers are consistent",
  "The fission source handed to the next iteration is neutron production divided by the eigenvalue in every region, the "
  "total fission is the volume integral of production, and pin powers are fission rates per pin normalized to an average "
  "of one over the powered pins. The flux residual is the distance between the stored and the current flux.",
  ["inputs"], "all fluxes in [1e-3,2] and eigenvalues in [0.5,1.5]", "tests compare eigenvalues of a few whole runs",
  [("fission source", "src/core/transport_sweeper.cpp:calc_fission_source"),
   ("total fission", "src/core/transport_sweeper.cpp:total_fission"), ("pin power", "src/core/transport_sweeper.cpp:pin_powers")],
  REAL + "2x2 pins of four kinds, 3 planes in 2 macroplanes, two groups, fixed cross sections")
P("P15", "Flux leaving through a face comes back as the face's condition says",
  "After an exchange, what left through a reflective face re-enters at the same place in the mirror-image direction, "
  "nothing enters through a vacuum face, and a prescribed face keeps its values. Other groups, directions and faces and "
  "the outgoing flux are untouched, and a copy is independent of its original.",
  ["inputs", "configurations"], "all angular fluxes; every combination of conditions on the faces a direction leaves "
  "through, one direction or all directions, 2-D and 3-D, faces of different and of zero size",
  "the unit test exchanges a handful of values for one set of conditions",
  [("exchange", "src/core/boundary_condition.cpp:update"), ("starting values", "src/core/boundary_condition.cpp:initialize_scalar"),
   ("mirror directions", "src/core/angular_quadrature.hpp:reflect")],
  REAL + "level-symmetric quadratures of order 2 and 4, two groups, up to 4 values per face; the value of a prescribed "
  "face is only required to be positive")
P("P08", "The tabulated exponential stays within its stated error",
  "For every argument the sweep can produce, the attenuation factor read from the table is positive, at most one and "
  "within the table's own stated error of the exact exponential; arguments outside the table fall back to the exact "
  "function.",
  ["inputs"], "all arguments in windows around both ends, the middle and every kind of table cell, and outside the "
  "table; the table as built by the code",
  "tests evaluate a table of samples; errors sit between the samples and at the last cell",
  [("lookup", "src/core/exponential.hpp:Exponential_Linear::exp"), ("table", "src/core/exponential.hpp:Exponential_Linear"),
   ("stated error", "src/core/exponential.hpp:max_error")],
  REAL + "exact exponential bounded by its tangents and chords at dyadic points")
P("P09", "Geometric primitives return true distances and intersections",
  "The distance from a point to a line, circle or box along a direction is the smallest positive path length to a "
  "point on it, and intersections reported for two primitives lie on both. The azimuth of a point lies in one turn and "
  "points along it.",
  ["inputs"], "all points in a box around each primitive, symbolic or several concrete directions, radii from a list",
  "tests try a few well placed points; failures sit at tangents, axes and coincident surfaces",
  [("line distance", "src/core/geometry/line.cpp:distance_to_surface"), ("circle distance", "src/core/geometry/circle.cpp:distance_to_surface"),
   ("box", "src/core/geometry/box.hpp:intersect"), ("segment crossings", "src/core/geometry/geom.hpp:Intersect"),
   ("azimuth", "src/core/geometry/points.hpp:Point2::alpha")],
  REAL + "units-in-last-place comparison read as a relative tolerance")
P("P10", "Pin meshes partition the pin cell and trace it without gaps",
  "Every point of a pin cell belongs to exactly one region, the one whose rings and sectors enclose it, and a moving "
  "point on a surface is assigned the region ahead. Region areas add up to the cell; the segments of a straight ray "
  "cover it, each inside its region; the distance to the next surface is the distance to where the region is left.",
  ["inputs", "configurations"], "all points of the cell; all ray offsets for four directions; all positions on 42 "
  "lines; cylindrical pins with 2, 4 and 8 sectors and 1 or 3 rings, and a 3x2 rectangular pin",
  "tests look up a dozen points; failures sit on axes, edges and divisions",
  [("cylindrical lookup", "src/core/pin_mesh_cyl.cpp:find_reg"), ("rectangular lookup", "src/core/pin_mesh_rect.cpp:find_reg"),
   ("segments", "src/core/pin_mesh_cyl.cpp:trace"), ("distance", "src/core/pin_mesh_cyl.cpp:distance_to_surface"),
   ("areas", "src/core/pin_mesh_cyl.cpp:PinMesh_Cyl")],
  REAL + "arctangent constrained by its octant and chord bounds; tangent rays excluded")
P("P11", "Every point of the core is located in the pin and region that contain it",
  "For a point anywhere in the core and a direction of flight, the pin position, material region, local coordinates and "
  "axial plane reported are those that contain the point, and on a border those the particle is about to enter.",
  ["inputs", "configurations"], "all points of a core with unequal lattices, on and off borders, all direction octants",
  "tests look up interior points of one core; failures need a point on a border and a particular direction",
  [("location", "src/core/core_mesh.cpp:get_location_info"), ("pin lookup", "src/core/core_mesh.cpp:get_pinmesh"),
   ("lattice lookup", "src/core/lattice.cpp:get_pinmesh"), ("plane lookup", "src/core/plane.cpp:get_pinmesh")],
  REAL + "points closer to a border than 1e-6 are exactly on it")
P("P14", "Characteristic rays close on reflection and cross the core without gaps",
  "Each ray starts where the reflected or continued ray of its partner ends, with evenly spaced rays whose direction stays "
  "close to the one asked for. The segments of each ray lie in their regions and add up to its length, and its list of "
  "coarse-mesh faces follows the cells it crosses in both senses; segment lengths conserve region areas.",
  ["inputs", "configurations"], "all ray spacings from 0.2 to 0.6 for one quadrature, square and oblong cores and each "
  "correction for the layout; all entry points for fixed directions for the segments",
  "tests trace a few rays; failures need particular angle and spacing, an oblong core, or a ray through a corner",
  [("ray layout", "src/sweepers/moc/ray_data.cpp:RayData"), ("modularization", "src/sweepers/moc/ray_data.cpp:modularize_angle"),
   ("segments", "src/sweepers/moc/ray.cpp:Ray"), ("coarse trace", "src/core/core_mesh.cpp:trace"),
   ("length correction", "src/sweepers/moc/ray_data.cpp:correct_volume")],
  REAL + "rays pass pin corners exactly or at more than 1e-3")
P("P19", "The corrected Sn sweep balances neutrons whatever the corrections",
  "For each axial treatment and any correction factors, leakage through the faces of each cell plus collisions equals "
  "the source in the cell after a corrected discrete-ordinates sweep. The flux is that of the cell equations in which "
  "the correction factors weigh the faces and the cell's cross section, each taken from the macroplane of the cell.",
  ["inputs", "configurations"], "all starting fluxes in [0.5,2] and fission sources in [1,2]; axial treatments, boundary update "
  "orders, thick planes, 2-D and 3-D as configured", "regression tests compare one eigenvalue to a stored number",
  [("cell equations", "src/sweepers/cmdo/sn_sweeper_cdd.hpp:evaluate"), ("correction data", "src/sweepers/cmdo/correction_data.hpp:CorrectionData"),
   ("selection", "src/sweepers/cmdo/sn_sweeper_factory_cdd.cpp:SnSweeperFactory_CDD")],
  REAL + "fixed core, correction factors fixed but different in every cell and direction; negative-flux fixup with two "
  "degrees of freedom; the multiple-balance treatment does not use the factors")
P("P20", "2D3D correction factors reproduce the MoC flux",
  "The correction factors computed during a characteristics sweep are the ratios of the flux on the faces of a pin to "
  "its average flux along each direction, and of the cross section that reproduces its collisions to the homogenized "
  "one. They are stored for the pin, macroplane, direction and group they were computed for.",
  ["inputs", "configurations"], "all sources along a two-parameter family; with and without several planes per macroplane and negative "
  "sources turned into removal",
  "regression tests compare one eigenvalue to a stored number",
  [("ray sums", "src/sweepers/cmdo/correction_worker.hpp:CurrentCorrections"),
   ("factors", "src/sweepers/cmdo/correction_worker.cpp:calculate_corrections"), ("storage", "src/sweepers/cmdo/correction_data.hpp:CorrectionData")],
  REAL + "fixed 2x2 pins, two groups; fission source depends on two symbols; the residual norm of the factors is not modelled")
P("P30", "2D3D couples the planes with the currents of the Sn sweep and back",
  "A 2D3D sweep gives each plane the flux of a characteristics sweep whose source includes the net axial inflow per "
  "height of the plane, relaxed as asked, and gives the axial direction the flux and currents of a corrected Sn sweep. "
  "Fission sources, exposed pin fluxes, projections between the two meshes and skipped sweeps are those asked for.",
  ["inputs", "configurations", "histories"], "all axial currents in a range and fission sources in [1,2]; relaxation, projections, sweep "
  "schedule and sub-planes as configured; up to three outer iterations",
  "tests only look at the eigenvalue of a converged case",
  [("sweep", "src/sweepers/cmdo/plane_sweeper_2d3d.cpp:sweep"), ("axial leakage", "src/sweepers/cmdo/plane_sweeper_2d3d.cpp:add_tl"),
   ("source", "src/sweepers/cmdo/source_2d3d.hpp:Source_2D3D"), ("fission source", "src/sweepers/cmdo/plane_sweeper_2d3d.hpp:calc_fission_source")],
  REAL + "fixed 2x2 pins in 2 or 3 planes, two groups; correction factors and homogenized cross sections keep their "
  "values during the sweep; several outers or projections with two degrees of freedom")
P("P23", "Monte Carlo particles fly, collide and score as the physics says",
  "A particle crosses the regions its straight path crosses, is turned by reflective faces and lost through vacuum "
  "faces, and the lengths scored in each region are the lengths travelled there. A collision absorbs, fissions or "
  "scatters with the probabilities of the cross sections, and the sites, scores and eigenvalue estimates follow from it, each "
  "particle drawing from a random stream of its own.",
  ["inputs", "configurations", "histories"], "all starts along a line, directions from a list, every combination of "
  "reflective and vacuum faces tested; all weights in a collision, for each of 12 random seeds; histories of particles from 8 "
  "seeds, and of particles coming back to a surface inside a pin from 24 seeds (150 for a ring)",
  "tests only check that a run finishes; a wrong region or a lost length hides in the statistics",
  [("flight", "src/sweepers/mc/particle_pusher.cpp:simulate"), ("collision", "src/sweepers/mc/particle_pusher.cpp:collide"),
   ("bounds", "src/core/core_mesh.cpp:get_location_info"), ("streams", "src/util/rng_lcg.hpp:jump_ahead")],
  REAL + "one symbolic coordinate and directions from a list; tracks nearer than 1e-6 to an edge are left out except "
  "the recorded one; random numbers come from listed seeds, they are not symbolic; 2x2 pins with an internal grid, two "
  "planes, two groups; at a ring only the weight is symbolic, since roots of a symbolic track pile up")
P("P24", "Tallies, fission bank and entropy report what was scored",
  "The mean a tally reports is the weighted mean of its realizations and the uncertainty is the standard deviation of "
  "that mean, for single and per-region scores alike. A fission bank sampled from a box holds the requested number of "
  "sites inside it, resizing keeps only sites it held, and its entropy is that of its distribution over the mesh.",
  ["inputs", "histories"], "all scores and weights of up to three realizations; all boxes inside the domain; banks "
  "resized up and down", "tests do not look at the values of uncertainties or at the contents of a bank",
  [("scalar tally", "src/sweepers/mc/tally_scalar.hpp:get"), ("spatial tally", "src/sweepers/mc/tally_spatial.hpp:get"),
   ("bank", "src/sweepers/mc/fission_bank.cpp:FissionBank"), ("entropy", "src/sweepers/mc/fission_bank.cpp:shannon_entropy")],
  REAL + "at most three realizations with different scores; small banks and fixed random seeds")
P("P25", "Solvers iterate as defined and stop when, and only when, converged",
  "An eigenvalue iteration sweeps every group with production over the eigenvalue as source and scales the eigenvalue by "
  "the neutrons gained; what is reported per iteration is the eigenvalue and the changes of eigenvalue and source of that "
  "iteration. A solve stops at the first iteration that meets every tolerance and the minimum, or at the maximum, and a "
  "fixed-source solve likewise. A Monte Carlo solve starts every cycle with the particles asked for, keeps inactive cycles "
  "out of its means and can be repeated.",
  ["inputs", "configurations", "histories"], "all fluxes of a group and eigenvalues before an iteration; all tolerances, "
  "several minimum and maximum counts, up to 40 iterations, with and without coarse-mesh acceleration",
  "tests converge one case with one tolerance and look only at the final eigenvalue",
  [("iteration", "src/solvers/eigen_solver.cpp:step"), ("convergence", "src/solvers/eigen_solver.cpp:solve"),
   ("fixed source", "src/solvers/fixed_source_solver.cpp:solve"), ("cycles", "src/solvers/monte_carlo_eigenvalue_solver.cpp:step")],
  REAL + "2x1 pins in 2 planes, two groups, Sn and characteristics sweeps; a Monte Carlo solve of 2 particles and up to 3 cycles "
  "with one symbolic start coordinate")
P("P17", "The core that is built is the core the input describes",
  "Pins, planes, boundary conditions and fuel are where the input puts them, whatever the assembly sizes, and the regions "
  "of each mesh treatment fill their pins, planes and the core without gaps or overlaps. Planes that differ in geometry are "
  "kept apart and planes of a macroplane stay together. Input whose parts do not fit together is refused.",
  ["inputs", "configurations"], "all pin pitches from 0.75 to 4 and plane heights from 0.1 to 5; every stacking of three kinds of plane, "
  "every grouping of three planes into macroplanes, lattices of different sizes; 24 kinds of misfit, with all pitches and heights",
  "tests load a few fixed inputs and check counts of one or two quantities",
  [("assembly of the core", "src/core/core_mesh.cpp:CoreMesh"), ("volumes", "src/core/core_mesh.hpp:volumes"),
   ("plane", "src/core/plane.cpp:Plane"), ("lattice", "src/core/lattice.cpp:Lattice"), ("stacking", "src/core/assembly.cpp:Assembly"),
   ("macroplane lists", "src/util/string_utils.cpp:explode_braces")],
  REAL + "2x2 assemblies with 3x3 pins in 3 planes; pitch and height symbolic, other input text fixed per configuration")

P("P27", "Results in the output file are those computed",
  "Every quantity written to the output file reads back with the values, shape and ordering it had in the calculation, "
  "also after an interrupted earlier run left a file of the same name.",
  ["inputs", "crash_points"], "all arrays and group names; every point at which a run can be interrupted",
  "tests write one array and read it back", [("arrays", "src/util/h5file.hpp:H5Node"), ("file", "src/util/h5file.cpp:H5Node")],
  "not claimed", na="reading and writing happen inside the HDF5 library, of which only the binary is installed: there is no "
  "source or IR to execute symbolically, and a stub of it would be the whole of what is to be checked")
P("P28", "The number of threads does not change the answer",
  "A sweep or a Monte Carlo cycle gives the same flux, currents and tallies for any number of threads and any schedule, up "
  "to the order of additions.",
  ["schedules"], "all interleavings of any number of threads", "tests run one schedule",
  [("MoC threads", "src/sweepers/moc/moc_sweeper_kernel.inc.hpp:sweep1g"), ("Monte Carlo threads", "src/sweepers/mc/particle_pusher.cpp:simulate")],
  "not claimed", na="the engine executes one thread: parallel regions are outlined into calls of the OpenMP runtime, which is "
  "only installed as a binary, and the paths of a single thread already use the solver budget")
P("P29", "Text input is read as written",
  "Numbers, lists, comments and continuation in the input and cross-section files are read with the values written, and "
  "malformed text is refused with a message.",
  ["inputs"], "all input texts", "tests read a few well-formed files",
  [("lists", "src/util/string_utils.hpp:explode_string"), ("comments", "src/util/file_scrubber.cpp:getline"),
   ("library", "src/core/material_lib.cpp:MaterialLib")],
  "not claimed", na="conversion of text to numbers happens in the stream classes of the C++ library and in the XML parser, "
  "which are only installed as binaries; symbolic characters do not survive them, so only a list of concrete texts could be "
  "tried. What the input means once read is checked by P17, and the values of its numbers are symbolic there")
