COMMON_ASSUMPTIONS = [
    "one thread; thread interleavings are outside the claim",
    "clang's translation to IR at -O0 with assertions on stands for the project's gcc build; counterexamples and sample "
    "paths are replayed on natively compiled code",
    "where inputs are real-valued, arithmetic is exact: rounding is covered by tolerances, not modelled",
    "obligations the solver cannot decide in its time limit and paths beyond the budget are counted in the evidence and "
    "not claimed",
    "an input that makes the code throw or abort is a failed obligation unless the harness expects it",
]
STUB_NOTES = {
    "sx_ulp": "stub: the units-in-last-place comparison is read as a relative tolerance (P01 checks the real one bit-precisely)",
    "sx_noprec": "stub: the diagonal preconditioner of the linear solver is skipped, the system itself is checked",
    "sx_noresid": "stub: the residual norm of the 2D3D correction factors is skipped (it is only logged)",
    "sx_nofactors": "stub: correction factors are not recomputed during a 2D3D sweep (P20 checks them)",
    "sx_nohomog": "stub: homogenized cross sections are not recomputed during a 2D3D sweep (P05 checks them)",
    "sx_as_float": "stub: decimal text of one XML attribute is replaced with a symbolic number",
    "sx_as_double": "stub: decimal text of one XML attribute is replaced with a symbolic number",
    "sx_along": "stub: the distance of two points on a known line is the difference along that line, replacing a square root",
}
ULP = ["_ZN4mocc12fp_equiv_ulpEdd=sx_ulp"]
NOPREC = ["_ZN5Eigen22DiagonalPreconditionerIdE9factorizeINS_3RefIKNS_12SparseMatrixIdLi0EiEELi0ENS_11OuterStrideILin1EEEEEEERS1_RKT_=sx_noprec"]
CMDO = ["_ZNK4mocc4cmdo18CurrentCorrections8residualEv=sx_noresid",
        "_ZN4mocc4cmdo18CurrentCorrections21calculate_correctionsEmm=sx_nofactors", "_ZN4mocc17XSMeshHomogenized6updateEv=sx_nohomog"]
GEO = ["core/mesh.cpp", "core/geometry/", "core/constants.cpp", "util/error.cpp"]


def H(name, file, **kw):
    return dict(name=name, file=file, **kw)


PROPS = {
    "P01": dict(harnesses=[H("fp%d" % i, "fp.cpp", sources=[], params=dict(PART=i), budget=120, thorough_only=i == 4) for i in range(5)]),
    "P02": dict(harnesses=[H("rng%d" % i, "rng.cpp", sources=[], params=dict(PART=i), budget=100) for i in range(6)]),
    "P12": dict(harnesses=[H("topo", "mesh.cpp", sources=GEO, stubs=ULP, params=dict(PART=0), budget=100, reach=["topology"])]),
    "P13": dict(harnesses=[
        H("loc", "mesh.cpp", sources=GEO, stubs=ULP, params=dict(PART=1, MAX=2), budget=100, reach=["located"]),
        H("plane", "mesh.cpp", sources=GEO, stubs=ULP, params=dict(PART=1, WHAT=1, NX=1, NY=1, MAX=3), budget=100, reach=["plane"]),
        H("bnd", "mesh.cpp", sources=GEO, stubs=ULP, params=dict(PART=1, WHAT=2, NX=1, NY=1, NZ=1), budget=100, reach=["boundaries"]),
        H("walk", "mesh.cpp", sources=GEO, stubs=ULP, params=dict(PART=2, NX=2, NY=2, NZ=1, SLOPES=2), budget=100, reach=["walk", "corner"]),
    ]),
    "P16": dict(harnesses=[
        H("sn3d", "snsweep.cpp", params=dict(BCS=2, REF=1), budget=200, reach=["balance", "reference"]),
        H("sn3d_gs", "snsweep.cpp", params=dict(BCS=3, REF=1, GS=1, INNER=2, GROUP=1), budget=200, reach=["reference"]),
        H("sn3d_refl", "snsweep.cpp", params=dict(BCS=1, REF=1, INNER=2), budget=200, reach=["reference"]),
        H("sn3d_again", "snsweep.cpp", params=dict(BCS=2, SWEEPS=2, GROUP=1), budget=200, reach=["balance"]),
        H("sn3d_sc", "snsweep.cpp", params=dict(BCS=2, SC=1, REF=1), budget=200, reach=["balance", "reference"]),
        H("sn3d_sc_thick", "snsweep.cpp", params=dict(BCS=3, SC=1, REF=1, THICK=1, GROUP=1), budget=200, reach=["balance", "reference"]),
        H("sn3d_macro", "snsweep.cpp", params=dict(BCS=3, MACRO=1, REF=1, GROUP=1), budget=200, reach=["balance", "reference"]),
        H("sn2d", "snsweep.cpp", params=dict(BCS=3, TWOD=1, REF=1, INNER=2), budget=200, reach=["reference"]),
        H("sn2d_bal", "snsweep.cpp", params=dict(BCS=2, TWOD=1, REF=1, GROUP=1, GS=1), budget=200, reach=["balance", "reference"]),
    ]),
    "P18": dict(harnesses=[
        H("moc1", "mocsweep.cpp", params=dict(BCS=2, REF=1), budget=200, reach=["balance", "reference"]),
        H("moc_refl", "mocsweep.cpp", params=dict(BCS=1, REF=1, GS=1, INNER=2, GROUP=1), budget=200, reach=["reference"]),
        H("moc_cyl", "mocsweep.cpp", params=dict(BCS=3, REF=1, CYL=1, COR=1), budget=200, reach=["balance", "reference"]),
        H("moc_pin", "mocsweep.cpp", params=dict(BCS=3, REF=1, CYL=1, COR=2, PINMOD=1, GS=1, INNER=2), budget=200, reach=["reference"]),
        H("moc_planes", "mocsweep.cpp", params=dict(BCS=2, REF=1, PLANES=2), budget=200, reach=["balance", "reference"]),
        H("moc_macro", "mocsweep.cpp", params=dict(BCS=2, REF=1, PLANES=3), budget=200, reach=["balance", "reference"]),
        H("moc_macro_low", "mocsweep.cpp", params=dict(BCS=3, REF=1, PLANES=4, GROUP=1), budget=200, reach=["balance", "reference"]),
        H("moc_tl", "mocsweep.cpp", params=dict(BCS=2, REF=1, TL=1, PLANES=2), budget=200, reach=["balance", "reference", "leakage"]),
        H("moc_nosplit", "mocsweep.cpp", params=dict(BCS=3, SPLIT=1), budget=200, reach=["balance"]),
        H("moc_split", "mocsweep.cpp", params=dict(BCS=3, SPLIT=1, TL=1, GROUP=1, REF=1), budget=200, reach=["balance", "split"]),
        H("moc_split_src", "mocsweep.cpp", params=dict(BCS=3, SPLIT=2, TL=1, GROUP=1), budget=200, reach=["split"]),
    ]),
    "P04": dict(harnesses=[
        H("matrix", "xsdata.cpp", params=dict(PART=0), budget=150, reach=["matrix"]),
        H("cdf", "xsdata.cpp", params=dict(PART=1, NG=2), budget=150, reach=["cdf"]),
        H("equality2", "xsdata.cpp", params=dict(PART=2, NG=2), budget=150, reach=["equal", "unequal"]),
        H("equality3", "xsdata.cpp", params=dict(PART=2, NG=3), budget=200, reach=["equal", "unequal"]),
        H("material", "xsdata.cpp", params=dict(PART=3, NG=2), budget=150, reach=["material", "region"]),
        H("regions", "xsdata.cpp", stubs=ULP, params=dict(PART=9), budget=150, reach=["same", "different"]),
    ]),
    "P05": dict(harnesses=[
        H("volume%d%d" % (m, c), "xsdata.cpp", params=dict(PART=5, MP=m, COL=c), budget=150, reach=["homog"]) for m in (0, 1) for c in (0, 1)] + [
        H("flux%d%d" % (m, c), "xsdata.cpp", params=dict(PART=6, MP=m, COL=c), budget=150, reach=["homog"]) for m in (0, 1) for c in (0, 1)]),
    "P06": dict(harnesses=[
        H("source", "xsdata.cpp", params=dict(PART=8), budget=150, reach=["source"]),
        H("source_ext", "xsdata.cpp", params=dict(PART=8, EXT=1), budget=150, reach=["source"]),
        H("source_xs", "xsdata.cpp", params=dict(PART=8, WITHXS=1), budget=150, reach=["source"]),
    ]),
    "P07": dict(harnesses=[
        H("mapping", "xsdata.cpp", params=dict(PART=4), budget=150, reach=["mapping"]),
        H("expanded", "xsdata.cpp", params=dict(PART=7), budget=150, reach=["expanded"]),
    ]),
    "P03": dict(harnesses=[
        H("octants", "angles.cpp", stubs=ULP, params=dict(PART=0), budget=100, reach=["octants"]),
        H("angles", "angles.cpp", stubs=ULP, params=dict(PART=0, FULL=1), budget=100, reach=["octants"]),
        H("reflect", "angles.cpp", stubs=ULP, params=dict(PART=1), budget=100, reach=["reflection"]),
        H("byangle", "angles.cpp", stubs=ULP, params=dict(PART=2), budget=100, reach=["byangle"]),
        H("isotropic", "angles.cpp", stubs=ULP, params=dict(PART=3), budget=100, reach=["isotropic"]),
        H("ls", "angles.cpp", stubs=ULP, params=dict(PART=4, TYPE=0), budget=100, reach=["quads"]),
        H("cg", "angles.cpp", stubs=ULP, params=dict(PART=4, TYPE=1), budget=100, reach=["quads"]),
        H("cy", "angles.cpp", stubs=ULP, params=dict(PART=4, TYPE=2), budget=100, reach=["quads"]),
        H("user", "angles.cpp", stubs=ULP + ["_ZNK4pugi13xml_attribute9as_doubleEd=sx_as_double"], params=dict(PART=6), budget=100, reach=["accepted", "refused"]),
        H("modified2", "angles.cpp", stubs=ULP, params=dict(PART=5, NA=2), budget=100, reach=["modified"]),
        H("modified3", "angles.cpp", stubs=ULP, params=dict(PART=5, NA=3), budget=100, reach=["modified"]),
    ]),
    "P21": dict(harnesses=[
        H("one_cell%d" % i, "cmfd_solve.cpp", params=dict(PART=1, BCS=i, SYM=i), budget=100, reach=["one cell"]) for i in range(3)] + [
        H("balance", "cmfd.cpp", stubs=NOPREC, params=dict(PLANES=2, BCS=1), budget=150, reach=["balance"]),
        H("same", "cmfd.cpp", stubs=NOPREC, params=dict(PLANES=2, BCS=2, SAME=1), budget=150, reach=["balance"]),
        H("radial", "cmfd.cpp", stubs=NOPREC, params=dict(PLANES=2, BCS=2, DA=0), budget=150, reach=["balance", "diffusion"]),
        H("nodata", "cmfd.cpp", stubs=NOPREC, params=dict(PLANES=2, BCS=0, DA=0, DR=0), budget=150, reach=["balance", "diffusion"]),
        H("macro", "cmfd.cpp", stubs=NOPREC, params=dict(PLANES=3, BCS=1, SAME=1), budget=150, reach=["balance"]),
        H("balance_y", "cmfd.cpp", stubs=NOPREC, params=dict(PLANES=2, BCS=1, NX=1, NY=2), budget=100, reach=["balance"]),
        H("same_xy", "cmfd.cpp", stubs=NOPREC, params=dict(PLANES=2, BCS=2, SAME=1, NY=2), budget=100, reach=["balance"]),
        H("nodata_xy", "cmfd.cpp", stubs=NOPREC, params=dict(PLANES=2, BCS=2, DA=0, DR=0, NY=2), budget=100, reach=["balance", "diffusion"]),
        H("macro_xy", "cmfd.cpp", stubs=NOPREC, params=dict(PLANES=3, BCS=0, NY=2), budget=100, reach=["balance"]),
        H("macro_radial", "cmfd.cpp", stubs=NOPREC, params=dict(PLANES=3, BCS=2, DA=0), budget=150, reach=["balance", "diffusion"]),
    ]),
    "P22": dict(harnesses=[
        H("%s_%s%d" % ("sn" if sn else "moc", "pin" if p else "plane", g), "pinflux.cpp", params=dict(SN=sn, PIN=p, G=g),
          budget=150, reach=["projection"]) for sn in (0, 1) for p in (0, 1) for g in (0, 1)] + [
        H("%s_in%d" % ("sn" if sn else "moc", o), "incoming.cpp", params=dict(SN=sn, WHAT=2, OLD=o, G=1 - sn),
          budget=150, reach=["incoming"]) for sn in (0, 1) for o in (0, 1)]),
    "P26": dict(harnesses=[
        H("%s_fission" % ("sn" if sn else "moc"), "pinflux.cpp", params=dict(SN=sn, WHAT=1), budget=150,
          reach=["fission"]) for sn in (0, 1)]),
    "P15": dict(harnesses=[
        H("one3", "bc.cpp", params=dict(DIM=3), budget=150, reach=["exchange"]),
        H("one2", "bc.cpp", params=dict(DIM=2, VARY=1, ORDER=4, G=0), budget=150, reach=["exchange"]),
        H("one_nox", "bc.cpp", params=dict(DIM=3, VARY=2), budget=150, reach=["exchange"]),
        H("one_noy", "bc.cpp", params=dict(DIM=3, VARY=3), budget=150, reach=["exchange"]),
        H("all3", "bc.cpp", params=dict(DIM=3, ALL=1, VARY=1, ORDER=4), budget=150, reach=["exchange"]),
        H("all2", "bc.cpp", params=dict(DIM=2, ALL=1, VARY=1, ORDER=4, G=0), budget=150, reach=["exchange"]),
    ]),
    "P08": dict(harnesses=[
        H("moc%d" % i, "expo.cpp", sources=[], params=dict(PART=0, FROM=250 * i, TO=250 * (i + 1)), budget=200, reach=["table"]) for i in range(4)] + [
        H("small", "expo.cpp", sources=[], params=dict(PART=1), budget=100, reach=["table"]),
        H("positive", "expo.cpp", sources=[], params=dict(PART=2), budget=100, reach=["table"]),
        H("outside", "expo.cpp", sources=[], params=dict(PART=3), budget=100, reach=["outside"]),
        H("error", "expo.cpp", sources=[], params=dict(PART=4), budget=100, reach=["error"]),
    ]),
    "P09": dict(harnesses=[
        H(n, "geom.cpp", sources=GEO, stubs=ULP, params=dict(PART=i), budget=120, reach=r) for i, (n, r) in enumerate([
            ("line", ["away", "ahead"]), ("parallel", ["parallel"]), ("circle", ["inside", "miss", "outside"]),
            ("oncircle", ["leave", "cross"]), ("box", ["x side", "y side"]), ("leave", ["side", "top"]),
            ("lines", ["crossing", "apart"]), ("chord", ["crossing", "apart"]), ("points", ["points"]),
            ("azimuth", ["azimuth"])])]),
    "P10": dict(harnesses=[
        H(n, "pin.cpp", stubs=ULP + (["_ZN4mocc6Point28distanceES0_=sx_along"] if p["PART"] == 4 else []), params=p, budget=60 if n in ("trace4", "ahead4s") else 150, reach=r, thorough_only=n in ("trace8", "ahead8s")) for n, p, r in [
            ("lookup_rect", dict(PART=0, CYL=0), ["lookup"]), ("lookup4", dict(PART=0), ["lookup"]), ("lookup8", dict(PART=0, AZI=8), ["lookup"]),
            ("lookup2", dict(PART=0, AZI=2), ["lookup"]),
            ("outside_rect", dict(PART=1, CYL=0), ["outside"]), ("outside", dict(PART=1), ["outside"]),
            ("volumes_rect", dict(PART=2, CYL=0), ["volumes"]), ("volumes", dict(PART=2, AZI=8), ["volumes"]),
            ("volumes6", dict(PART=2, RINGS=6), ["volumes"]), ("lookup6", dict(PART=0, RINGS=6), ["lookup"]),
            ("ahead_rect", dict(PART=3, CYL=0), ["inside", "surface"]), ("ahead4", dict(PART=3), ["inside", "surface"]), ("ahead8", dict(PART=3, AZI=8), ["inside", "surface"]),
            ("ahead4s", dict(PART=3, DIRSYM=1), ["inside", "surface"]), ("ahead8s", dict(PART=3, AZI=8, DIRSYM=1), ["inside", "surface"]),
            ("trace_rect", dict(PART=4, CYL=0), ["trace"]), ("trace4", dict(PART=4, RINGS=1), ["trace"]), ("trace8", dict(PART=4, AZI=8), ["trace"]),
            ("distance_rect", dict(PART=5, CYL=0), ["met", "free"]), ("distance4", dict(PART=5, RINGS=1), ["met", "free"]), ("distance8", dict(PART=5, AZI=8), ["met", "free"]),
        ]]),
    "P11": dict(harnesses=[
        H("where", "where.cpp", stubs=ULP, budget=150, reach=["inside", "border"]),
    ]),
    "P14": dict(harnesses=[
        H(n, "rays.cpp", stubs=ULP + ["_ZNK4pugi13xml_attribute8as_floatEf=sx_as_float"], params=p, budget=100, reach=r) for n, p, r in [
            ("flat", dict(PART=0), ["layout"]), ("none", dict(PART=0, COR=2, CYL=1), ["layout"]), ("angle", dict(PART=0, COR=1, LS=1), ["layout"]),
            ("trig", dict(PART=0, COR=2, TRIG=1), ["layout"]), ("oblong", dict(PART=0, COR=2, NX=2, NY=1), ["layout"]),
            ("oblong_trig", dict(PART=0, COR=0, NX=2, NY=3, TRIG=1, LO=30), ["layout"]), ("pinmod", dict(PART=0, PINMOD=1, CYL=1, COR=2), ["layout"]),
        ]] + [H("single%d" % d, "rays.cpp", stubs=ULP + ["_ZN4mocc6Point28distanceES0_=sx_along"], params=dict(PART=1, D0=d), budget=100, reach=["single", "corner"], thorough_only=d > 0) for d in (0, 2)]),
    "P19": dict(harnesses=[
        H("cdd_" + x, "snsweep.cpp", params=dict(CDD=1, BCS=2, SC=i, REF=int(i < 3), MACRO=1, GROUP=i % 2), budget=200,
          reach=["balance"] + ["reference"] * (i < 3)) for i, x in enumerate(["dd", "sc", "fw", "ff", "mb"])] + [
        H("cdd_gs", "snsweep.cpp", params=dict(CDD=1, BCS=3, REF=1, GS=1, INNER=2, GROUP=1), budget=200, reach=["reference"])] + [
        H("cdd_thick_" + x, "snsweep.cpp", params=dict(CDD=1, BCS=2, SC=i, REF=1, THICK=1, GROUP=1), budget=200, reach=["balance", "reference"])
        for i, x in ((1, "sc"), (2, "fw"))] + [
        H("cdd_2d", "snsweep.cpp", params=dict(CDD=1, BCS=3, TWOD=1, REF=1, GS=1), budget=200, reach=["balance", "reference"]),
    ]),
    "P20": dict(harnesses=[
        H("factors", "mocsweep.cpp", stubs=["_ZNK4mocc4cmdo18CurrentCorrections8residualEv=sx_noresid"], params=dict(BCS=2, REF=1, CMDO=1), budget=200, reach=["balance", "corrections"]),
        H("factors_macro", "mocsweep.cpp", stubs=["_ZNK4mocc4cmdo18CurrentCorrections8residualEv=sx_noresid"], params=dict(BCS=2, REF=1, CMDO=1, PLANES=3, GROUP=1), budget=200, reach=["balance", "corrections"]),
        H("factors_macro_low", "mocsweep.cpp", stubs=["_ZNK4mocc4cmdo18CurrentCorrections8residualEv=sx_noresid"], params=dict(BCS=3, REF=1, CMDO=1, PLANES=4, GROUP=1), budget=200, reach=["balance", "corrections"]),
        H("factors_split", "mocsweep.cpp", stubs=["_ZNK4mocc4cmdo18CurrentCorrections8residualEv=sx_noresid"], params=dict(BCS=2, REF=1, CMDO=1, SPLIT=1, TL=1), budget=200, reach=["balance", "corrections", "split"]),
    ]),
    "P30": dict(harnesses=[
        H(n, "planes.cpp", stubs=CMDO, params=p, budget=200, reach=["swept"]) for n, p in [
            ("planes", dict()), ("planes_g1", dict(GROUP=1)), ("macro", dict(MACRO=1)), ("relax", dict(OPT=1, OUTER=2, MACRO=1)), ("no_tl", dict(OPT=2)),
            ("moc_project", dict(OPT=3)), ("moc_project_macro", dict(OPT=3, MACRO=1)), ("inactive", dict(OPT=4, OUTER=2)), ("modulo", dict(OPT=5, OUTER=3)),
            ("sn_project", dict(OPT=6)), ("sn_project_macro", dict(OPT=6, MACRO=1))]]),
    "P24": dict(harnesses=[
        H(n, "tally.cpp", stubs=ULP + ["_ZNK4pugi13xml_attribute9as_doubleEd=sx_as_double"], params=dict(PART=i), budget=100, reach=r) for i, (n, r) in enumerate([
            ("scalar", ["scalar"]), ("spatial", ["spatial"]), ("bank", ["sampled", "refused"]), ("resize", ["resized"]), ("entropy", ["entropy"])])]),
    "P23": dict(harnesses=[
        H(n, "mc.cpp", stubs=ULP, params=p, budget=100, reach=r) for n, p, r in [
            ("flight_x", dict(), ["flown"]), ("flight_y", dict(AXIS=1), ["flown"]), ("flight_z", dict(AXIS=2), ["flown"]),
            ("mirror1", dict(MIRROR=1), ["flown"]), ("mirror6", dict(MIRROR=6, AXIS=1), ["flown"]), ("mirror5", dict(MIRROR=5, AXIS=2), ["flown"]),
            ("collision", dict(PART=1), ["scattered", "fissioned", "captured"]), ("history", dict(PART=2), ["histories"]), ("edge", dict(PART=3), []), ("streams", dict(PART=4), ["streams"]),
            ("returns", dict(PART=5), ["fission"]), ("returns_round", dict(PART=5, ROUND=1), ["fission"])]]),
    "P25": dict(harnesses=[
        H(n, "solver.cpp", stubs=ULP + ["_ZNK4pugi13xml_attribute8as_floatEf=sx_as_float", "_ZNK4pugi13xml_attribute9as_doubleEd=sx_as_double"], params=p, budget=150, reach=r)
        for n, p, r in [
            ("step", dict(PART=0), ["step"]), ("step_moc", dict(PART=0, MOC=1, G=1), ["step"]), ("steps", dict(PART=0, STEPS=3), ["step"]),
            ("eigen", dict(PART=1), ["solve", "converged"]), ("eigen_moc", dict(PART=1, MOC=1), ["solve", "converged"]),
            ("eigen_cmfd", dict(PART=1, CMFD=1), ["solve", "converged"]),
            ("fixed", dict(PART=2), ["fixed"]), ("fixed_moc", dict(PART=2, MOC=1), ["fixed"]),
            ("cycles", dict(PART=3), ["cycles"])]]),
    "P17": dict(harnesses=[
        H(n, "assembly.cpp", stubs=ULP + ["_ZNK4pugi13xml_attribute9as_doubleEd=sx_as_double"], params=dict(PART=i), budget=200, reach=r)
        for i, (n, r) in enumerate([("built", ["built"]), ("refused", ["accepted", "refused"])])]),
}
