From 045a69a7d01e50c507e073731f2bd39133fcb1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:08 +0000
Subject: [PATCH 01/43] fix: let x-normal cell boundaries span the full y
 extent of the mesh

The lines used to trace rays across interior x boundaries were built with the
x extent of the domain as their upper y coordinate.  On domains taller than
wide, every crossing above y = hx was missed.
---
 src/core/core_mesh.cpp | 2 +-
 src/core/mesh.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/core_mesh.cpp b/src/core/core_mesh.cpp
index 62d65b6..b96a5e0 100644
--- a/src/core/core_mesh.cpp
+++ b/src/core/core_mesh.cpp
@@ -122,7 +122,7 @@ CoreMesh::CoreMesh(const pugi::xml_node &input)
 
     // Form lines for internal pin boundaries and domain bounding box
     for (auto xi = x_vec_.cbegin() + 1; xi != x_vec_.cend() - 1; ++xi) {
-        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, hx_)));
+        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, hy_)));
     }
     for (auto yi = y_vec_.cbegin() + 1; yi != y_vec_.cend() - 1; ++yi) {
         lines_.push_back(Line(Point2(0.0, *yi), Point2(hx_, *yi)));
diff --git a/src/core/mesh.cpp b/src/core/mesh.cpp
index 0dcfb42..2f19c6d 100644
--- a/src/core/mesh.cpp
+++ b/src/core/mesh.cpp
@@ -45,7 +45,7 @@ Mesh::Mesh(size_t n_reg, size_t n_xsreg, const VecF &hx, const VecF &hy,
 
     hx_ = x_vec_.back();
     for (auto xi = x_vec_.cbegin() + 1; xi != x_vec_.cend() - 1; ++xi) {
-        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, hx_)));
+        lines_.push_back(Line(Point2(*xi, 0.0), Point2(*xi, y_vec_.back())));
     }
     hy_ = y_vec_.back();
     for (auto yi = y_vec_.cbegin() + 1; yi != y_vec_.cend() - 1; ++yi) {
-- 
2.43.0


From c54c8f21bb4b2ec7f1225a17819216657aa698ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:13 +0000
Subject: [PATCH 02/43] fix: report every domain boundary a particle leaves
 through

Boundaries shared result slots in pairs (west/south, bottom/east, north/top),
so a particle at an edge of the domain lost one of the two surfaces.
---
 src/core/mesh.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/mesh.hpp b/src/core/mesh.hpp
index 0d8437f..2f89d42 100644
--- a/src/core/mesh.hpp
+++ b/src/core/mesh.hpp
@@ -542,16 +542,16 @@ public:
             {Surface::INTERNAL, Surface::INTERNAL, Surface::INTERNAL}};
         if ((p.x < REAL_FUZZ) && (dir.ox < 0.0)) {
             surf[0] = Surface::WEST;
-        } else if ((p.y < REAL_FUZZ) && (dir.oy < 0.0)) {
-            surf[0] = Surface::SOUTH;
-        }
-        if ((p.z < REAL_FUZZ) && (dir.oz < 0.0)) {
-            surf[1] = Surface::BOTTOM;
         } else if ((p.x / hx_ > 1.0 - REAL_FUZZ) && (dir.ox > 0.0)) {
-            surf[1] = Surface::EAST;
+            surf[0] = Surface::EAST;
         }
-        if ((p.y / hy_ > 1.0 - REAL_FUZZ) && (dir.oy > 0.0)) {
-            surf[2] = Surface::NORTH;
+        if ((p.y < REAL_FUZZ) && (dir.oy < 0.0)) {
+            surf[1] = Surface::SOUTH;
+        } else if ((p.y / hy_ > 1.0 - REAL_FUZZ) && (dir.oy > 0.0)) {
+            surf[1] = Surface::NORTH;
+        }
+        if ((p.z < REAL_FUZZ) && (dir.oz < 0.0)) {
+            surf[2] = Surface::BOTTOM;
         } else if ((p.z / hz_ > 1.0 - REAL_FUZZ) && (dir.oz > 0.0)) {
             surf[2] = Surface::TOP;
         }
-- 
2.43.0


From 1771bdad3eae663feca5c6fa028f2ce75ac970b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:57 +0000
Subject: [PATCH 03/43] fix: keep random numbers below one

Scaling all 63 random bits rounds the largest values up to exactly 1.0, which
is outside the documented interval.  random_int(n) then returned n and indexed
past the end of the fission bank.
---
 src/util/rng_lcg.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/util/rng_lcg.hpp b/src/util/rng_lcg.hpp
index cd5a088..c6d0c61 100644
--- a/src/util/rng_lcg.hpp
+++ b/src/util/rng_lcg.hpp
@@ -61,7 +61,9 @@ public:
      */
     real_t random()
     {
-        return float_scale_ * (*this)();
+        // Keep the upper 53 of the 63 random bits. All of them fit in the
+        // significand of a double, so the result cannot round up to 1.0.
+        return float_scale_ * ((*this)() >> 10);
     }
 
     /**
@@ -72,7 +74,7 @@ public:
     {
         assert(ubound > 0.0);
 
-        real_t v = float_scale_ * (*this)();
+        real_t v = this->random();
         return v * ubound;
     }
 
@@ -162,7 +164,7 @@ private:
     // left-hand operand.
     static const uint64_t mask_     = ~(UINT64_C(1) << 63);
     static const uint64_t mod_      = UINT64_C(1) << 63;
-    static constexpr real_t float_scale_ = 1.0 / (UINT64_C(1) << 63);
+    static constexpr real_t float_scale_ = 1.0 / (UINT64_C(1) << 53);
 };
 
 } // namespace mocc
-- 
2.43.0


From fc0cf9f01aa937910783065ea5e498dcd555c471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:24 +0000
Subject: [PATCH 04/43] fix: sample only possible outcomes from a CDF

When the last entry of the CDF is an ulp below one, a random number above it
produced an index past the end.  A random number of exactly zero selected a
leading entry of zero probability.
---
 src/util/rng_lcg.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/util/rng_lcg.hpp b/src/util/rng_lcg.hpp
index c6d0c61..f091ad3 100644
--- a/src/util/rng_lcg.hpp
+++ b/src/util/rng_lcg.hpp
@@ -16,6 +16,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cassert>
 #include <cstdint>
 #include <iostream>
@@ -116,9 +117,11 @@ public:
     MOCC_FORCE_INLINE int sample_cdf(const std::vector<real_t> &cdf)
     {
         assert(fp_equiv_ulp(cdf.back(), 1.0));
-        real_t v = this->random();
+        // Scale to the last entry, which may be slightly off from unity, so that
+        // there is always an entry greater than the sampled value
+        real_t v = this->random(cdf.back());
         return std::distance(cdf.begin(),
-                             std::lower_bound(cdf.begin(), cdf.end(), v));
+                             std::upper_bound(cdf.begin(), cdf.end(), v));
     }
 
     /**
-- 
2.43.0


From 25d9bd5e5509a1b9b2b902991c0b23602c1fb7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:54 +0000
Subject: [PATCH 05/43] fix: measure the ULP distance of negative values
 correctly

The mapping of negative doubles onto the number line used the 32-bit sign bit,
so values of opposite sign far apart could compare equal while values just
above and below zero did not.
---
 src/util/fp_utils.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/util/fp_utils.hpp b/src/util/fp_utils.hpp
index 90085b2..df1f0fc 100644
--- a/src/util/fp_utils.hpp
+++ b/src/util/fp_utils.hpp
@@ -16,6 +16,8 @@
 
 #pragma once
 #include <cmath>
+#include <cstdint>
+#include <limits>
 #include "global_config.hpp"
 
 namespace mocc {
@@ -55,18 +57,20 @@ inline bool fp_equiv_ulp(real_t v1, real_t v2)
     fp_utils::real_int i1;
     i1.f = v1;
     if (i1.i < 0) {
-        i1.i = 0x80000000 - i1.i;
+        i1.i = std::numeric_limits<decltype(i1.i)>::min() - i1.i;
     }
 
     fp_utils::real_int i2;
     i2.f = v2;
     if (i2.i < 0) {
-        i2.i = 0x80000000 - i2.i;
+        i2.i = std::numeric_limits<decltype(i2.i)>::min() - i2.i;
     }
 
-    auto ulp = std::abs(i1.i - i2.i);
+    // Subtract as unsigned, since the distance may exceed the signed range
+    uint64_t ulp = (i1.i > i2.i) ? (uint64_t)i1.i - (uint64_t)i2.i
+                                 : (uint64_t)i2.i - (uint64_t)i1.i;
 
-    return ulp < ULP_FUZZ;
+    return ulp < (uint64_t)ULP_FUZZ;
 }
 
 inline bool fp_equiv_rel(real_t v1, real_t v2)
-- 
2.43.0


From 2ba0a8f76d41312e45e661b8b564b0e117719ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:03 +0000
Subject: [PATCH 06/43] fix: keep axial currents when expanding MoC currents to
 sub-planes

The expansion from macroplanes to planes copied one surface too many,
because blitz::Range includes its last index. The extra surface belongs to
the axial currents of the next plane. The surface flux was not expanded at
all and stayed packed at the bottom of the mesh.
---
 src/sweepers/moc/moc_current_worker.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sweepers/moc/moc_current_worker.hpp b/src/sweepers/moc/moc_current_worker.hpp
index 9aeb1e2..9e34b0e 100644
--- a/src/sweepers/moc/moc_current_worker.hpp
+++ b/src/sweepers/moc/moc_current_worker.hpp
@@ -292,10 +292,13 @@ public:
                     int stt_in  = mesh_->plane_surf_xy_begin(ip);
                     int stp_in  = mesh_->plane_surf_end(ip);
 
-                    coarse_data_->current(blitz::Range(stt_out, stp_out),
-                                          group_) =
-                        coarse_data_->current(blitz::Range(stt_in, stp_in),
-                                              group_);
+                    // blitz::Range is inclusive
+                    blitz::Range out(stt_out, stp_out - 1);
+                    blitz::Range in(stt_in, stp_in - 1);
+                    coarse_data_->current(out, group_) =
+                        coarse_data_->current(in, group_);
+                    coarse_data_->surface_flux(out, group_) =
+                        coarse_data_->surface_flux(in, group_);
 
                     iz--;
                 }
-- 
2.43.0


From 298d9e74988a8fcde40252e8752d046e35ba2f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:11 +0000
Subject: [PATCH 07/43] fix: scale MoC currents by plane height when sub-planes
 differ

Currents of a macroplane are accumulated with the height of one plane and
divided by the area of another. With planes of different heights the
resulting currents did not balance the pin cells.
---
 src/sweepers/moc/moc_current_worker.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sweepers/moc/moc_current_worker.hpp b/src/sweepers/moc/moc_current_worker.hpp
index 9e34b0e..72ebf11 100644
--- a/src/sweepers/moc/moc_current_worker.hpp
+++ b/src/sweepers/moc/moc_current_worker.hpp
@@ -295,10 +295,13 @@ public:
                     // blitz::Range is inclusive
                     blitz::Range out(stt_out, stp_out - 1);
                     blitz::Range in(stt_in, stp_in - 1);
+                    // The contributions were weighted with the height of
+                    // plane ip
+                    real_t f = mesh_->dz(iz) / mesh_->dz(ip);
                     coarse_data_->current(out, group_) =
-                        coarse_data_->current(in, group_);
+                        f * coarse_data_->current(in, group_);
                     coarse_data_->surface_flux(out, group_) =
-                        coarse_data_->surface_flux(in, group_);
+                        f * coarse_data_->surface_flux(in, group_);
 
                     iz--;
                 }
-- 
2.43.0


From cdebc5beccf5b47246a1edf302981d27081acd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:20 +0000
Subject: [PATCH 08/43] fix: compare the shape and values of scattering
 matrices

Two different matrices compared equal when their packed values and column
sums agreed, because the position of each row's entries was not compared.
Rows compared equal whenever their group bounds agreed.
---
 src/core/scattering_matrix.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/scattering_matrix.hpp b/src/core/scattering_matrix.hpp
index 79b93fc..f014386 100644
--- a/src/core/scattering_matrix.hpp
+++ b/src/core/scattering_matrix.hpp
@@ -16,6 +16,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <iosfwd>
 #include "util/blitz_typedefs.hpp"
 #include "util/global_config.hpp"
@@ -63,7 +64,7 @@ public:
             return false;
         }
 
-        return true;
+        return std::equal(this->begin(), this->end(), other.begin());
     }
 
     bool operator!=(const ScatteringRow &other) const
@@ -251,6 +252,9 @@ public:
         if (out_ != other.out_) {
             return false;
         }
+        if (rows_ != other.rows_) {
+            return false;
+        }
         return true;
     }
 
-- 
2.43.0


From f7a039ced2d84367334cf05efdc2dc3fc7f4e5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:43 +0000
Subject: [PATCH 09/43] fix: update the fissile flag together with the cross
 sections

Homogenized regions are created empty and filled by update(), so they
always reported to be non-fissile.
---
 src/core/xs_mesh_region.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/xs_mesh_region.hpp b/src/core/xs_mesh_region.hpp
index 04b65ed..57e4ca3 100644
--- a/src/core/xs_mesh_region.hpp
+++ b/src/core/xs_mesh_region.hpp
@@ -160,7 +160,13 @@ public:
             xsmacf_[ig]  = xsf[ig];
             xsmacrm_[ig] = xstr[ig] - xssc.self_scat(ig);
         }
-        xsmacsc_ = xssc;
+        xsmacsc_    = xssc;
+        is_fissile_ = false;
+        for (int ig = 0; ig < xssc.n_group(); ig++) {
+            if (xsmacnf_[ig] > 0.0) {
+                is_fissile_ = true;
+            }
+        }
         return;
     }
 
-- 
2.43.0


From 4964d3f63d1fb25edf7f8592198e1dedc31c3794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:49 +0000
Subject: [PATCH 10/43] fix: divide the source by the cross sections used in
 the sweep

self_scatter() is handed the transport cross sections of the sweep but
divided by those of the cross-section mesh. The two differ when transverse
leakage splitting adds to the cross sections, and the sweep then did not
balance neutrons.
---
 src/core/source_isotropic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source_isotropic.cpp b/src/core/source_isotropic.cpp
index 2d3b205..ebfde1e 100644
--- a/src/core/source_isotropic.cpp
+++ b/src/core/source_isotropic.cpp
@@ -26,8 +26,8 @@ void SourceIsotropic::self_scatter(size_t ig, const ArrayB1 &xstr)
         for (auto &xsr : *xs_mesh_) {
             const ScatteringRow &scat_row = xsr.xsmacsc().to(ig);
             real_t xssc                   = scat_row[ig];
-            real_t r_fpi_tr               = 1.0 / (xsr.xsmactr(ig) * FPI);
             for (const int ireg : xsr.reg()) {
+                real_t r_fpi_tr = 1.0 / (xstr(ireg) * FPI);
                 q_[ireg] = (source_1g_[ireg] + flux_1g(ireg) * xssc) * r_fpi_tr;
             }
         }
-- 
2.43.0


From a4ce35d1a2a76f5ba05ad6cad557b0501672013c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:12 +0000
Subject: [PATCH 11/43] fix: expand cross sections again after source splitting

After an expansion with splitting, asking for the plain cross sections of
the previously expanded group left the split values in place.
---
 src/core/xs_mesh.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/xs_mesh.hpp b/src/core/xs_mesh.hpp
index 118a704..ec6d1c1 100644
--- a/src/core/xs_mesh.hpp
+++ b/src/core/xs_mesh.hpp
@@ -291,6 +291,8 @@ public:
                     xstr_(ireg) = xs + split(ireg);
                 }
             }
+            // The values no longer belong to the remembered state
+            state_->first = -1;
         } else {
             this->expand(group);
         }
-- 
2.43.0


From d218dc19f5076767acaf5f818d6f357c9a7a1454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:27:37 +0000
Subject: [PATCH 12/43] fix: normalize negative scattering sums when
 homogenizing

With transport-corrected data the self-scatter cross section can be
negative. Such sums were left undivided by the flux, so the homogenized
cross section did not preserve the scattering rate.
---
 src/core/xs_mesh_homogenized.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/xs_mesh_homogenized.cpp b/src/core/xs_mesh_homogenized.cpp
index 175a44c..9d609c2 100644
--- a/src/core/xs_mesh_homogenized.cpp
+++ b/src/core/xs_mesh_homogenized.cpp
@@ -342,7 +342,7 @@ void XSMeshHomogenized::homogenize_region_flux(int i, int first_reg,
         }
 
         for (size_t igg = 0; igg < ng_; igg++) {
-            if (scat[ig][igg] > 0.0) {
+            if (scat[ig][igg] != 0.0) {
                 scat[ig][igg] /= scatsum[igg];
             }
         }
-- 
2.43.0


From 5d5b960ba3b4ba2f8279f9b6bc0641752729e8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:51 +0000
Subject: [PATCH 13/43] fix: index the external source by group, then region

The file is required to hold one row of regions per group, but the source
was read back with the two indices exchanged, reaching outside the array.
---
 src/core/source.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/source.cpp b/src/core/source.cpp
index 7900804..0edd505 100644
--- a/src/core/source.cpp
+++ b/src/core/source.cpp
@@ -42,7 +42,7 @@ void Source::initialize_group(int ig)
 {
     if (has_external_) {
         for (int ireg = 0; ireg < (int)n_reg_; ireg++) {
-            source_1g_[ireg] = external_source_(ireg, ig);
+            source_1g_[ireg] = external_source_(ig, ireg);
         }
     }
     else {
@@ -131,8 +131,6 @@ void Source::add_external(const pugi::xml_node &input)
     H5Node srcfile(srcfname, H5Access::READ);
     srcfile.read("/source", external_source_);
 
-    // I converted this from the old HDF5 routines, and the order of these
-    // could be wrong. make sure to test or change as necessary
     if (external_source_.extent(0) != (int)n_group_) {
         throw EXCEPT("Wrong group dimensions for source");
     }
-- 
2.43.0


From fcd36fc58eec4f6bf4b4d6d01fb8be96c47fbbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:44 +0000
Subject: [PATCH 14/43] fix: return the opposite direction for 3-D angle
 reversal

Stepping six octants ahead is only right for octants 1, 2, 5 and 6. For
the others the direction found shared its z component with the original.
---
 src/core/angular_quadrature.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/angular_quadrature.hpp b/src/core/angular_quadrature.hpp
index deab430..53cf9f7 100644
--- a/src/core/angular_quadrature.hpp
+++ b/src/core/angular_quadrature.hpp
@@ -161,7 +161,10 @@ public:
         if (dim == 2) {
             return (iang + ndir_oct_ * 2) % (ndir_oct_ * 4);
         } else {
-            return (iang + ndir_oct_ * 6) % (ndir_oct_ * 8);
+            // Reverse in the plane and switch to the other half-space
+            unsigned int n_half = ndir_oct_ * 4;
+            return (iang + ndir_oct_ * 2) % n_half +
+                   ((iang < n_half) ? n_half : 0);
         }
         return 0;
     }
-- 
2.43.0


From abc362ef259e3acd360c22334fe09ec7b064394e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:28 +0000
Subject: [PATCH 15/43] fix: use the right weights for S12, S14 and S16
 quadratures

The index map had no block for S12 and no offset for S16, so S12 used the
map of S14, S14 that of S16, and S16 read past the end of the offsets. The
weights did not have the symmetry of the directions.
---
 src/core/level_symmetric.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/level_symmetric.hpp b/src/core/level_symmetric.hpp
index c81404a..8afe487 100644
--- a/src/core/level_symmetric.hpp
+++ b/src/core/level_symmetric.hpp
@@ -41,12 +41,13 @@ real_t w_unique[] = {
 int w_offset[] = {0, 1, 2, 4, 7, 11, 16, 23};
 
 int w_map[] = {1, 1, 1, 1, 1, 2, 2, 1, 2, 1, 1, 2, 2, 2, 3, 2, 1, 2, 2, 1,
-               1, 2, 2, 3, 4, 3, 2, 4, 4, 2, 1, 2, 3, 2, 1, 1, 2, 2, 3, 5,
+               1, 2, 2, 3, 4, 3, 2, 4, 4, 2, 1, 2, 3, 2, 1, 1, 2, 2, 3, 4,
+               3, 3, 5, 5, 3, 2, 4, 5, 4, 2, 1, 2, 3, 3, 2, 1, 1, 2, 2, 3, 5,
                3, 4, 6, 6, 4, 3, 6, 7, 6, 3, 2, 5, 6, 6, 5, 2, 1, 2, 3, 4,
                3, 2, 1, 1, 2, 2, 3, 5, 3, 4, 6, 6, 4, 4, 7, 8, 7, 4, 3, 6,
                8, 8, 6, 3, 2, 5, 6, 7, 6, 5, 2, 1, 2, 3, 4, 4, 3, 2, 1};
 
-int w_map_offset[] = {0, 1, 4, 10, 20, 35, 63};
+int w_map_offset[] = {0, 1, 4, 10, 20, 35, 56, 84};
 }
 
 // Produce a vector of angles matching the level-symmetric quadrature of order
-- 
2.43.0


From 84eb10eb8f021c7f40a31c0dc29e8f80c82027dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:49 +0000
Subject: [PATCH 16/43] fix: allow assignment to an empty angular quadrature

The compatibility check compared the uninitialized angle counts of a
default-constructed quadrature and refused the assignment.
---
 src/core/angular_quadrature.cpp | 4 +++-
 src/core/angular_quadrature.hpp | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/angular_quadrature.cpp b/src/core/angular_quadrature.cpp
index 162151b..92a2951 100644
--- a/src/core/angular_quadrature.cpp
+++ b/src/core/angular_quadrature.cpp
@@ -167,7 +167,9 @@ AngularQuadrature &AngularQuadrature::operator=(const AngularQuadrature &other)
     // First check for compatibility. It is pretty dangerous under most
     // circumstatnces to drastically change an AngularQuadrature after it
     // has been constructed, and potentially used to construct other things.
-    if ((n_polar_ != other.n_polar_) || (n_azimuthal_ != other.n_azimuthal_)) {
+    // An empty quadrature has not been used for anything yet.
+    if (!angles_.empty() && ((n_polar_ != other.n_polar_) ||
+                             (n_azimuthal_ != other.n_azimuthal_))) {
         std::stringstream msg;
         msg << "Incompatible angular quadrature assignment from other anglular "
                "quadrature!\n";
diff --git a/src/core/angular_quadrature.hpp b/src/core/angular_quadrature.hpp
index 53cf9f7..ab5bd21 100644
--- a/src/core/angular_quadrature.hpp
+++ b/src/core/angular_quadrature.hpp
@@ -53,7 +53,7 @@ public:
      */
     AngularQuadrature(const H5Node &input);
 
-    AngularQuadrature(){};
+    AngularQuadrature() : ndir_oct_(0), n_polar_(-1), n_azimuthal_(-1){};
 
     AngularQuadrature &operator=(const AngularQuadrature &other);
 
-- 
2.43.0


From 846511993ae5222f5d25e5778320d19a74c5e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:13:26 +0000
Subject: [PATCH 17/43] fix: use the cell beside the surface when estimating
 the surface flux at a lower vacuum boundary

Without transport data, CMFD estimates the surface flux at a boundary from the
only adjacent cell. At the west, south and bottom faces the weight was taken
from the boundary side when that side was vacuum. This gave a nonzero incoming
partial current and a result that differed from the mirrored problem.
---
 src/core/cmfd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/cmfd.cpp b/src/core/cmfd.cpp
index ab2c243..1539929 100644
--- a/src/core/cmfd.cpp
+++ b/src/core/cmfd.cpp
@@ -463,7 +463,7 @@ void CMFD::setup_solve()
             // the convention that if possible the bound cell is the one to
             // the "left" of the surface. When such a cell is not present
             // (domain boundary), the cell is to the "right"
-            real_t stil = (diffusivity_1 > 0.0)
+            real_t stil = (cells.first > -1)
                               ? diffusivity_1 / (diffusivity_1 + diffusivity_2)
                               : diffusivity_2 / (diffusivity_1 + diffusivity_2);
 
-- 
2.43.0


From 916bb113604b059fa95a64aec0a7750544f2d2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:23 +0000
Subject: [PATCH 18/43] fix: store CMFD axial currents only on macroplane
 boundaries, including the top

When planes are grouped into macroplanes, the macroplane index was never
advanced while copying the axial currents back. Surfaces inside a macroplane
received the current of its bottom face instead of zero. The top face of the
core was never copied and kept zero current.
---
 src/core/cmfd.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/cmfd.cpp b/src/core/cmfd.cpp
index 1539929..8095329 100644
--- a/src/core/cmfd.cpp
+++ b/src/core/cmfd.cpp
@@ -626,9 +626,16 @@ void CMFD::store_currents()
                     int stp_coarse = mesh_.plane_surf_xy_begin(mplane) - 1;
                     coarse_data_.current(blitz::Range(stt_fine, stp_fine), ig) =
                         current_1g_(blitz::Range(stt_coarse, stp_coarse));
+                    current_mplane = mplane;
                 }
             }
-
+            // Lastly, the top surface currents
+            int stt_fine   = fine_mesh_->plane_surf_begin(nz);
+            int stp_fine   = fine_mesh_->plane_surf_xy_begin(nz) - 1;
+            int stt_coarse = mesh_.plane_surf_begin(mesh_.nz());
+            int stp_coarse = mesh_.plane_surf_xy_begin(mesh_.nz()) - 1;
+            coarse_data_.current(blitz::Range(stt_fine, stp_fine), ig) =
+                current_1g_(blitz::Range(stt_coarse, stp_coarse));
         } else {
             coarse_data_.current(blitz::Range::all(), ig) = current_1g_;
         }
-- 
2.43.0


From af73303c63b8c3f49171a87251610a1f94e8d24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:31 +0000
Subject: [PATCH 19/43] fix: map CMFD surface fluxes and partial currents
 through macroplanes

With planes grouped into macroplanes the CMFD mesh has fewer surfaces than the
mesh the transport sweepers use. Surface fluxes and partial currents were read
and written with the CMFD surface index on arrays sized for the fine mesh. They
ended up on unrelated surfaces.
---
 src/core/cmfd.cpp | 69 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 67 insertions(+), 2 deletions(-)

diff --git a/src/core/cmfd.cpp b/src/core/cmfd.cpp
index 8095329..64ec3a5 100644
--- a/src/core/cmfd.cpp
+++ b/src/core/cmfd.cpp
@@ -56,6 +56,34 @@ Mesh make_cmfd_mesh(const CoreMesh *mesh)
     return Mesh(n_reg, n_reg, mesh->x_divisions(), mesh->y_divisions(),
                 mplane_z, mesh->boundary());
 }
+
+/**
+ * \brief Return the CMFD surface that each surface of the fine mesh belongs to.
+ * Surfaces in the interior of a macroplane have no CMFD surface, and get -1.
+ */
+VecI make_cmfd_surfaces(const Mesh &fine, const Mesh &coarse)
+{
+    VecI surfs(fine.n_surf(), -1);
+    for (int iz = 0; iz <= (int)fine.nz(); iz++) {
+        bool top   = iz == (int)fine.nz();
+        int mplane = top ? (int)coarse.nz() : (int)fine.macroplane_index(iz);
+        if (top || iz == 0 || (int)fine.macroplane_index(iz - 1) != mplane) {
+            int coarse_surf = coarse.plane_surf_begin(mplane);
+            for (int is = fine.plane_surf_begin(iz);
+                 is < (int)fine.plane_surf_xy_begin(iz); is++) {
+                surfs[is] = coarse_surf++;
+            }
+        }
+        if (!top) {
+            int coarse_surf = coarse.plane_surf_xy_begin(mplane);
+            for (int is = fine.plane_surf_xy_begin(iz);
+                 is < (int)fine.plane_surf_end(iz); is++) {
+                surfs[is] = coarse_surf++;
+            }
+        }
+    }
+    return surfs;
+}
 }
 
 namespace mocc {
@@ -340,6 +368,8 @@ void CMFD::setup_solve()
     int nz        = fine_mesh_->nz();
     int n_mplanes = fine_mesh_->n_macroplanes();
     int group     = 0;
+
+    const VecI cmfd_surfs = make_cmfd_surfaces(*fine_mesh_, mesh_);
     for (auto &m : m_) {
         // Diffusion coefficients
         VecF d_coeff(n_cell_);
@@ -414,6 +444,28 @@ void CMFD::setup_solve()
             current_1g_ = coarse_data_.current(blitz::Range::all(), group);
         }
 
+        // Homogenize the surface fluxes in the same manner
+        ArrayB1 surface_flux_1g(n_surf_);
+        surface_flux_1g = 0.0;
+        for (int iz = 0; iz <= nz; iz++) {
+            for (int is = fine_mesh_->plane_surf_begin(iz);
+                 is < (int)fine_mesh_->plane_surf_xy_begin(iz); is++) {
+                if (cmfd_surfs[is] >= 0) {
+                    surface_flux_1g(cmfd_surfs[is]) =
+                        coarse_data_.surface_flux(is, group);
+                }
+            }
+            if (iz < nz) {
+                real_t f = fine_mesh_->dz(iz) /
+                           mesh_.dz(fine_mesh_->macroplane_index(iz));
+                for (int is = fine_mesh_->plane_surf_xy_begin(iz);
+                     is < (int)fine_mesh_->plane_surf_end(iz); is++) {
+                    surface_flux_1g(cmfd_surfs[is]) +=
+                        f * coarse_data_.surface_flux(is, group);
+                }
+            }
+        }
+
         // Loop over the surfaces in the mesh, and calculate the inter-cell
         // coupling coefficients
         for (int is = 0; is < n_surf_; is++) {
@@ -476,7 +528,7 @@ void CMFD::setup_solve()
                                  : coarse_data_.has_radial_data();
             if (have_data) {
                 real_t j        = current_1g_(is);
-                real_t sfc_flux = coarse_data_.surface_flux(is, group);
+                real_t sfc_flux = surface_flux_1g(is);
                 real_t flux_l   = cells.first >= 0
                                     ? coarse_data_.flux(cells.first, group)
                                     : 0.0;
@@ -556,6 +608,8 @@ void CMFD::store_currents()
 {
     coarse_data_.source() = "CMFD";
     int n_group           = xsmesh_.n_group();
+    const VecI cmfd_surfs = make_cmfd_surfaces(*fine_mesh_, mesh_);
+    ArrayB1 cmfd_surface_flux(n_surf_);
     for (int ig = 0; ig < n_group; ig++) {
         auto all             = blitz::Range::all();
         auto surface_flux_1g = coarse_data_.surface_flux(all, ig);
@@ -593,11 +647,22 @@ void CMFD::store_currents()
                           s_hat * (flux_l + flux_r)
                     : s_tilde * flux_r + s_hat * (flux_l + flux_r);
 
+            cmfd_surface_flux(is) = surface_flux;
+        } // surfaces
+
+        // Apply the surface fluxes and partial currents to the fine surfaces
+        for (int is = 0; is < (int)cmfd_surfs.size(); is++) {
+            real_t surface_flux = 0.0;
+            real_t current      = 0.0;
+            if (cmfd_surfs[is] >= 0) {
+                surface_flux = cmfd_surface_flux(cmfd_surfs[is]);
+                current      = current_1g_(cmfd_surfs[is]);
+            }
             surface_flux_1g(is) = surface_flux;
 
             partial_1g(is) = {{0.25 * surface_flux + 0.5 * current,
                                0.25 * surface_flux - 0.5 * current}};
-        } // surfaces
+        }
 
         // apply the CMFD mesh currents to the CoarseData object
         // Start by zeroing out the destination currents, so its easier to
-- 
2.43.0


From 67b3fa8c06772d50532c1cc9e1a58385311d4341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:29 +0000
Subject: [PATCH 20/43] fix: keep homogenized pin fluxes when setting MoC flux
 on the pin mesh

setting a flux on the full axial pin mesh averaged it over each macroplane and
then replaced the result with the raw input, so each macroplane received the
values of unrelated planes.
---
 src/sweepers/moc/moc_sweeper.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sweepers/moc/moc_sweeper.cpp b/src/sweepers/moc/moc_sweeper.cpp
index 45c9b2c..1f2a07c 100644
--- a/src/sweepers/moc/moc_sweeper.cpp
+++ b/src/sweepers/moc/moc_sweeper.cpp
@@ -394,7 +394,9 @@ real_t MoCSweeper::set_pin_flux_1g(int group, const ArrayB1 &pin_flux,
             plane_pin_flux(i) /= mesh_.macroplane_heights()[iz];
         }
     case MeshTreatment::PIN_PLANE: {
-        plane_pin_flux = pin_flux;
+        if (treatment == MeshTreatment::PIN_PLANE) {
+            plane_pin_flux = pin_flux;
+        }
         int iz       = 0;
         int ireg     = 0;
         for (const auto &mplane : mesh_.macroplanes()) {
-- 
2.43.0


From 011cc98790d1203fb3422098fc1253344a7d0353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:40 +0000
Subject: [PATCH 21/43] fix: use each cell own flux in the Sn pin flux residual

The residual returned when setting the Sn flux compared every new value with the
flux of cell 1.
---
 src/sweepers/sn/sn_sweeper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sweepers/sn/sn_sweeper.hpp b/src/sweepers/sn/sn_sweeper.hpp
index 41981d0..410ceb8 100644
--- a/src/sweepers/sn/sn_sweeper.hpp
+++ b/src/sweepers/sn/sn_sweeper.hpp
@@ -110,7 +110,7 @@ public:
         case MeshTreatment::PIN: {
             int i = 0;
             for (auto &v : pin_flux) {
-                real_t e = flux_(1, group) - v;
+                real_t e = flux_(i, group) - v;
                 resid += e * e;
                 flux_((int)i, (int)group) = v;
                 i++;
-- 
2.43.0


From d4abb92a0b5d4cb32c21ea6d17e4c5e1d887d824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:59 +0000
Subject: [PATCH 22/43] fix: look up boundary surfaces when updating the MoC
 incoming flux

The update used the coarse cell index of the ray ends as a surface index, ignored
the plane, and indexed the per-macroplane boundary storage by axial plane.
---
 src/sweepers/moc/moc_sweeper.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sweepers/moc/moc_sweeper.hpp b/src/sweepers/moc/moc_sweeper.hpp
index 09ce952..dbd17e2 100644
--- a/src/sweepers/moc/moc_sweeper.hpp
+++ b/src/sweepers/moc/moc_sweeper.hpp
@@ -202,8 +202,10 @@ protected:
         // Mesh, and adjust the BC accordingly
         for (auto g : groups_) {
             int iplane = 0;
-            for (auto plane_geom_id : mesh_.unique_plane_ids()) {
+            for (auto plane_geom_id : macroplane_unique_ids_) {
                 auto &bc         = boundary_[iplane];
+                int surf_offset  = mesh_.coarse_surf_offset(
+                    mesh_.macroplanes()[iplane].iz_min);
                 const auto &rays = rays_[plane_geom_id];
                 int iang         = 0;
                 for (const auto &ang_rays : rays) {
@@ -214,8 +216,8 @@ protected:
                     real_t *bc_bw = bc.get_boundary(g, iang2).second;
 
                     for (const auto &ray : ang_rays) {
-                        int is1 = ray.cm_cell_fw();
-                        int is2 = ray.cm_cell_bw();
+                        int is1 = surf_offset + ray.cm_surf_fw();
+                        int is2 = surf_offset + ray.cm_surf_bw();
                         int bc1 = ray.bc(0);
                         int bc2 = ray.bc(1);
 
-- 
2.43.0


From d41b0bfec80e9e9c2af68a5c82ea2c4a7d8bedac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:00:07 +0000
Subject: [PATCH 23/43] fix: copy the values of a boundary condition

The copy constructor allocated storage but left it uninitialized.
---
 src/core/boundary_condition.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/boundary_condition.cpp b/src/core/boundary_condition.cpp
index 5d0ad33..5eb6eef 100644
--- a/src/core/boundary_condition.cpp
+++ b/src/core/boundary_condition.cpp
@@ -81,6 +81,7 @@ BoundaryCondition::BoundaryCondition(const BoundaryCondition &rhs)
     : BoundaryCondition(rhs.n_group_, rhs.ang_quad_, rhs.bc_, rhs.size_,
             (rhs.factor_==2.0?2:3))
 {
+    data_ = rhs.data_;
     return;
 }
 
-- 
2.43.0


From 9229e66eab838a74454fc3d7c7882041d6a8175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:00:13 +0000
Subject: [PATCH 24/43] fix: update the remaining faces when a direction has an
 empty face

The boundary exchange stopped at the first face without values and skipped the
others.
---
 src/core/boundary_condition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/boundary_condition.cpp b/src/core/boundary_condition.cpp
index 5eb6eef..d41121b 100644
--- a/src/core/boundary_condition.cpp
+++ b/src/core/boundary_condition.cpp
@@ -162,7 +162,7 @@ void BoundaryCondition::update(int group, int angle,
         int size    = size_[angle][(int)n];
         int iang_in = ang_quad_.reflect(angle, n);
         if (size == 0) {
-            break;
+            continue;
         }
         assert(size == out.size_[iang_in][(int)n]);
         assert(iang_in < n_angle_);
-- 
2.43.0


From f80aa7298f06b0dec469ba07a08f3315c337dba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:53 +0000
Subject: [PATCH 25/43] fix: do not read past the exponential table at its
 upper end

Evaluating the table at exactly its maximum, as for a ray segment of zero optical
thickness, interpolated with the element after the last one.
---
 src/core/exponential.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/exponential.hpp b/src/core/exponential.hpp
index 25db6ad..77a6464 100644
--- a/src/core/exponential.hpp
+++ b/src/core/exponential.hpp
@@ -61,7 +61,8 @@ public:
           space_((max - min_) / (real_t)(N)),
           rspace_(1.0 / space_)
     {
-        for (int i = 0; i <= N; i++) {
+        // One extra point, so that max itself can be interpolated
+        for (int i = 0; i <= N + 1; i++) {
             d_[i] = std::exp(min_ + i * space_);
         }
     }
@@ -108,7 +109,7 @@ protected:
     real_t max_;
     real_t space_;
     real_t rspace_;
-    std::array<real_t, N + 1> d_;
+    std::array<real_t, N + 2> d_;
 };
 
 /**
-- 
2.43.0


From 578943a711cfb7614d75db3ab05823e8ec9e7568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:01 +0000
Subject: [PATCH 26/43] fix: find the region of points on the lower edges of a
 rectangular pin

The lookup returned a negative region, or the last region of the row below, for
points exactly on the left or bottom edge.
---
 src/core/pin_mesh_rect.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/pin_mesh_rect.cpp b/src/core/pin_mesh_rect.cpp
index 8842e9e..8c72ae2 100644
--- a/src/core/pin_mesh_rect.cpp
+++ b/src/core/pin_mesh_rect.cpp
@@ -155,8 +155,9 @@ int PinMesh_Rect::find_reg(Point2 p) const
         hx_.begin(), std::lower_bound(hx_.cbegin(), hx_.cend(), p.x));
     int iy = std::distance(
         hy_.begin(), std::lower_bound(hy_.cbegin(), hy_.cend(), p.y));
-    ix--;
-    iy--;
+    // Points on the lower edges of the pin belong to the first regions
+    ix = std::max(0, ix - 1);
+    iy = std::max(0, iy - 1);
     
     int ireg = nx_ * iy + ix ;
 
-- 
2.43.0


From 778dde45bb90f8a56bf1275e07927fd6faa64497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:06 +0000
Subject: [PATCH 27/43] fix: pick the azimuthal region ahead of a point on a
 pin division

For a point on a division between two sectors the side was chosen by comparing
azimuths as plain numbers, which picks the sector behind the particle for half of
the directions and can give a negative sector.
---
 src/core/pin_mesh_cyl.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/pin_mesh_cyl.cpp b/src/core/pin_mesh_cyl.cpp
index 04a2598..34cecd4 100644
--- a/src/core/pin_mesh_cyl.cpp
+++ b/src/core/pin_mesh_cyl.cpp
@@ -286,9 +286,6 @@ int PinMesh_Cyl::find_reg(Point2 p, Direction dir) const
 
     // Find the azimuthal subdivision that the point is in.
     real_t azi = p.alpha();
-    if (fp_equiv_ulp(azi, TWOPI)) {
-        azi = (dir.alpha > PI) ? TWOPI : 0.0;
-    }
     real_t azi_space = (TWOPI / sub_azi_[0]);
     real_t azi_div   = azi / azi_space;
     int closest_azi  = std::round(azi_div);
@@ -296,11 +293,13 @@ int PinMesh_Cyl::find_reg(Point2 p, Direction dir) const
     int ia = -1;
 
     if (fp_equiv_abs(closest_azi * azi_space, azi)) {
-        ia = (azi < dir.alpha) ? closest_azi : closest_azi - 1;
+        // Use the side of the division that the direction points to
+        real_t cross = p.x * dir.oy - p.y * dir.ox;
+        ia           = (cross >= 0.0) ? closest_azi : closest_azi - 1;
     } else {
         ia = (int)azi_div;
     }
-    ia = ia % sub_azi_[0];
+    ia = (ia + sub_azi_[0]) % sub_azi_[0];
 
     // Determine the actual region index
     int ireg = ir * sub_azi_[0] + ia;
-- 
2.43.0


From 0f96b89505b2eae814cb4c81976b72eba10af04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:27 +0000
Subject: [PATCH 28/43] fix: keep the azimuth of points on the x axis within
 one turn

Points on the negative x axis had an azimuth of 3 pi and points on the positive x
axis of 2 pi, which put them in the wrong region of a cylindrical pin.
---
 src/core/geometry/points.hpp | 8 ++------
 src/core/pin_mesh_cyl.cpp    | 2 ++
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/core/geometry/points.hpp b/src/core/geometry/points.hpp
index b69172b..7f98011 100644
--- a/src/core/geometry/points.hpp
+++ b/src/core/geometry/points.hpp
@@ -86,12 +86,8 @@ public:
     // jiggery to force the result to lie in [0,2PI]
     real_t alpha() const
     {
-        if (y > 0.0) {
-            return atan2(y, x);
-        }
-        else {
-            return atan2(y, x) + TWOPI;
-        }
+        real_t a = atan2(y, x);
+        return a < 0.0 ? a + TWOPI : a;
     }
 
 private:
diff --git a/src/core/pin_mesh_cyl.cpp b/src/core/pin_mesh_cyl.cpp
index 34cecd4..653f78f 100644
--- a/src/core/pin_mesh_cyl.cpp
+++ b/src/core/pin_mesh_cyl.cpp
@@ -248,6 +248,8 @@ int PinMesh_Cyl::find_reg(Point2 p) const
     // Find the azimuthal subdivision that the point is in.
     real_t azi = p.alpha();
     int ia     = azi / (TWOPI / sub_azi_[0]);
+    // Just below the x axis, azi may round to a full turn
+    ia         = std::min(ia, sub_azi_[0] - 1);
     int ireg   = ir * sub_azi_[0] + ia;
 
     assert((0 <= ireg) && (ireg < n_reg_));
-- 
2.43.0


From 0d0217ea5a6c893c96165abab4fcd138b4e04b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:09:27 +0000
Subject: [PATCH 29/43] fix: find the pin ahead of a point on a pin boundary of
 the core

A point on the boundary between two pins was looked up in the pin behind
it, or not found at all, because the comparison with the pin boundaries
was exact and did not consider the direction.
---
 src/core/core_mesh.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/core/core_mesh.cpp b/src/core/core_mesh.cpp
index b96a5e0..daf023f 100644
--- a/src/core/core_mesh.cpp
+++ b/src/core/core_mesh.cpp
@@ -248,13 +248,22 @@ CoreMesh::LocationInfo CoreMesh::get_location_info(Point3 p,
 {
     LocationInfo info;
 
-    // Locate the pin Position
-    int ix = std::distance(x_vec_.begin(),
-                           std::lower_bound(x_vec_.begin(), x_vec_.end(), p.x));
+    // Locate the pin Position. As in Plane and Lattice, a point on a pin boundary
+    // is in the pin that the direction points to.
+    int ix = std::distance(
+        x_vec_.begin(),
+        std::lower_bound(x_vec_.begin(), x_vec_.end(), p.x, fuzzy_lt));
+    if (ix < (int)nx_ && fp_equiv(p.x, x_vec_[ix]) && dir.ox > 0.0) {
+        ix++;
+    }
     info.pos.x = ix - 1;
 
-    int iy = std::distance(y_vec_.begin(),
-                           std::lower_bound(y_vec_.begin(), y_vec_.end(), p.y));
+    int iy = std::distance(
+        y_vec_.begin(),
+        std::lower_bound(y_vec_.begin(), y_vec_.end(), p.y, fuzzy_lt));
+    if (iy < (int)ny_ && fp_equiv(p.y, y_vec_[iy]) && dir.oy > 0.0) {
+        iy++;
+    }
     info.pos.y = iy - 1;
 
     info.pos.z = this->plane_index(p.z, dir.oz);
-- 
2.43.0


From 389dd68a8c7b0dc9527a0e1d1fce4eab2ddb1656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:09:32 +0000
Subject: [PATCH 30/43] fix: respect the aspect ratio in rational ray
 modularization

The rational approximation of the tangent was used as the ratio of ray
counts without the ratio of the side lengths, so that on oblong domains
the modified angle was far from the one asked for.
---
 src/sweepers/moc/ray_data.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/sweepers/moc/ray_data.cpp b/src/sweepers/moc/ray_data.cpp
index 2740e69..615df32 100644
--- a/src/sweepers/moc/ray_data.cpp
+++ b/src/sweepers/moc/ray_data.cpp
@@ -496,22 +496,23 @@ std::pair<int, int> RayData::modularize_angle(Angle ang, real_t hx, real_t hy,
 
     switch (modularization_method_) {
     case Modularization::RATIONAL: {
-        // Get the angle cast into a slope less than 1, so that we can find a
-        // rational approximation to it.
-        real_t m = (ang.alpha < PI / 4.0) ? std::tan(ang.alpha)
-                                          : std::tan(PI / 2.0 - ang.alpha);
+        // Nx/Ny is the slope of the angle scaled to a square domain. Cast it
+        // into something less than 1, so that we can find a rational
+        // approximation to it.
+        real_t m   = std::tan(ang.alpha) * hx / hy;
+        bool steep = m > 1.0;
         // Determine the best rational approximation of the slope.
-        auto Nxy     = rational_approximation(m, 0.002, 0);
-        Nx           = Nxy.first;
-        Ny           = Nxy.second;
+        auto Nxy = rational_approximation(steep ? 1.0 / m : m, 0.002, 0);
+        Nx       = Nxy.first;
+        Ny       = Nxy.second;
+        if (steep) {
+            std::swap(Nx, Ny);
+        }
         real_t alpha = std::atan((Nx * hy) / (Ny * hx));
         int scale =
             std::ceil((hx / Nx * std::abs(std::sin(alpha))) / nominal_spacing);
         Nx *= scale;
         Ny *= scale;
-        if (ang.alpha > PI / 4.0) {
-            std::swap(Nx, Ny);
-        }
 
     } break;
     case Modularization::TRIG:
-- 
2.43.0


From 9d0515ba64cb47492218ac4f5869842514a077ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:52:13 +0000
Subject: [PATCH 31/43] fix: start transverse leakage splitting from zero

With tl_splitting enabled, a MoC sweep that no transverse leakage was
applied to before added uninitialized memory to the cross sections.
---
 src/sweepers/moc/moc_sweeper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sweepers/moc/moc_sweeper.cpp b/src/sweepers/moc/moc_sweeper.cpp
index 1f2a07c..ed8013c 100644
--- a/src/sweepers/moc/moc_sweeper.cpp
+++ b/src/sweepers/moc/moc_sweeper.cpp
@@ -119,6 +119,7 @@ MoCSweeper::MoCSweeper(const pugi::xml_node &input, const CoreMesh &mesh)
     allow_splitting_ = input.attribute("tl_splitting").as_bool(false);
     if (allow_splitting_) {
         split_.resize(n_reg_);
+        split_ = 0.0;
     }
 
     // Sanity-check the subplane parameters. We will operate on the assumption
-- 
2.43.0


From e927a1aabfa93f33646b2e0812c92a57441dae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:52:19 +0000
Subject: [PATCH 32/43] fix: add the backward contributions to the 2D3D surface
 flux

They were subtracted, as they are for the net current, so that the MoC
surface flux of the 2D3D sweeper came out near zero.
---
 src/sweepers/cmdo/correction_worker.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sweepers/cmdo/correction_worker.hpp b/src/sweepers/cmdo/correction_worker.hpp
index 039c9bd..a696702 100644
--- a/src/sweepers/cmdo/correction_worker.hpp
+++ b/src/sweepers/cmdo/correction_worker.hpp
@@ -133,7 +133,7 @@ public:
                 psi2[iseg_bw] * current_weights_[norm_bw];
             surface_flux(surf_fw + surf_offset_) +=
                 psi1[iseg_fw] * flux_weights_[norm_fw];
-            surface_flux(surf_bw + surf_offset_) -=
+            surface_flux(surf_bw + surf_offset_) +=
                 psi2[iseg_bw] * flux_weights_[norm_bw];
 
             surf_sum_(surf_fw * 2 + 0) += psi1[iseg_fw];
@@ -191,7 +191,7 @@ public:
                     surf_bw = mesh_->coarse_surf(cell_bw, crd->bw);
                     current(surf_bw + surf_offset_) -=
                         psi2[iseg_bw] * current_weights_[norm_bw];
-                    surface_flux(surf_bw + surf_offset_) -=
+                    surface_flux(surf_bw + surf_offset_) +=
                         psi2[iseg_bw] * flux_weights_[norm_bw];
                     surf_sum_(surf_bw * 2 + 1) += psi2[iseg_bw];
                     surf_norm_(surf_bw * 2 + 1) += 1.0;
-- 
2.43.0


From bf5efb83fa59c5b85b1ecb08835f69fa78a2123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:52:30 +0000
Subject: [PATCH 33/43] fix: weight the Sn surface flux with the quadrature

The surface flux handed to the coarse mesh was the plain sum of the
angular fluxes, which is not the scalar flux on the surface that CMFD
and the incoming flux update take it for.
---
 src/sweepers/sn/sn_current_worker.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/sweepers/sn/sn_current_worker.hpp b/src/sweepers/sn/sn_current_worker.hpp
index 612d028..7c3f2f9 100644
--- a/src/sweepers/sn/sn_current_worker.hpp
+++ b/src/sweepers/sn/sn_current_worker.hpp
@@ -89,7 +89,7 @@ public:
 #pragma omp atomic update
                 data_->current(surf, group) += ox * x[ny * iz + iy];
 #pragma omp atomic update
-                data_->surface_flux(surf, group) += x[ny * iz + iy];
+                data_->surface_flux(surf, group) += w * x[ny * iz + iy];
             }
         }
 
@@ -102,7 +102,7 @@ public:
 #pragma omp atomic update
                 data_->current(surf, group) += oy * y[nx * iz + ix];
 #pragma omp atomic update
-                data_->surface_flux(surf, group) += y[nx * iz + ix];
+                data_->surface_flux(surf, group) += w * y[nx * iz + ix];
             }
         }
 
@@ -115,7 +115,7 @@ public:
 #pragma omp atomic update
                 data_->current(surf, group) += oz * z[nx * iy + ix];
 #pragma omp atomic update
-                data_->surface_flux(surf, group) += z[nx * iy + ix];
+                data_->surface_flux(surf, group) += w * z[nx * iy + ix];
             }
         }
 
@@ -159,7 +159,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += ox * x[iy];
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += x[iy];
+            data_->surface_flux(surf, group) += w * x[iy];
         }
 
         // Y-normal
@@ -170,7 +170,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += oy * y[ix];
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += y[ix];
+            data_->surface_flux(surf, group) += w * y[ix];
         }
 
         return;
@@ -199,7 +199,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += psi_x * ox;
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += psi_x;
+            data_->surface_flux(surf, group) += psi_x * w;
         }
 
         // Y-normal
@@ -208,7 +208,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += psi_y * oy;
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += psi_y;
+            data_->surface_flux(surf, group) += psi_y * w;
         }
 
         // Z-normal
@@ -217,7 +217,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += psi_z * oz;
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += psi_z;
+            data_->surface_flux(surf, group) += psi_z * w;
         }
 
         return;
@@ -244,7 +244,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += psi_x * ox;
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += psi_x;
+            data_->surface_flux(surf, group) += psi_x * w;
         }
 
         // Y-normal
@@ -253,7 +253,7 @@ public:
 #pragma omp atomic update
             data_->current(surf, group) += psi_y * oy;
 #pragma omp atomic update
-            data_->surface_flux(surf, group) += psi_y;
+            data_->surface_flux(surf, group) += psi_y * w;
         }
 
         return;
-- 
2.43.0


From f6e32276a60a9222491b4c52556bd8eb2d05ef4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:46 +0000
Subject: [PATCH 34/43] fix: conserve neutrons in the multiple-balance axial
 treatment

The coefficients used the axial cosine where the cosine per plane height
belongs, which is only right for planes of height one, and the height was
looked up with a wrong index that could be beyond the top of the mesh.
---
 src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp b/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp
index c6a5afc..9ed4951 100644
--- a/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp
+++ b/src/sweepers/cmdo/sn_sweeper_cdd_mb.hpp
@@ -42,8 +42,6 @@ public:
                     real_t xstr, int i, const ThreadState &t_state) const
     {
         int ix    = i % mesh_.nx();
-        int iz    = i % mesh_.nx() * mesh_.ny();
-        real_t dz = mesh_.dz(iz);
         int ia = t_state.macroplane * this->plane_size_ + i % this->plane_size_;
         real_t tx = t_state.ox / mesh_.dx(ix);
 
@@ -56,11 +54,11 @@ public:
         real_t gx = 0.5;//ax * b;
         real_t gy = 0.5;//ay * b;
 
-        real_t psi = q - (dz * t_state.oz * q) / (2.0 * t_state.tz + xstr) +
+        real_t psi = q - (t_state.tz * q) / (2.0 * t_state.tz + xstr) +
                      2.0 * (tx * flux_x + t_state.ty * flux_y) +
                      t_state.tz * flux_z;
         psi /= tx / gx + t_state.ty / gy +
-               (t_state.oz * t_state.oz) / (t_state.tz + 0.5 * xstr) + xstr;
+               (t_state.tz * t_state.tz) / (t_state.tz + 0.5 * xstr) + xstr;
 
         flux_x = psi / gx - flux_x;
         flux_y = psi / gy - flux_y;
-- 
2.43.0


From f2072877f6df0ecf837091e7a6a3d7aecb14a97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:34:22 +0000
Subject: [PATCH 35/43] fix: project the MoC flux onto the Sn mesh with
 subplanes

With moc_project on, the pin flux of the MoC planes was handed over as if it
were given for every axial plane, which fails an assertion as soon as a
macroplane holds several of them.
---
 src/sweepers/cmdo/plane_sweeper_2d3d.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sweepers/cmdo/plane_sweeper_2d3d.cpp b/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
index e8632ef..fed4f8e 100644
--- a/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
+++ b/src/sweepers/cmdo/plane_sweeper_2d3d.cpp
@@ -172,7 +172,8 @@ void PlaneSweeper_2D3D::sweep(int group)
                                  MeshTreatment::PIN_PLANE);
 
     if (do_mocproject_) {
-        sn_sweeper_->set_pin_flux_1g(group, prev_moc_flux);
+        sn_sweeper_->set_pin_flux_1g(group, prev_moc_flux,
+                                     MeshTreatment::PIN_PLANE);
     }
 
     // Sn sweeper
-- 
2.43.0


From 0e9aac7e59d4c468730e5f21cd69d6ca36afec1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:41:40 +0000
Subject: [PATCH 36/43] fix: report the relative uncertainty of spatial tallies

It was multiplied with the square root of the volume of the region.
---
 src/sweepers/mc/tally_spatial.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sweepers/mc/tally_spatial.hpp b/src/sweepers/mc/tally_spatial.hpp
index 9abfbf1..c11ac05 100644
--- a/src/sweepers/mc/tally_spatial.hpp
+++ b/src/sweepers/mc/tally_spatial.hpp
@@ -131,8 +131,7 @@ public:
             real_t mean_of_square = data_[i].second / (n_ - 1.0);
             real_t variance       = mean_of_square - square_of_mean;
 
-            ret.push_back({mean * r_norm,
-                           std::sqrt(variance * r_norm) / (mean * r_norm)});
+            ret.push_back({mean * r_norm, std::sqrt(variance) / mean});
         }
 
         return ret;
-- 
2.43.0


From d0a9ac107a93059ab3c779d1ed847e4be77bd9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:41:43 +0000
Subject: [PATCH 37/43] fix: start an empty fission bank with no fission
 neutrons

The total was left uninitialized.
---
 src/sweepers/mc/fission_bank.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sweepers/mc/fission_bank.cpp b/src/sweepers/mc/fission_bank.cpp
index d0fa6b0..afbed1a 100644
--- a/src/sweepers/mc/fission_bank.cpp
+++ b/src/sweepers/mc/fission_bank.cpp
@@ -22,7 +22,8 @@
 
 namespace mocc {
 namespace mc {
-FissionBank::FissionBank(const CoreMesh &mesh) : mesh_(mesh)
+FissionBank::FissionBank(const CoreMesh &mesh)
+    : mesh_(mesh), total_fission_(0.0)
 {
     return;
 }
-- 
2.43.0


From 00b4c0587bcb697d6569bd0a84305496aead8fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:24:22 +0000
Subject: [PATCH 38/43] fix: give every Monte Carlo particle its own random
 stream

The number of draws to skip for a particle was computed in 32 bits. After
429,496 histories it wrapped around and later particles repeated the
random numbers of earlier ones.
---
 src/sweepers/mc/particle_pusher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sweepers/mc/particle_pusher.cpp b/src/sweepers/mc/particle_pusher.cpp
index b507b7b..65b286d 100644
--- a/src/sweepers/mc/particle_pusher.cpp
+++ b/src/sweepers/mc/particle_pusher.cpp
@@ -168,7 +168,7 @@ void ParticlePusher::simulate(Particle p, bool tally)
     bool print = print_particles_;
 
     RNG.set_seed(seed_);
-    RNG.jump_ahead((p.id + id_offset_) * 10000);
+    RNG.jump_ahead(((uint64_t)p.id + id_offset_) * 10000);
 
     // Register this particle with the tallies
     k_tally_tl_.add_weight(p.weight);
-- 
2.43.0


From d1ed5c012a70561c9ceeb0db6f934d57f794e7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:24:49 +0000
Subject: [PATCH 39/43] fix: read numbers directly in front of a brace

The character before an opening brace in a list of lattices was dropped, so
"12{3 4}" was read as "1 {3 4}".
---
 src/util/string_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/string_utils.cpp b/src/util/string_utils.cpp
index aac7638..de61b34 100644
--- a/src/util/string_utils.cpp
+++ b/src/util/string_utils.cpp
@@ -146,7 +146,7 @@ std::vector<std::vector<int>> explode_braces(std::string data)
         pos_stp = data.find('}', pos_stt);
         if (pos_stt - pos > 0) {
             std::vector<int> naked_ints =
-                explode_string<int>(data.substr(pos, pos_stt - pos - 1));
+                explode_string<int>(data.substr(pos, pos_stt - pos));
             if (naked_ints.size() > 0) {
                 for (const auto &v : naked_ints) {
                     out.push_back(std::vector<int>(1, v));
-- 
2.43.0


From 2f86e203738d0c89f77c75506cfef5654c9e0bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:24:49 +0000
Subject: [PATCH 40/43] fix: look up regions with pin-local coordinates

The lookup of the region at a point passed the origin of the pin to the pin
mesh instead of the position of the point in the pin.
---
 src/core/core_mesh.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/core_mesh.hpp b/src/core/core_mesh.hpp
index be9c798..58232b9 100644
--- a/src/core/core_mesh.hpp
+++ b/src/core/core_mesh.hpp
@@ -330,7 +330,8 @@ public:
         Point2 p2d    = p.to_2d();
         const auto pm = plane.get_pinmesh(p2d, ireg);
 
-        ireg += pm->find_reg(p2d);
+        // p2d is now the origin of the pin
+        ireg += pm->find_reg(p.to_2d() - p2d);
 
         return ireg;
     }
-- 
2.43.0


From b7240ae9920bf6d5fd86e468ca148934387f3be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:24:49 +0000
Subject: [PATCH 41/43] fix: check every material of a pin

Materials listed after the first fissile one were not checked to exist.
---
 src/core/pin.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/pin.cpp b/src/core/pin.cpp
index ae1d177..9f3bfa7 100644
--- a/src/core/pin.cpp
+++ b/src/core/pin.cpp
@@ -72,7 +72,6 @@ Pin::Pin(const pugi::xml_node &input, const PinMesh_Map_t &meshes,
         const auto &mat = mat_lib[mid];
         if (mat.is_fissile()) {
             is_fuel_ = true;
-            break;
         }
     }
 
-- 
2.43.0


From 497739564b8bb65d36b36c8ee9e7e07c55720e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:24:49 +0000
Subject: [PATCH 42/43] fix: refuse cores whose pin rows do not continue

Lattices of equal outer size but different numbers of pins were accepted side
by side, although the core assumes one set of pin boundaries.
---
 src/core/plane.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/plane.cpp b/src/core/plane.cpp
index f29d6a0..a0935fc 100644
--- a/src/core/plane.cpp
+++ b/src/core/plane.cpp
@@ -59,6 +59,10 @@ Plane::Plane(const std::vector<const Lattice *> &lattices, size_t nx, size_t ny)
             if (!fp_equiv_ulp(this->at(ix, iy).hy(), dy[iy])) {
                 throw EXCEPT("Lattices do not have compatible dimensions.");
             }
+            if (this->at(ix, iy).nx() != this->at(ix, 0).nx() ||
+                this->at(ix, iy).ny() != this->at(0, iy).ny()) {
+                throw EXCEPT("Lattices do not have matching pin rows.");
+            }
         }
     }
 
-- 
2.43.0


From 47a2d2f2d78a5be9884b6eae1e436d361a3c5b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:46:35 +0000
Subject: [PATCH 43/43] fix: give listed directions with a negative polar angle
 a proper azimuth

A direction listed with a polar angle below zero pointed into the first
octant but kept an azimuth in the third quadrant and a negative
reciprocal sine. Optical lengths along its rays came out negative. The
same direction is now stored with the positive polar angle.
---
 src/core/geometry/angle.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/geometry/angle.cpp b/src/core/geometry/angle.cpp
index 340519b..1eedca6 100644
--- a/src/core/geometry/angle.cpp
+++ b/src/core/geometry/angle.cpp
@@ -97,6 +97,13 @@ Angle::Angle(const pugi::xml_node &input)
             throw EXCEPT("Invalid azimuthal angle.");
         }
 
+        // A negative polar angle points the same way as the positive one at the
+        // opposite azimuth
+        if (theta < 0.0) {
+            theta = -theta;
+            alpha += (alpha < PI) ? PI : -PI;
+        }
+
         *this = Angle(alpha, theta, weight);
         return;
     }
-- 
2.43.0

