From 8221634a0574cffd4912800ffd970c1a8b0f3d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:34 +0000
Subject: [PATCH 01/25] fix: init: discard asymmetric results of an earlier run
 when asym is false

---
 src/_booz_xform/init.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index 97fba17..ab93313 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -169,6 +169,13 @@ void Booz_xform::init() {
     zmnc_b.setZero(mnboz, ns_b);
     numnc_b.setZero(mnboz, ns_b);
     gmns_b.setZero(mnboz, ns_b);
+  } else {
+    // Discard any results of an earlier run with asym = true.
+    bmns_b.resize(0, 0);
+    rmns_b.resize(0, 0);
+    zmnc_b.resize(0, 0);
+    numnc_b.resize(0, 0);
+    gmns_b.resize(0, 0);
   }
 
 }
-- 
2.43.0


From 9ed0347f134f67396c63d12910fb4ca58f076da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:34 +0000
Subject: [PATCH 02/25] fix: init_from_vmec: do not validate the surface list
 of an earlier equilibrium

---
 src/_booz_xform/init_from_vmec.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index 6b180df..acedc68 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -87,11 +87,6 @@ void Booz_xform::init_from_vmec(int ns,
     if (bsubvmns0.rows() != mnmax_nyq) throw std::runtime_error("bsubvmns0 has the wrong number of rows");
   }
 
-  for (j = 0; j < compute_surfs.size(); j++) {
-    if (compute_surfs[j] < 0) throw std::runtime_error("compute_surfs cannot be negative");
-    if (compute_surfs[j] >= ns - 1) throw std::runtime_error("compute_surfs has an entry that is too large for the given ns");
-  }
-
   // Done with validation.
 
   iota.resize(ns_in);
-- 
2.43.0


From c5d05f7f54702fd71b0d12521fd5f7f2daa35e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:34 +0000
Subject: [PATCH 03/25] fix: init_from_vmec: reject empty mode tables, change
 nothing before validation

---
 src/_booz_xform/init_from_vmec.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index acedc68..010bc9e 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -27,7 +27,6 @@ void Booz_xform::init_from_vmec(int ns,
         Vector& pres0,
         Vector& phi0) {
   int j, k;
-  ns_in = ns - 1;
 
   // Do some validation.
 
@@ -41,6 +40,8 @@ void Booz_xform::init_from_vmec(int ns,
       if (pres0.size() != ns) throw std::runtime_error("pres0.size() is not ns");
       if (phi0.size() != ns) throw std::runtime_error("phi0.size() is not ns");
   }
+  if (mnmax < 1) throw std::runtime_error("mnmax must be at least 1");
+  if (mnmax_nyq < 1) throw std::runtime_error("mnmax_nyq must be at least 1");
   if (xm.size() != mnmax) throw std::runtime_error("Size of xm is not mnmax");
   if (xn.size() != mnmax) throw std::runtime_error("Size of xn is not mnmax");
   if (xm_nyq.size() != mnmax_nyq) throw std::runtime_error("Size of xm_nyq is not mnmax_nyq");
@@ -89,6 +90,7 @@ void Booz_xform::init_from_vmec(int ns,
 
   // Done with validation.
 
+  ns_in = ns - 1;
   iota.resize(ns_in);
   for (j = 0; j < ns_in; j++)  {
       iota[j] = iotas[j + 1];
-- 
2.43.0


From eba8960e5ef0ed0ec26954389a907b950dfd8492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:34 +0000
Subject: [PATCH 04/25] fix: init_from_vmec: do not read beyond the last radial
 point if ns = 2

---
 src/_booz_xform/init_from_vmec.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index 010bc9e..cbc08df 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -257,7 +257,9 @@ void Booz_xform::init_from_vmec(int ns,
       if (m == 1) {
 	// For m=1, rmnc/sqrt(s) has a finite value at s = 0. Get this
 	// value by extrapolating from the values at the first two
-	// full grid points after s = 0.
+	// full grid points after s = 0. If there is only one such
+	// point (ns = 2), the extrapolation is constant.
+	k = std::min(2, ns - 1);
 
 	// Extrapolate:
 	//val_over_sqrt_s_on_axis = 2 * rmnc0(j, 1) / sqrt_s_full[1] - rmnc0(j, 2) / sqrt_s_full[2];
@@ -265,16 +267,16 @@ void Booz_xform::init_from_vmec(int ns,
 	//rmnc(j, 1) = 0.5 * (val_over_sqrt_s_on_axis + rmnc0(j, 1) / sqrt_s_full[1]) * sqrt_s_half[0];
 
 	rmnc(j, 0) = (1.5 * rmnc0(j, 1) / sqrt_s_full[1]
-		      - 0.5 * rmnc0(j, 2) / sqrt_s_full[2]) * sqrt_s_half[0];
+		      - 0.5 * rmnc0(j, k) / sqrt_s_full[k]) * sqrt_s_half[0];
 
 	zmns(j, 0) = (1.5 * zmns0(j, 1) / sqrt_s_full[1]
-		      - 0.5 * zmns0(j, 2) / sqrt_s_full[2]) * sqrt_s_half[0];
+		      - 0.5 * zmns0(j, k) / sqrt_s_full[k]) * sqrt_s_half[0];
 	if (asym) {
 	  rmns(j, 0) = (1.5 * rmns0(j, 1) / sqrt_s_full[1]
-			- 0.5 * rmns0(j, 2) / sqrt_s_full[2]) * sqrt_s_half[0];
+			- 0.5 * rmns0(j, k) / sqrt_s_full[k]) * sqrt_s_half[0];
 
 	  zmnc(j, 0) = (1.5 * zmnc0(j, 1) / sqrt_s_full[1]
-			- 0.5 * zmnc0(j, 2) / sqrt_s_full[2]) * sqrt_s_half[0];
+			- 0.5 * zmnc0(j, k) / sqrt_s_full[k]) * sqrt_s_half[0];
 	}
       }
     }
-- 
2.43.0


From db3a18165a2870bc2711d56d109ada0b454384d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:34 +0000
Subject: [PATCH 05/25] fix: init_from_vmec: do not print beyond the end of
 rmnc for verbose > 1

---
 src/_booz_xform/init_from_vmec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index cbc08df..80b186d 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -182,11 +182,11 @@ void Booz_xform::init_from_vmec(int ns,
       std::cout << "xn = " << xn << std::endl;
 
       std::cout << "rmnc, increasing ns index:";
-      for (j = 0; j < 4; j++) std::cout << " " << rmnc0(0, j);
+      for (j = 0; j < std::min(4, ns); j++) std::cout << " " << rmnc0(0, j);
       std::cout << std::endl;
 
       std::cout << "rmnc, ncreasing mnmax index:";
-      for (j = 0; j < 4; j++) std::cout << " " << rmnc0(j, 0);
+      for (j = 0; j < std::min(4, mnmax); j++) std::cout << " " << rmnc0(j, 0);
       std::cout << std::endl;
     }
   }
-- 
2.43.0


From 4e0d0acbeb944fb7fa95f45fdb86e34bdeb3d7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:35 +0000
Subject: [PATCH 06/25] fix: write_boozmn: write beta_b instead of an
 uninitialized vector

---
 src/_booz_xform/write_boozmn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_booz_xform/write_boozmn.cpp b/src/_booz_xform/write_boozmn.cpp
index 5e9814c..543e53b 100644
--- a/src/_booz_xform/write_boozmn.cpp
+++ b/src/_booz_xform/write_boozmn.cpp
@@ -82,7 +82,7 @@ void Booz_xform::write_boozmn(std::string filename) {
   // backwards-compatibility of the boozmn.nc files.
   Vector pres_b(ns_in + 1), beta_b(ns_in + 1);
   beta_b.setZero();
-  nc.put(radius_dim, "beta_b", pres_b, placeholder_str, "dimensionless");
+  nc.put(radius_dim, "beta_b", beta_b, placeholder_str, "dimensionless");
   Vector phip_dummy(ns_in + 1), chi_dummy(ns_in + 1), phi_dummy(ns_in+1);
   phip_dummy.setZero();
   chi_dummy.setZero();
-- 
2.43.0


From f7575a75736bd6f2d919aa0368a92aed68e51ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:35 +0000
Subject: [PATCH 07/25] fix: read_boozmn: zero chi when the file has no chi_b

---
 src/_booz_xform/read_boozmn.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index 5fd0152..bf3ea70 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -47,6 +47,8 @@ void Booz_xform::read_boozmn(std::string filename) {
   nc.get("buco_b", Boozer_I_in);
   nc.get("phi_b", phi);
   nc.get("phip_b", phip);
+  // chi_b is absent in some boozmn files.
+  chi.setZero();
   try {
       nc.get("chi_b", chi);
   } catch (std::runtime_error error) {
-- 
2.43.0


From 854f40b7af930b7b020953f8d69df12b28ef762b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:35 +0000
Subject: [PATCH 08/25] fix: initialize all scalar members of Booz_xform

---
 src/_booz_xform/booz_xform.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/_booz_xform/booz_xform.cpp b/src/_booz_xform/booz_xform.cpp
index 0f7e571..f4387fe 100644
--- a/src/_booz_xform/booz_xform.cpp
+++ b/src/_booz_xform/booz_xform.cpp
@@ -9,6 +9,18 @@ void Booz_xform::defaults() {
   mboz = 16;
   nboz = 16;
   aspect = 0;
+  toroidal_flux = 0;
+  asym = false;
+  nfp = 1;
+  mpol = 0;
+  ntor = 0;
+  mnmax = 0;
+  mpol_nyq = 0;
+  ntor_nyq = 0;
+  mnmax_nyq = 0;
+  ns_in = 0;
+  ns_b = 0;
+  mnboz = 0;
 }
 
 Booz_xform::Booz_xform() {
-- 
2.43.0


From 3d34b676f5390a421daa8c70e468ce18a743a949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:35 +0000
Subject: [PATCH 09/25] fix: init_trig: do not write column 1 if mmax = 0

---
 src/_booz_xform/init_trig.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/init_trig.cpp b/src/_booz_xform/init_trig.cpp
index 628c6e9..a2257b5 100644
--- a/src/_booz_xform/init_trig.cpp
+++ b/src/_booz_xform/init_trig.cpp
@@ -23,8 +23,12 @@ void booz_xform::init_trig(Vector& theta_grid_x, Vector& zeta_grid_x,
   for (j = 0; j < n_theta_zeta_x; j++) {
     cosmx(j, 0) = 1.0;
     cosnx(j, 0) = 1.0;
-    cosmx(j, 1) = cos(theta_grid_x[j]);
-    sinmx(j, 1) = sin(theta_grid_x[j]);
+  }
+  if (mmax >= 1) {
+    for (j = 0; j < n_theta_zeta_x; j++) {
+      cosmx(j, 1) = cos(theta_grid_x[j]);
+      sinmx(j, 1) = sin(theta_grid_x[j]);
+    }
   }
   if (nmax >= 1) {
     for (j = 0; j < n_theta_zeta_x; j++) {
-- 
2.43.0


From 1db24ba4744537f40e747364b7628e3a2a502210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:35 +0000
Subject: [PATCH 10/25] fix: init: allow poloidal modes up to the documented
 maximum mpol

---
 src/_booz_xform/init.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index ab93313..175114c 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -119,8 +119,8 @@ void Booz_xform::init() {
     }
   }
 
-  cosm.setZero(n_theta_zeta, mpol);
-  sinm.setZero(n_theta_zeta, mpol);
+  cosm.setZero(n_theta_zeta, mpol + 1);
+  sinm.setZero(n_theta_zeta, mpol + 1);
   cosn.setZero(n_theta_zeta, ntor + 1);
   sinn.setZero(n_theta_zeta, ntor + 1);
   cosm_nyq.setZero(n_theta_zeta, mpol_nyq + 1);
@@ -130,7 +130,7 @@ void Booz_xform::init() {
   
   init_trig(theta_grid, zeta_grid,
 	    cosm, sinm, cosn, sinn,
-	    mpol - 1, ntor, nfp);
+	    mpol, ntor, nfp);
   
   init_trig(theta_grid, zeta_grid,
 	    cosm_nyq, sinm_nyq, cosn_nyq, sinn_nyq,
-- 
2.43.0


From 3d33a6a854c1738d48026687f086f6aba6b027e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:23 +0000
Subject: [PATCH 11/25] fix: run: reject missing or inconsistent input data,
 surfaces and resolution

---
 src/_booz_xform/booz_xform.hpp |  1 +
 src/_booz_xform/run.cpp        | 59 ++++++++++++++++++++++++++++++++++
 2 files changed, 60 insertions(+)

diff --git a/src/_booz_xform/booz_xform.hpp b/src/_booz_xform/booz_xform.hpp
index 0b1a487..9a2e34e 100644
--- a/src/_booz_xform/booz_xform.hpp
+++ b/src/_booz_xform/booz_xform.hpp
@@ -53,6 +53,7 @@ namespace booz_xform {
     Matrix sinn_nyq; //!< Stores sin(n*zeta) for xn_nyq
 
     void defaults();
+    void validate();
     void check_accuracy(int, int, Vector&, Vector&, Vector&, Matrix&, Matrix&, Matrix&, Matrix&);
 
   public:
diff --git a/src/_booz_xform/run.cpp b/src/_booz_xform/run.cpp
index f593e7a..13612b8 100644
--- a/src/_booz_xform/run.cpp
+++ b/src/_booz_xform/run.cpp
@@ -1,9 +1,68 @@
 #include <iostream>
+#include <stdexcept>
+#include <cstdlib>
 #include "booz_xform.hpp"
 
 using namespace booz_xform;
 
+static void check_size(bool matches, const std::string& name) {
+  if (!matches) throw std::runtime_error("The array " + name + " is missing or has the wrong size");
+}
+
+static void check_modes(const IntVector& xm, const IntVector& xn, int mmax, int nmax, const std::string& name) {
+  for (int j = 0; j < xm.size(); j++) {
+    if (xm[j] < 0 || xm[j] > mmax || std::abs(xn[j]) > nmax)
+      throw std::runtime_error("A mode number in " + name + " exceeds the declared maximum");
+  }
+}
+
+/** Verify that the input data and settings are complete and
+ *  consistent. An exception is raised if not.
+ */
+void Booz_xform::validate() {
+  int j;
+
+  if (mboz < 1) throw std::runtime_error("mboz must be at least 1");
+  if (nboz < 0) throw std::runtime_error("nboz cannot be negative");
+  if (nfp < 1) throw std::runtime_error("nfp must be at least 1");
+  if (mnmax < 1) throw std::runtime_error("mnmax must be at least 1");
+  if (mnmax_nyq < 1) throw std::runtime_error("mnmax_nyq must be at least 1");
+
+  check_size(xm.size() == mnmax, "xm");
+  check_size(xn.size() == mnmax, "xn");
+  check_size(xm_nyq.size() == mnmax_nyq, "xm_nyq");
+  check_size(xn_nyq.size() == mnmax_nyq, "xn_nyq");
+  check_modes(xm, xn, mpol, nfp * ntor, "xm or xn");
+  check_modes(xm_nyq, xn_nyq, mpol_nyq, nfp * ntor_nyq, "xm_nyq or xn_nyq");
+  if (xm_nyq[0] != 0) throw std::runtime_error("xm_nyq does not seem correct");
+  if (xn_nyq[0] != 0) throw std::runtime_error("xn_nyq does not seem correct");
+
+  check_size(s_in.size() == ns_in, "s_in");
+  check_size(iota.size() == ns_in, "iota");
+  check_size(rmnc.rows() == mnmax && rmnc.cols() == ns_in, "rmnc");
+  check_size(zmns.rows() == mnmax && zmns.cols() == ns_in, "zmns");
+  check_size(lmns.rows() == mnmax && lmns.cols() == ns_in, "lmns");
+  check_size(bmnc.rows() == mnmax_nyq && bmnc.cols() == ns_in, "bmnc");
+  check_size(bsubumnc.rows() == mnmax_nyq && bsubumnc.cols() == ns_in, "bsubumnc");
+  check_size(bsubvmnc.rows() == mnmax_nyq && bsubvmnc.cols() == ns_in, "bsubvmnc");
+  if (asym) {
+    check_size(rmns.rows() == mnmax && rmns.cols() == ns_in, "rmns");
+    check_size(zmnc.rows() == mnmax && zmnc.cols() == ns_in, "zmnc");
+    check_size(lmnc.rows() == mnmax && lmnc.cols() == ns_in, "lmnc");
+    check_size(bmns.rows() == mnmax_nyq && bmns.cols() == ns_in, "bmns");
+    check_size(bsubumns.rows() == mnmax_nyq && bsubumns.cols() == ns_in, "bsubumns");
+    check_size(bsubvmns.rows() == mnmax_nyq && bsubvmns.cols() == ns_in, "bsubvmns");
+  }
+
+  for (j = 0; j < compute_surfs.size(); j++) {
+    if (compute_surfs[j] < 0) throw std::runtime_error("compute_surfs cannot be negative");
+    if (compute_surfs[j] >= ns_in) throw std::runtime_error("compute_surfs has an entry that is too large for the number of input surfaces");
+  }
+}
+
 void Booz_xform::run() {
+  validate();
+
   if (verbose > 0) {
     std::cout << "compute_surfs (0-based indices): ";
     for (int j = 0; j < compute_surfs.size(); j++) std::cout << " " << compute_surfs[j];
-- 
2.43.0


From 261909da710c04997b0b4fff88ef2020abb6194c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:23 +0000
Subject: [PATCH 12/25] fix: read_wout: validate the sizes in the header before
 using them

---
 src/_booz_xform/read_wout.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/_booz_xform/read_wout.cpp b/src/_booz_xform/read_wout.cpp
index bf05824..ae60cf8 100644
--- a/src/_booz_xform/read_wout.cpp
+++ b/src/_booz_xform/read_wout.cpp
@@ -27,6 +27,11 @@ void Booz_xform::read_wout(std::string filename, bool flux) {
   nc.get("mnmax_nyq", mnmax_nyq);
   nc.get("aspect", aspect);
 
+  if (ns < 2) throw std::runtime_error("ns must be at least 2");
+  if (nfp < 1) throw std::runtime_error("nfp must be at least 1");
+  if (mnmax < 1) throw std::runtime_error("mnmax must be at least 1");
+  if (mnmax_nyq < 1) throw std::runtime_error("mnmax_nyq must be at least 1");
+
   Vector phip0;
   Vector chi0;
   Vector pres0;
-- 
2.43.0


From f96b25abe53bbf1931d5b8336471bd0eb7e30b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:23 +0000
Subject: [PATCH 13/25] fix: NetCDFReader: do not overflow the target if a
 variable has an unexpected size

---
 src/_booz_xform/netcdf_reader.cpp | 30 +++++++++++++++++++++++++++---
 src/_booz_xform/netcdf_reader.hpp |  1 +
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/_booz_xform/netcdf_reader.cpp b/src/_booz_xform/netcdf_reader.cpp
index 01c6255..0a269de 100644
--- a/src/_booz_xform/netcdf_reader.cpp
+++ b/src/_booz_xform/netcdf_reader.cpp
@@ -31,10 +31,30 @@ size_t booz_xform::NetCDFReader::getdim(std::string dimname) {
   return dimval;
 }
 
+/** Verify that a variable in the file has the number of elements that is
+    about to be read.
+ */
+void booz_xform::NetCDFReader::check_size(std::string varname, int var_id, size_t size) {
+  int ndims_var, dim_ids[NC_MAX_VAR_DIMS], retval;
+  size_t dimval, file_size = 1;
+  if ((retval = nc_inq_varndims(ncid, var_id, &ndims_var)))
+    ERR(retval, varname);
+  if ((retval = nc_inq_vardimid(ncid, var_id, dim_ids)))
+    ERR(retval, varname);
+  for (int j = 0; j < ndims_var; j++) {
+    if ((retval = nc_inq_dimlen(ncid, dim_ids[j], &dimval)))
+      ERR(retval, varname);
+    file_size *= dimval;
+  }
+  if (file_size != size)
+    throw std::runtime_error("Variable " + varname + " in the netCDF file does not have the expected size");
+}
+
 void booz_xform::NetCDFReader::get(std::string varname, int& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
     ERR(retval, varname);
+  check_size(varname, var_id, 1);
   if ((retval = nc_get_var_int(ncid, var_id, &var)))
     ERR(retval, varname);
 }
@@ -43,39 +63,43 @@ void booz_xform::NetCDFReader::get(std::string varname, boozfloat& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
     ERR(retval, varname);
+  check_size(varname, var_id, 1);
   if ((retval = nc_get_var_double(ncid, var_id, &var)))
     ERR(retval, varname);
 }
 
 /** This subroutine presently assumes the Vector has already been
-    sized to the correct dimension. If not, there may be a seg fault.
+    sized to the correct dimension. If not, an exception is raised.
  */
 void booz_xform::NetCDFReader::get(std::string varname, Vector& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
     ERR(retval, varname);
+  check_size(varname, var_id, var.size());
   if ((retval = nc_get_var_double(ncid, var_id, &var[0])))
     ERR(retval, varname);
 }
 
 /** This subroutine presently assumes the IntVector has already been
-    sized to the correct dimension. If not, there may be a seg fault.
+    sized to the correct dimension. If not, an exception is raised.
  */
 void booz_xform::NetCDFReader::get(std::string varname, IntVector& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
     ERR(retval, varname);
+  check_size(varname, var_id, var.size());
   if ((retval = nc_get_var_int(ncid, var_id, &var[0])))
     ERR(retval, varname);
 }
 
 /** This subroutine presently assumes the matrix has already been
-    sized to the correct dimension. If not, there may be a seg fault.
+    sized to the correct dimension. If not, an exception is raised.
  */
 void booz_xform::NetCDFReader::get(std::string varname, Matrix& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
     ERR(retval, varname);
+  check_size(varname, var_id, var.size());
   if ((retval = nc_get_var_double(ncid, var_id, &var(0,0))))
     ERR(retval, varname);
 }
diff --git a/src/_booz_xform/netcdf_reader.hpp b/src/_booz_xform/netcdf_reader.hpp
index fc93111..4ba61eb 100644
--- a/src/_booz_xform/netcdf_reader.hpp
+++ b/src/_booz_xform/netcdf_reader.hpp
@@ -11,6 +11,7 @@ namespace booz_xform {
   private:
     int ncid, ndims, nvars, ngatts, unlimdimid;
     static void ERR(int, std::string);
+    void check_size(std::string, int, size_t);
     
   public:
     NetCDFReader(std::string);
-- 
2.43.0


From f8dff9d6c834a53d3d5d9c2058812645686a059d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:23 +0000
Subject: [PATCH 14/25] fix: write_boozmn: reject results that are missing or
 do not match the settings

---
 src/_booz_xform/write_boozmn.cpp | 33 ++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/_booz_xform/write_boozmn.cpp b/src/_booz_xform/write_boozmn.cpp
index 543e53b..a6b08e0 100644
--- a/src/_booz_xform/write_boozmn.cpp
+++ b/src/_booz_xform/write_boozmn.cpp
@@ -1,12 +1,45 @@
 #include <iostream>
+#include <stdexcept>
 #include <vector>
 #include "booz_xform.hpp"
 #include "netcdf_writer.hpp"
 
 using namespace booz_xform;
 
+static void check_size(bool matches, const std::string& name) {
+  if (!matches) throw std::runtime_error("Cannot write results: " + name + " is missing or has the wrong size. Call run() first.");
+}
+
 void Booz_xform::write_boozmn(std::string filename) {
   int j;
+
+  // Verify that results are available and match the surfaces and data
+  // that will be written with them.
+  check_size(ns_b > 0 && compute_surfs.size() == ns_b, "compute_surfs");
+  check_size(mnboz > 0 && xm_b.size() == mnboz, "xm_b");
+  check_size(xn_b.size() == mnboz, "xn_b");
+  check_size(iota.size() == ns_in, "iota");
+  check_size(Boozer_I_all.size() == ns_in, "Boozer_I_all");
+  check_size(Boozer_G_all.size() == ns_in, "Boozer_G_all");
+  check_size(bmnc_b.rows() == mnboz && bmnc_b.cols() == ns_b, "bmnc_b");
+  check_size(rmnc_b.rows() == mnboz && rmnc_b.cols() == ns_b, "rmnc_b");
+  check_size(zmns_b.rows() == mnboz && zmns_b.cols() == ns_b, "zmns_b");
+  check_size(numns_b.rows() == mnboz && numns_b.cols() == ns_b, "numns_b");
+  check_size(gmnc_b.rows() == mnboz && gmnc_b.cols() == ns_b, "gmnc_b");
+  if (asym) {
+    check_size(bmns_b.rows() == mnboz && bmns_b.cols() == ns_b, "bmns_b");
+    check_size(rmns_b.rows() == mnboz && rmns_b.cols() == ns_b, "rmns_b");
+    check_size(zmnc_b.rows() == mnboz && zmnc_b.cols() == ns_b, "zmnc_b");
+    check_size(numnc_b.rows() == mnboz && numnc_b.cols() == ns_b, "numnc_b");
+    check_size(gmns_b.rows() == mnboz && gmns_b.cols() == ns_b, "gmns_b");
+  }
+  if (phip.size() > 0) {
+    check_size(phip.size() == ns_in + 1, "phip");
+    check_size(chi.size() == ns_in + 1, "chi");
+    check_size(pres.size() == ns_in + 1, "pres");
+    check_size(phi.size() == ns_in + 1, "phi");
+  }
+
   if (verbose > 0) std::cout << "Writing output to " << filename << std::endl;
   NetCDFWriter nc(filename);
 
-- 
2.43.0


From 954d38903afe8f913324c81f58adc5d137c803ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:23 +0000
Subject: [PATCH 15/25] fix: modeplot: allow fewer modes than nmodes

---
 src/booz_xform/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 1417533..2a4aa86 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -346,8 +346,8 @@ def modeplot(b,
     if not log:
         plt.plot([0, 1], [0, 0], ':k')
         
-    for jmode in range(nmodes):
-        index = indices[jmode]
+    # There may be fewer than nmodes modes available.
+    for index in indices:
         plt.plot(rad, my_abs(data[index, :]),
                  label='$m=${}, $n=${}'.format(xm[index], xn[index]),
                  **kwargs)
-- 
2.43.0


From 4c6a2dcbbba1c4a1c5f70c206b9eb48a019e73ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:24 +0000
Subject: [PATCH 16/25] fix: wireplot: include the asymmetric terms in the
 surface normal

---
 src/booz_xform/plots.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 2a4aa86..9b9df9c 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -420,6 +420,8 @@ def wireplot(b,
         if b.asym:
             R += b.rmns_b[jmn, js] * sinangle
             Z += b.zmnc_b[jmn, js] * cosangle
+            d_R_d_theta += m * b.rmns_b[jmn, js] * cosangle
+            d_Z_d_theta += -m * b.zmnc_b[jmn, js] * sinangle
             nu += b.numnc_b[jmn, js] * cosangle
 
     # Following the sign convention in the code, to convert from the
-- 
2.43.0


From 20deafb796fb59290442f9dbed21bc5aa7cff720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:24 +0000
Subject: [PATCH 17/25] fix: wireplot: draw the curves for refine = 1

---
 src/booz_xform/plots.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 9b9df9c..2b80bf3 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -464,7 +464,7 @@ def wireplot(b,
         showlegend = True
         if index > 1:
             showlegend = False
-        if np.mod(index, refine) == 1:
+        if np.mod(index - 1, refine) == 0:
             data.append(go.Scatter3d(x=i, y=j, z=k,
                                      mode='lines', line=line_marker,
                                      showlegend=showlegend,
@@ -472,7 +472,7 @@ def wireplot(b,
     index = 0
     for i, j, k in zip(X.T, Y.T, Z.T):
         index += 1
-        if np.mod(index, refine) == 1:
+        if np.mod(index - 1, refine) == 0:
             data.append(go.Scatter3d(x=i, y=j, z=k,
                                      mode='lines', line=line_marker,
                                      showlegend=False))
@@ -504,7 +504,7 @@ def wireplot(b,
             showlegend = True
             if index > 1:
                 showlegend = False
-            if np.mod(index, refine) == 1:
+            if np.mod(index - 1, refine) == 0:
                 data.append(go.Scatter3d(x=i, y=j, z=k,
                                          mode='lines', line=line_marker,
                                          showlegend=showlegend,
@@ -512,7 +512,7 @@ def wireplot(b,
         index = 0
         for i, j, k in zip(X.T, Y.T, Z.T):
             index += 1
-            if np.mod(index, refine) == 1:
+            if np.mod(index - 1, refine) == 0:
                 data.append(go.Scatter3d(x=i, y=j, z=k,
                                          mode='lines', line=line_marker,
                                          showlegend=False))
-- 
2.43.0


From 70d16afd8030193e9e7c5a5df984346051a81034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:24 +0000
Subject: [PATCH 18/25] fix: wireplot: skip the original-angle curves if the
 original data are not available

---
 src/booz_xform/plots.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 2b80bf3..7145aab 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -477,8 +477,10 @@ def wireplot(b,
                                      mode='lines', line=line_marker,
                                      showlegend=False))
 
-    # Also show curves along which the original angles are constant:
-    if orig:
+    # Also show curves along which the original angles are constant.
+    # The original amplitudes are not available if the results were
+    # loaded from a boozmn_*.nc file.
+    if orig and b.mnmax > 0 and b.rmnc.shape == (b.mnmax, b.ns_in):
         js = b.compute_surfs[js]
         R = np.zeros_like(theta)
         Z = np.zeros_like(theta)
-- 
2.43.0


From ea7ae35ff041580b2cbce379b11da5e87d54bed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:14 +0000
Subject: [PATCH 19/25] fix: driver: do not print uninitialized numbers if mboz
 or nboz cannot be read

---
 src/_booz_xform/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_booz_xform/driver.cpp b/src/_booz_xform/driver.cpp
index fd8d637..627ab42 100644
--- a/src/_booz_xform/driver.cpp
+++ b/src/_booz_xform/driver.cpp
@@ -47,8 +47,8 @@ int booz_xform::driver(int argc, char* argv[]) {
 
   int mboz_in, nboz_in;
   file >> mboz_in >> nboz_in;
-  std::cout << "Read mboz = " << mboz_in << ", nboz = " << nboz_in << std::endl;
   if (file.fail()) throw std::runtime_error("Unable to read mboz and nboz");
+  std::cout << "Read mboz = " << mboz_in << ", nboz = " << nboz_in << std::endl;
 
   std::string extension;
   file >> extension;
-- 
2.43.0


From 030e36c0a5be24d097ce595d5d3f187193519159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:04 +0000
Subject: [PATCH 20/25] fix: read_boozmn: validate the sizes in the header
 before using them

---
 src/_booz_xform/read_boozmn.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index bf3ea70..37d3c3d 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -23,6 +23,7 @@ void Booz_xform::read_boozmn(std::string filename) {
   nc.get("mboz_b", mboz);
   nc.get("nboz_b", nboz);
   nc.get("mnboz_b", mnboz);
+  if (mnboz < 1) throw std::runtime_error("mnboz_b must be at least 1");
 
   xm_b.resize(mnboz);
   xn_b.resize(mnboz);
@@ -30,6 +31,7 @@ void Booz_xform::read_boozmn(std::string filename) {
   nc.get("ixn_b", xn_b);
 
   int radius = nc.getdim("radius");
+  if (radius < 1) throw std::runtime_error("The dimension radius must be at least 1");
   Vector iota_in, Boozer_G_in, Boozer_I_in;
   iota_in.resize(radius);
   Boozer_G_in.resize(radius);
-- 
2.43.0


From eb5f567c189f20df5e364c9544e75a88c48a1b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:06 +0000
Subject: [PATCH 21/25] fix: read_boozmn: set Boozer_G and Boozer_I, reject
 invalid surface indices

---
 src/_booz_xform/read_boozmn.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index 37d3c3d..b609eba 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -74,6 +74,14 @@ void Booz_xform::read_boozmn(std::string filename) {
   // the first entry of half-grid quantities. compute_surfs is 0-based.
   for (j = 0; j < ns_b; j++) compute_surfs[j] -= 2;
   if (verbose > 0) std::cout << "Read compute_surfs=" << compute_surfs << std::endl;
+  Boozer_G.resize(ns_b);
+  Boozer_I.resize(ns_b);
+  for (j = 0; j < ns_b; j++) {
+    if (compute_surfs[j] < 0 || compute_surfs[j] >= ns_in)
+      throw std::runtime_error("jlist has an entry that is not a valid surface");
+    Boozer_G[j] = Boozer_G_all[compute_surfs[j]];
+    Boozer_I[j] = Boozer_I_all[compute_surfs[j]];
+  }
 
   bmnc_b.resize(mnboz, ns_b);
   rmnc_b.resize(mnboz, ns_b);
-- 
2.43.0


From e94862e36914dacf6c09946ef9611a0ec22630e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:58 +0000
Subject: [PATCH 22/25] fix: read_boozmn: tolerate only the absence of chi_b

---
 src/_booz_xform/netcdf_reader.cpp | 10 ++++++++++
 src/_booz_xform/netcdf_reader.hpp |  1 +
 src/_booz_xform/read_boozmn.cpp   |  5 +----
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/_booz_xform/netcdf_reader.cpp b/src/_booz_xform/netcdf_reader.cpp
index 0a269de..dc2dc57 100644
--- a/src/_booz_xform/netcdf_reader.cpp
+++ b/src/_booz_xform/netcdf_reader.cpp
@@ -31,6 +31,16 @@ size_t booz_xform::NetCDFReader::getdim(std::string dimname) {
   return dimval;
 }
 
+/** Determine whether the file contains a variable.
+ */
+bool booz_xform::NetCDFReader::has(std::string varname) {
+  int var_id;
+  int retval = nc_inq_varid(ncid, varname.c_str(), &var_id);
+  if (retval == NC_ENOTVAR) return false;
+  if (retval) ERR(retval, varname);
+  return true;
+}
+
 /** Verify that a variable in the file has the number of elements that is
     about to be read.
  */
diff --git a/src/_booz_xform/netcdf_reader.hpp b/src/_booz_xform/netcdf_reader.hpp
index 4ba61eb..a5e0a71 100644
--- a/src/_booz_xform/netcdf_reader.hpp
+++ b/src/_booz_xform/netcdf_reader.hpp
@@ -17,6 +17,7 @@ namespace booz_xform {
     NetCDFReader(std::string);
 
     size_t getdim(std::string);
+    bool has(std::string);
     
     // Scalars:
     void get(std::string, int&);
diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index b609eba..43c53f9 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -51,10 +51,7 @@ void Booz_xform::read_boozmn(std::string filename) {
   nc.get("phip_b", phip);
   // chi_b is absent in some boozmn files.
   chi.setZero();
-  try {
-      nc.get("chi_b", chi);
-  } catch (std::runtime_error error) {
-  }
+  if (nc.has("chi_b")) nc.get("chi_b", chi);
   nc.get("pres_b", pres);
   for (j = 0; j < ns_in; j++) {
       iota[j] = iota_in[j+1];
-- 
2.43.0


From 125657fb28e8fd18c8f5176b0cfcea4d3c762bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:58 +0000
Subject: [PATCH 23/25] fix: surface_solve: print from one thread at a time

---
 src/_booz_xform/surface_solve.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/_booz_xform/surface_solve.cpp b/src/_booz_xform/surface_solve.cpp
index e037a2c..c5d8a39 100644
--- a/src/_booz_xform/surface_solve.cpp
+++ b/src/_booz_xform/surface_solve.cpp
@@ -17,7 +17,11 @@ void Booz_xform::surface_solve(int js_b) {
   int js = compute_surfs[js_b];
   // js is the 0-based radial index into the input data arrays
   // js_b is the 0-based index among the subset of surfaces on which the transformation is done.
-  if (verbose > 1) std::cout << "Solving for js_b=" << js_b << ", js=" << js << std::endl;
+  if (verbose > 1) {
+    // Only 1 thread should print at a time:
+    #pragma omp critical
+    std::cout << "Solving for js_b=" << js_b << ", js=" << js << std::endl;
+  }
 
   int jmn, m, n, abs_n, j;
 
-- 
2.43.0


From a22e864880702da4e1d1e599b6213e5e7f437555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:43 +0000
Subject: [PATCH 24/25] fix: symplot: legend curves only for modes within max_m
 and max_n

---
 src/booz_xform/plots.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 7145aab..f3d55d3 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -173,41 +173,45 @@ def symplot(b,
         plt.plot([0, 1], [0, 0], ':k')
         
     # First, plot just the 1st mode of each type, so the legend looks nice.
+    # Only the modes within the limits are shown.
+    modes = [imode for imode in range(mnmax)
+             if np.abs(b.xm_b[imode]) <= max_m
+             and np.abs(b.xn_b[imode]) <= max_n * b.nfp]
     if B0:
-        for imode in range(mnmax):
+        for imode in modes:
             if b.xn_b[imode] == 0 and b.xm_b[imode] == 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=background_color,
                              label='m = 0, n = 0 (Background)', **kwargs)
                 break
-    for imode in range(mnmax):
+    for imode in modes:
         if b.xn_b[imode] == 0 and b.xm_b[imode] != 0:
             plt.plot(rad, my_abs(data[imode, :]), color=QA_color,
                          label=r'm $\ne$ 0, n = 0 (Quasiaxisymmetric)', **kwargs)
             break
-    for imode in range(mnmax):
+    for imode in modes:
         if b.xn_b[imode] != 0 and b.xm_b[imode] == 0:
             plt.plot(rad, my_abs(data[imode, :]), color=mirror_color,
                          label=r'm = 0, n $\ne$ 0 (Mirror)', **kwargs)
             break
 
     if helical_detail:
-        for imode in range(mnmax):
+        for imode in modes:
             if b.xn_b[imode] == b.xm_b[imode] * b.nfp and b.xm_b[imode] != 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_plus_color,
                              label=r'n = n$_{fp}$ m (Helical)', **kwargs)
                 break
-        for imode in range(mnmax):
+        for imode in modes:
             if b.xn_b[imode] == -b.xm_b[imode] * b.nfp and b.xm_b[imode] != 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_minus_color,
                              label=r'n = -n$_{fp}$ m (Helical)', **kwargs)
                 break
-        for imode in range(mnmax):
+        for imode in modes:
             if b.xn_b[imode] != 0 and b.xm_b[imode] != 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_color,
                              label=r'Other helical', **kwargs)
                 break
     else:
-        for imode in range(mnmax):
+        for imode in modes:
             if b.xn_b[imode] != 0 and b.xm_b[imode] != 0 \
                and b.xn_b[imode] != b.xm_b[imode] * b.nfp and b.xn_b[imode] != -b.xm_b[imode] * b.nfp:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_color,
-- 
2.43.0


From 453aab60c54d386100f3cf0ab84f9311ba5ab90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:43 +0000
Subject: [PATCH 25/25] fix: symplot: legend of the other helical modes
 excludes n = +-nfp m, that of all helical modes does not

---
 src/booz_xform/plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index f3d55d3..19c1f8c 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -206,14 +206,14 @@ def symplot(b,
                              label=r'n = -n$_{fp}$ m (Helical)', **kwargs)
                 break
         for imode in modes:
-            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0:
+            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0 \
+               and b.xn_b[imode] != b.xm_b[imode] * b.nfp and b.xn_b[imode] != -b.xm_b[imode] * b.nfp:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_color,
                              label=r'Other helical', **kwargs)
                 break
     else:
         for imode in modes:
-            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0 \
-               and b.xn_b[imode] != b.xm_b[imode] * b.nfp and b.xn_b[imode] != -b.xm_b[imode] * b.nfp:
+            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_color,
                              label=r'm $\ne$ 0, n $\ne$ 0 (Helical)', **kwargs)
                 break
-- 
2.43.0

