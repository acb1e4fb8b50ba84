From a261f98298f37539c18f281df20bc96da8585909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 01/32] fix: empty the asymmetric outputs when a symmetric run
 follows an asymmetric one

---
 src/_booz_xform/init.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index 97fba17..092d234 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -169,6 +169,14 @@ void Booz_xform::init() {
     zmnc_b.setZero(mnboz, ns_b);
     numnc_b.setZero(mnboz, ns_b);
     gmns_b.setZero(mnboz, ns_b);
+  } else {
+    // Stellarator-symmetric. Do not leave results of an earlier
+    // asymmetric calculation behind.
+    bmns_b.resize(0, 0);
+    rmns_b.resize(0, 0);
+    zmnc_b.resize(0, 0);
+    numnc_b.resize(0, 0);
+    gmns_b.resize(0, 0);
   }
 
 }
-- 
2.43.0


From 0ae270751d1414c9babec447a974df9a31cc8acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 02/32] fix: write zeros, not uninitialized memory, to beta_b
 in boozmn files

---
 src/_booz_xform/write_boozmn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_booz_xform/write_boozmn.cpp b/src/_booz_xform/write_boozmn.cpp
index 5e9814c..543e53b 100644
--- a/src/_booz_xform/write_boozmn.cpp
+++ b/src/_booz_xform/write_boozmn.cpp
@@ -82,7 +82,7 @@ void Booz_xform::write_boozmn(std::string filename) {
   // backwards-compatibility of the boozmn.nc files.
   Vector pres_b(ns_in + 1), beta_b(ns_in + 1);
   beta_b.setZero();
-  nc.put(radius_dim, "beta_b", pres_b, placeholder_str, "dimensionless");
+  nc.put(radius_dim, "beta_b", beta_b, placeholder_str, "dimensionless");
   Vector phip_dummy(ns_in + 1), chi_dummy(ns_in + 1), phi_dummy(ns_in+1);
   phip_dummy.setZero();
   chi_dummy.setZero();
-- 
2.43.0


From 0b14f6094412a8dd06f7ca1ff5d7a1e2d22175ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 03/32] fix: restore the aspect ratio when reading a boozmn
 file

---
 src/_booz_xform/read_boozmn.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index 5fd0152..c582c2e 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -19,6 +19,7 @@ void Booz_xform::read_boozmn(std::string filename) {
   asym = (bool) asym_int;
 
   nc.get("nfp_b", nfp);
+  nc.get("aspect_b", aspect);
 
   nc.get("mboz_b", mboz);
   nc.get("nboz_b", nboz);
-- 
2.43.0


From 062b834776f959876a9904b77735887aaf6ea962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 04/32] fix: populate Boozer_G and Boozer_I when reading a
 boozmn file

---
 src/_booz_xform/read_boozmn.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index c582c2e..f93ccd2 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -72,6 +72,15 @@ void Booz_xform::read_boozmn(std::string filename) {
   for (j = 0; j < ns_b; j++) compute_surfs[j] -= 2;
   if (verbose > 0) std::cout << "Read compute_surfs=" << compute_surfs << std::endl;
 
+  Boozer_G.setZero(ns_b);
+  Boozer_I.setZero(ns_b);
+  for (j = 0; j < ns_b; j++) {
+    if (compute_surfs[j] < 0 || compute_surfs[j] >= ns_in)
+      throw std::runtime_error("jlist has an entry that is out of range");
+    Boozer_G[j] = Boozer_G_all[compute_surfs[j]];
+    Boozer_I[j] = Boozer_I_all[compute_surfs[j]];
+  }
+
   bmnc_b.resize(mnboz, ns_b);
   rmnc_b.resize(mnboz, ns_b);
   zmns_b.resize(mnboz, ns_b);
-- 
2.43.0


From a06683aac8486f40b939059db3a5d6f00cda34d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 05/32] fix: do not leave chi uninitialized when a boozmn file
 has no chi_b

---
 src/_booz_xform/read_boozmn.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index f93ccd2..41d949e 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -51,6 +51,8 @@ void Booz_xform::read_boozmn(std::string filename) {
   try {
       nc.get("chi_b", chi);
   } catch (std::runtime_error error) {
+      // Not present in files from the fortran booz_xform.
+      chi.setZero();
   }
   nc.get("pres_b", pres);
   for (j = 0; j < ns_in; j++) {
-- 
2.43.0


From 60c2226396c3e3a4ee093e191e035840a6f9c995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 06/32] fix: reject out-of-range compute_surfs in run() instead
 of reading out of bounds

---
 src/_booz_xform/init.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index 092d234..a373bd3 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -1,6 +1,7 @@
 #include <iostream>
 #include <iomanip>
 #include <cassert>
+#include <stdexcept>
 #ifdef OPENMP
 #include <omp.h>
 #endif
@@ -29,6 +30,11 @@ int booz_xform::omp_max_threads() {
  *  setup_booz.f, boozer_coords.f, and foranl.f.
  */
 void Booz_xform::init() {
+  for (int js = 0; js < compute_surfs.size(); js++) {
+    if (compute_surfs[js] < 0) throw std::runtime_error("compute_surfs cannot be negative");
+    if (compute_surfs[js] >= ns_in) throw std::runtime_error("compute_surfs has an entry that is too large for the available surfaces");
+  }
+
   // First comes some initialization from read_wout_booz.f:
   
   // Set resolution for the real-space grids:
-- 
2.43.0


From 12ab60ee31691ebee3d106405b485ea02643ae1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 07/32] fix: allow loading an equilibrium with fewer surfaces
 into a used object

compute_surfs is replaced by init_from_vmec(), so the value left by an
earlier equilibrium must not make the load fail.
---
 src/_booz_xform/init_from_vmec.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index 6b180df..acedc68 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -87,11 +87,6 @@ void Booz_xform::init_from_vmec(int ns,
     if (bsubvmns0.rows() != mnmax_nyq) throw std::runtime_error("bsubvmns0 has the wrong number of rows");
   }
 
-  for (j = 0; j < compute_surfs.size(); j++) {
-    if (compute_surfs[j] < 0) throw std::runtime_error("compute_surfs cannot be negative");
-    if (compute_surfs[j] >= ns - 1) throw std::runtime_error("compute_surfs has an entry that is too large for the given ns");
-  }
-
   // Done with validation.
 
   iota.resize(ns_in);
-- 
2.43.0


From 13baf132afe2dc9bca42bcc47746ff12a1e289fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 08/32] fix: do not write past the end of the trig arrays when
 only m=0 is needed

---
 src/_booz_xform/init_trig.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/init_trig.cpp b/src/_booz_xform/init_trig.cpp
index 628c6e9..a2257b5 100644
--- a/src/_booz_xform/init_trig.cpp
+++ b/src/_booz_xform/init_trig.cpp
@@ -23,8 +23,12 @@ void booz_xform::init_trig(Vector& theta_grid_x, Vector& zeta_grid_x,
   for (j = 0; j < n_theta_zeta_x; j++) {
     cosmx(j, 0) = 1.0;
     cosnx(j, 0) = 1.0;
-    cosmx(j, 1) = cos(theta_grid_x[j]);
-    sinmx(j, 1) = sin(theta_grid_x[j]);
+  }
+  if (mmax >= 1) {
+    for (j = 0; j < n_theta_zeta_x; j++) {
+      cosmx(j, 1) = cos(theta_grid_x[j]);
+      sinmx(j, 1) = sin(theta_grid_x[j]);
+    }
   }
   if (nmax >= 1) {
     for (j = 0; j < n_theta_zeta_x; j++) {
-- 
2.43.0


From fe15898c32558700cc9d012e8eb2f204e5051701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 09/32] fix: reject mboz < 1 and nboz < 0 in run() instead of
 corrupting memory

---
 src/_booz_xform/init.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index a373bd3..f65e04e 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -30,6 +30,8 @@ int booz_xform::omp_max_threads() {
  *  setup_booz.f, boozer_coords.f, and foranl.f.
  */
 void Booz_xform::init() {
+  if (mboz < 1) throw std::runtime_error("mboz must be at least 1");
+  if (nboz < 0) throw std::runtime_error("nboz must be at least 0");
   for (int js = 0; js < compute_surfs.size(); js++) {
     if (compute_surfs[js] < 0) throw std::runtime_error("compute_surfs cannot be negative");
     if (compute_surfs[js] >= ns_in) throw std::runtime_error("compute_surfs has an entry that is too large for the available surfaces");
-- 
2.43.0


From b57997322f911b2b5a2f694166e00ced33d80aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 10/32] fix: close the NetCDF file when reading or writing it
 fails

---
 src/_booz_xform/netcdf_reader.cpp | 9 ++++++++-
 src/_booz_xform/netcdf_reader.hpp | 2 ++
 src/_booz_xform/netcdf_writer.cpp | 9 ++++++++-
 src/_booz_xform/netcdf_writer.hpp | 2 ++
 4 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/netcdf_reader.cpp b/src/_booz_xform/netcdf_reader.cpp
index 01c6255..f80db23 100644
--- a/src/_booz_xform/netcdf_reader.cpp
+++ b/src/_booz_xform/netcdf_reader.cpp
@@ -6,15 +6,21 @@
 
 using namespace booz_xform;
 
-booz_xform::NetCDFReader::NetCDFReader(std::string filename) {
+booz_xform::NetCDFReader::NetCDFReader(std::string filename) : is_open(false) {
   int retval;
   if ((retval = nc_open(filename.c_str(), NC_NOWRITE, &ncid)))
     ERR(retval, filename);
+  is_open = true;
   // Get the number of dimensions, variables, etc:
   if ((retval = nc_inq(ncid, &ndims, &nvars, &ngatts, &unlimdimid)))
     ERR(retval, filename);
 }
 
+/** Close the file if an error prevented close() from being reached. */
+booz_xform::NetCDFReader::~NetCDFReader() {
+  if (is_open) nc_close(ncid);
+}
+
 void booz_xform::NetCDFReader::ERR(int e, std::string details) {
   std::cout << "NetCDF Error! " << nc_strerror(e)
             << " [" << details << "]" << std::endl;
@@ -82,5 +88,6 @@ void booz_xform::NetCDFReader::get(std::string varname, Matrix& var) {
 
 void booz_xform::NetCDFReader::close() {
   int retval;
+  is_open = false;
   if ((retval = nc_close(ncid))) ERR(retval, "close()");
 }
diff --git a/src/_booz_xform/netcdf_reader.hpp b/src/_booz_xform/netcdf_reader.hpp
index fc93111..688be23 100644
--- a/src/_booz_xform/netcdf_reader.hpp
+++ b/src/_booz_xform/netcdf_reader.hpp
@@ -10,10 +10,12 @@ namespace booz_xform {
   class NetCDFReader {
   private:
     int ncid, ndims, nvars, ngatts, unlimdimid;
+    bool is_open;
     static void ERR(int, std::string);
     
   public:
     NetCDFReader(std::string);
+    ~NetCDFReader();
 
     size_t getdim(std::string);
     
diff --git a/src/_booz_xform/netcdf_writer.cpp b/src/_booz_xform/netcdf_writer.cpp
index dca832a..8ebb027 100644
--- a/src/_booz_xform/netcdf_writer.cpp
+++ b/src/_booz_xform/netcdf_writer.cpp
@@ -13,12 +13,18 @@
 
 using namespace booz_xform;
 
-booz_xform::NetCDFWriter::NetCDFWriter(std::string filename) {
+booz_xform::NetCDFWriter::NetCDFWriter(std::string filename) : is_open(false) {
   int retval;
   // If you want to use the netcdf4 format, "|NC_NETCDF4" must be included
   // in the file type, but such files cannot be read with
   // scipy.io.netcdf.
   if ((retval = nc_create(filename.c_str(), NC_CLOBBER, &ncid))) ERR(retval);
+  is_open = true;
+}
+
+/** Release the file if an error prevented write_and_close() from completing. */
+booz_xform::NetCDFWriter::~NetCDFWriter() {
+  if (is_open) nc_abort(ncid);
 }
 
 void booz_xform::NetCDFWriter::ERR(int e) {
@@ -163,6 +169,7 @@ void booz_xform::NetCDFWriter::write_and_close() {
   }
   
   // Close the file
+  is_open = false;
   if ((retval = nc_close(ncid))) ERR(retval);
 }
 
diff --git a/src/_booz_xform/netcdf_writer.hpp b/src/_booz_xform/netcdf_writer.hpp
index 28730e0..9f997b7 100644
--- a/src/_booz_xform/netcdf_writer.hpp
+++ b/src/_booz_xform/netcdf_writer.hpp
@@ -26,6 +26,7 @@ namespace booz_xform {
   class NetCDFWriter {
   private:
     int ncid;
+    bool is_open;
     std::vector<int> var_ids;
     std::vector<void*> pointers;
     enum {BOOZ_NC_INT, BOOZ_NC_FLOAT, BOOZ_NC_STRING};
@@ -34,6 +35,7 @@ namespace booz_xform {
     
   public:
     NetCDFWriter(std::string);
+    ~NetCDFWriter();
     dim_id_type dim(std::string, int);
     void add_attribute(int, std::string, std::string);
     
-- 
2.43.0


From 68f80111ca11e803a40b95c8929567cd06dc0b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 11/32] fix: modeplot with fewer modes available than requested

---
 src/booz_xform/plots.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 1417533..4550222 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -346,8 +346,7 @@ def modeplot(b,
     if not log:
         plt.plot([0, 1], [0, 0], ':k')
         
-    for jmode in range(nmodes):
-        index = indices[jmode]
+    for index in indices:
         plt.plot(rad, my_abs(data[index, :]),
                  label='$m=${}, $n=${}'.format(xm[index], xn[index]),
                  **kwargs)
-- 
2.43.0


From ae3c857fe2fe4debae835afa929a1e127121af03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 12/32] fix: symplot legend conditions for helical modes were
 swapped

---
 src/booz_xform/plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 4550222..438fea9 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -202,14 +202,14 @@ def symplot(b,
                              label=r'n = -n$_{fp}$ m (Helical)', **kwargs)
                 break
         for imode in range(mnmax):
-            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0:
+            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0 \
+               and b.xn_b[imode] != b.xm_b[imode] * b.nfp and b.xn_b[imode] != -b.xm_b[imode] * b.nfp:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_color,
                              label=r'Other helical', **kwargs)
                 break
     else:
         for imode in range(mnmax):
-            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0 \
-               and b.xn_b[imode] != b.xm_b[imode] * b.nfp and b.xn_b[imode] != -b.xm_b[imode] * b.nfp:
+            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_color,
                              label=r'm $\ne$ 0, n $\ne$ 0 (Helical)', **kwargs)
                 break
-- 
2.43.0


From 661ef035428d42bb37fd331e7068d7b61b956768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 13/32] fix: initialize all public scalars in the constructor

---
 src/_booz_xform/booz_xform.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/_booz_xform/booz_xform.cpp b/src/_booz_xform/booz_xform.cpp
index 0f7e571..f4387fe 100644
--- a/src/_booz_xform/booz_xform.cpp
+++ b/src/_booz_xform/booz_xform.cpp
@@ -9,6 +9,18 @@ void Booz_xform::defaults() {
   mboz = 16;
   nboz = 16;
   aspect = 0;
+  toroidal_flux = 0;
+  asym = false;
+  nfp = 1;
+  mpol = 0;
+  ntor = 0;
+  mnmax = 0;
+  mpol_nyq = 0;
+  ntor_nyq = 0;
+  mnmax_nyq = 0;
+  ns_in = 0;
+  ns_b = 0;
+  mnboz = 0;
 }
 
 Booz_xform::Booz_xform() {
-- 
2.43.0


From 38bb47393827f1050d228187af228b58cf2c15f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 14/32] fix: out-of-bounds read in init_from_vmec for ns = 2

---
 src/_booz_xform/init_from_vmec.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index acedc68..d3d6236 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -262,17 +262,21 @@ void Booz_xform::init_from_vmec(int ns,
 	// Interpolate:
 	//rmnc(j, 1) = 0.5 * (val_over_sqrt_s_on_axis + rmnc0(j, 1) / sqrt_s_full[1]) * sqrt_s_half[0];
 
+	// If ns = 2, there is no second point, so extrapolate using a
+	// constant.
+	int j2 = std::min(2, ns - 1);
+
 	rmnc(j, 0) = (1.5 * rmnc0(j, 1) / sqrt_s_full[1]
-		      - 0.5 * rmnc0(j, 2) / sqrt_s_full[2]) * sqrt_s_half[0];
+		      - 0.5 * rmnc0(j, j2) / sqrt_s_full[j2]) * sqrt_s_half[0];
 
 	zmns(j, 0) = (1.5 * zmns0(j, 1) / sqrt_s_full[1]
-		      - 0.5 * zmns0(j, 2) / sqrt_s_full[2]) * sqrt_s_half[0];
+		      - 0.5 * zmns0(j, j2) / sqrt_s_full[j2]) * sqrt_s_half[0];
 	if (asym) {
 	  rmns(j, 0) = (1.5 * rmns0(j, 1) / sqrt_s_full[1]
-			- 0.5 * rmns0(j, 2) / sqrt_s_full[2]) * sqrt_s_half[0];
+			- 0.5 * rmns0(j, j2) / sqrt_s_full[j2]) * sqrt_s_half[0];
 
 	  zmnc(j, 0) = (1.5 * zmnc0(j, 1) / sqrt_s_full[1]
-			- 0.5 * zmnc0(j, 2) / sqrt_s_full[2]) * sqrt_s_half[0];
+			- 0.5 * zmnc0(j, j2) / sqrt_s_full[j2]) * sqrt_s_half[0];
 	}
       }
     }
-- 
2.43.0


From 09029076d4f4532c1f64a7ebaede82d88af737e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:44 +0000
Subject: [PATCH 15/32] fix: out-of-bounds read in verbose output for small
 equilibria

---
 src/_booz_xform/init_from_vmec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index d3d6236..4d9d051 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -180,11 +180,11 @@ void Booz_xform::init_from_vmec(int ns,
       std::cout << "xn = " << xn << std::endl;
 
       std::cout << "rmnc, increasing ns index:";
-      for (j = 0; j < 4; j++) std::cout << " " << rmnc0(0, j);
+      for (j = 0; j < std::min(4, ns); j++) std::cout << " " << rmnc0(0, j);
       std::cout << std::endl;
 
       std::cout << "rmnc, ncreasing mnmax index:";
-      for (j = 0; j < 4; j++) std::cout << " " << rmnc0(j, 0);
+      for (j = 0; j < std::min(4, mnmax); j++) std::cout << " " << rmnc0(j, 0);
       std::cout << std::endl;
     }
   }
-- 
2.43.0


From 9de85417f310abe7d4de5bba2f18beea535a36dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:27 +0000
Subject: [PATCH 16/32] fix: python driver reads the same integers as the C++
 driver

The two are documented to be interchangeable, but for e.g. "5,10" the C++
driver selects surface 5 while the python driver selected all surfaces.
---
 src/booz_xform/_cli.py | 53 ++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/src/booz_xform/_cli.py b/src/booz_xform/_cli.py
index 95008ba..9159a7e 100644
--- a/src/booz_xform/_cli.py
+++ b/src/booz_xform/_cli.py
@@ -13,6 +13,7 @@ Source checkouts still get the C++ executable from ``cmake --build . --target
 xbooz_xform``; the two are interchangeable.
 """
 
+import re
 import sys
 
 from . import Booz_xform, __version__
@@ -42,37 +43,49 @@ where NS is the VMEC input parameter. You can omit <compute_surfs> from the inpu
 in which case the transformation will be performed on all half-grid surfaces."""
 
 
+_WHITESPACE = r"[ \t\n\v\f\r]*"
+
+
+def _scan_int(text, pos):
+    """Read an int from text at pos the way the C++ ``>>`` operator does.
+
+    Returns (value, new position), with value = None if there is no int there.
+    """
+    match = re.compile(_WHITESPACE + r"([+-]?[0-9]+)").match(text, pos)
+    if match is None or not -2**31 <= int(match.group(1)) < 2**31:
+        return None, pos
+    return int(match.group(1)), match.end()
+
+
 def _parse_input_file(filename):
     """Read an in_booz-style input file.
 
-    Returns (mboz, nboz, extension, compute_surfs).  Whitespace and line breaks
-    are handled the same way as the C++ ``>>`` extraction operators, i.e. all
-    tokens are read in order and newlines are not significant.
+    Returns (mboz, nboz, extension, compute_surfs).  Whitespace, line breaks,
+    and the end of an integer are handled the same way as the C++ ``>>``
+    extraction operators, i.e. all tokens are read in order and newlines are
+    not significant.
     """
     with open(filename) as f:
-        tokens = f.read().split()
-
-    if len(tokens) < 3:
-        raise RuntimeError(
-            "Unable to read mboz, nboz, and extension from " + filename
-        )
+        text = f.read()
 
-    try:
-        mboz, nboz = int(tokens[0]), int(tokens[1])
-    except ValueError:
-        raise RuntimeError("Unable to read mboz and nboz")
+    mboz, pos = _scan_int(text, 0)
+    nboz, pos = _scan_int(text, pos)
+    if mboz is None or nboz is None:
+        raise RuntimeError("Unable to read mboz and nboz from " + filename)
     print("Read mboz = {}, nboz = {}".format(mboz, nboz))
 
-    extension = tokens[2]
+    match = re.compile(_WHITESPACE + r"([^ \t\n\v\f\r]+)").match(text, pos)
+    if match is None:
+        raise RuntimeError("Unable to read extension from " + filename)
+    extension, pos = match.group(1), match.end()
     print("Read extension =", extension)
 
-    # As in driver.cpp, reading stops at the first token that is not an integer
-    # rather than being treated as an error.
+    # As in driver.cpp, reading stops at the first place where there is no
+    # integer rather than being treated as an error.
     compute_surfs = []
-    for token in tokens[3:]:
-        try:
-            value = int(token)
-        except ValueError:
+    while True:
+        value, pos = _scan_int(text, pos)
+        if value is None:
             print("Unable to read more.")
             break
         print("Read value", value)
-- 
2.43.0


From a9a366bcc5389ee04622eeae4004a3a8f0a71e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:30 +0000
Subject: [PATCH 17/32] Add observation points for verification, off unless
 BOOZ_XFORM_VERIF is defined

---
 src/_booz_xform/check_accuracy.cpp |  3 +++
 src/_booz_xform/run.cpp            |  9 +++++++++
 src/_booz_xform/surface_solve.cpp  | 15 +++++++++++++++
 src/_booz_xform/verif_hooks.hpp    | 27 +++++++++++++++++++++++++++
 4 files changed, 54 insertions(+)
 create mode 100644 src/_booz_xform/verif_hooks.hpp

diff --git a/src/_booz_xform/check_accuracy.cpp b/src/_booz_xform/check_accuracy.cpp
index aa13ae8..2df8c56 100644
--- a/src/_booz_xform/check_accuracy.cpp
+++ b/src/_booz_xform/check_accuracy.cpp
@@ -7,6 +7,7 @@
 #endif
 #include "booz_xform.hpp"
 #include "init_trig.hpp"
+#include "verif_hooks.hpp"
 
 using namespace booz_xform;
 
@@ -122,6 +123,7 @@ void Booz_xform::check_accuracy(int js, int js_b,
     bmod_err[j] = std::abs(bmod_boozer[j] - bmod_vmec[j])
       / std::max(bmod_boozer[j], bmod_vmec[j]);
   }
+  BOOZ_XFORM_VERIF_POINT("report", js_b);
   // Only 1 thread should print at a time:
   #pragma omp critical
   {
@@ -136,6 +138,7 @@ void Booz_xform::check_accuracy(int js, int js_b,
 	    << std::setw(11) << bmod_boozer[1]
 	    << std::setw(11) << bmod_err[1]
 	    << std::endl;
+  BOOZ_XFORM_VERIF_POINT("report_mid", js_b);
   std::cout << "                pi" << std::setprecision(3)
 	    << std::setw(11) << bmod_vmec[2]
 	    << std::setw(11) << bmod_boozer[2]
diff --git a/src/_booz_xform/run.cpp b/src/_booz_xform/run.cpp
index f593e7a..5c321e4 100644
--- a/src/_booz_xform/run.cpp
+++ b/src/_booz_xform/run.cpp
@@ -1,8 +1,15 @@
 #include <iostream>
 #include "booz_xform.hpp"
+#include "verif_hooks.hpp"
 
 using namespace booz_xform;
 
+#ifdef BOOZ_XFORM_VERIF
+static booz_xform_verif_hook_type verif_hook = 0;
+void booz_xform_verif_set_hook(booz_xform_verif_hook_type hook) { verif_hook = hook; }
+void booz_xform_verif_call(const char* point, int js_b) { if (verif_hook) verif_hook(point, js_b); }
+#endif
+
 void Booz_xform::run() {
   if (verbose > 0) {
     std::cout << "compute_surfs (0-based indices): ";
@@ -19,8 +26,10 @@ void Booz_xform::run() {
   }
 
   // In the next line would could try to add something like "schedule(static, 1)" for more order.
+  BOOZ_XFORM_VERIF_POINT("run_begin", -1);
 #pragma omp parallel for
   for (int j = 0; j < compute_surfs.size(); j++) {
     surface_solve(j);
   }
+  BOOZ_XFORM_VERIF_POINT("run_end", -1);
 }
diff --git a/src/_booz_xform/surface_solve.cpp b/src/_booz_xform/surface_solve.cpp
index e037a2c..f45a016 100644
--- a/src/_booz_xform/surface_solve.cpp
+++ b/src/_booz_xform/surface_solve.cpp
@@ -3,6 +3,7 @@
 #include <iomanip>
 #include "booz_xform.hpp"
 #include "init_trig.hpp"
+#include "verif_hooks.hpp"
 
 using namespace booz_xform;
 
@@ -21,6 +22,8 @@ void Booz_xform::surface_solve(int js_b) {
 
   int jmn, m, n, abs_n, j;
 
+  BOOZ_XFORM_VERIF_POINT("begin", js_b);
+
   // Next come a bunch of work arrays that need to be independent on
   // each thread, so threads do not over-write each other's
   // arrays. There is some time spent allocating the memory here, on
@@ -80,6 +83,8 @@ void Booz_xform::surface_solve(int js_b) {
   boozer_jacobian.setZero(n_theta_zeta);
 
 
+  BOOZ_XFORM_VERIF_POINT("alloc", js_b);
+
   // This next bit corresponds to transpmn.f in the fortran version.
 
   // Compute the part of p that is independent of lambda (the
@@ -107,6 +112,7 @@ void Booz_xform::surface_solve(int js_b) {
   }
 
   // End of the part corresponding to transpmn.f in the fortran version.
+  BOOZ_XFORM_VERIF_POINT("covariant", js_b);
 
   // Beginning of the part corresponding to vcoords.f::vcoords_rz() in
   // the fortran version.  In this part, we transform R, Z, and lambda
@@ -156,6 +162,7 @@ void Booz_xform::surface_solve(int js_b) {
   //std::cout << std::endl;
   //if (js_b == 1) std::cout << std::setprecision(15) << "r:" << std::endl << r << std::endl << "z:" << std::endl << z << std::endl << "lambda:" << std::endl << lambda << std::endl;
   // End of the part corresponding to vcoords_rz() in the fortran version.
+  BOOZ_XFORM_VERIF_POINT("coords", js_b);
 
   // Beginning of the part corresponding to vcoords_w().  The goal of
   // this next section is to transform several functions from Fourier
@@ -195,6 +202,7 @@ void Booz_xform::surface_solve(int js_b) {
     }
   }
   // End of the part corresponding to vcooords_w() in fortran.
+  BOOZ_XFORM_VERIF_POINT("field", js_b);
 
   // The next part is located in harfun.f in the fortran version.
   boozfloat this_iota = iota[js];
@@ -235,6 +243,7 @@ void Booz_xform::surface_solve(int js_b) {
   //  throw std::runtime_error("d_Boozer_d_vmec crosses through 0!");
 
   // End of the part located in harfun.f in the fortran version.
+  BOOZ_XFORM_VERIF_POINT("angles", js_b);
 
   // Now come lines from boozer.f
   // The goal now is to evaluate eq (11).
@@ -275,6 +284,8 @@ void Booz_xform::surface_solve(int js_b) {
     gmnsb = 0;
   }
   */
+  BOOZ_XFORM_VERIF_POINT("basis", js_b);
+
   boozfloat fourier_factor0, fourier_factor;
   // This "fourier_factor0" quantity is called "fac" and "scl" in the
   // fortran version.
@@ -296,6 +307,8 @@ void Booz_xform::surface_solve(int js_b) {
       sign = 1;
     }
 
+    BOOZ_XFORM_VERIF_POINT("mode", js_b);
+
     fourier_factor = fourier_factor0;
     if (jmn == 0) fourier_factor *= 0.5;
 
@@ -323,10 +336,12 @@ void Booz_xform::surface_solve(int js_b) {
   }
 
   // End of the part from boozer.f
+  BOOZ_XFORM_VERIF_POINT("spectra", js_b);
 
   if (verbose > 0) check_accuracy(js, js_b, bmod,
 				  theta_Boozer_grid, zeta_Boozer_grid,
 				  cosm_b, cosn_b, sinm_b, sinn_b);
+  BOOZ_XFORM_VERIF_POINT("end", js_b);
 
   if (false && js_b == 0) {
     std::ofstream output_file;
diff --git a/src/_booz_xform/verif_hooks.hpp b/src/_booz_xform/verif_hooks.hpp
new file mode 100644
index 0000000..dffd206
--- /dev/null
+++ b/src/_booz_xform/verif_hooks.hpp
@@ -0,0 +1,27 @@
+#ifndef BOOZ_VERIF_HOOKS_H
+#define BOOZ_VERIF_HOOKS_H
+
+/** Observation points for external verification machinery. Unless
+ *  BOOZ_XFORM_VERIF is defined when compiling, these do nothing at all.
+ *
+ *  When BOOZ_XFORM_VERIF is defined, the function registered with
+ *  booz_xform_verif_set_hook() (if any) is called at each point, on the
+ *  thread that reached the point, with the name of the point and the
+ *  index into compute_surfs (or -1 outside of the loop over surfaces).
+ */
+#ifdef BOOZ_XFORM_VERIF
+
+extern "C" {
+  typedef void (*booz_xform_verif_hook_type)(const char* point, int js_b);
+  void booz_xform_verif_set_hook(booz_xform_verif_hook_type);
+  void booz_xform_verif_call(const char* point, int js_b);
+}
+#define BOOZ_XFORM_VERIF_POINT(point, js_b) booz_xform_verif_call(point, js_b)
+
+#else
+
+#define BOOZ_XFORM_VERIF_POINT(point, js_b)
+
+#endif
+
+#endif
-- 
2.43.0


From 469ff07994bef4fb045afc3f8aaa40323ac5fba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:10 +0000
Subject: [PATCH 18/32] fix: reject mode tables that lead to out-of-bounds
 reads in run()

Mode numbers beyond the declared resolution index past the end of the
trigonometric tables, and empty tables past the end of xm and xn.
---
 src/_booz_xform/init_from_vmec.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index 4d9d051..baaf86c 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -41,6 +41,8 @@ void Booz_xform::init_from_vmec(int ns,
       if (pres0.size() != ns) throw std::runtime_error("pres0.size() is not ns");
       if (phi0.size() != ns) throw std::runtime_error("phi0.size() is not ns");
   }
+  if (mnmax < 1) throw std::runtime_error("mnmax must be at least 1");
+  if (mnmax_nyq < 1) throw std::runtime_error("mnmax_nyq must be at least 1");
   if (xm.size() != mnmax) throw std::runtime_error("Size of xm is not mnmax");
   if (xn.size() != mnmax) throw std::runtime_error("Size of xn is not mnmax");
   if (xm_nyq.size() != mnmax_nyq) throw std::runtime_error("Size of xm_nyq is not mnmax_nyq");
@@ -57,6 +59,15 @@ void Booz_xform::init_from_vmec(int ns,
   // if (xm_nyq[mnmax_nyq - 1] != mpol_nyq) throw std::runtime_error("xm_nyq does not seem correct");
   if (xn_nyq[mnmax_nyq - 1] != nfp * ntor_nyq) throw std::runtime_error("xn_nyq does not seem correct");
 
+  for (j = 0; j < mnmax; j++) {
+    if (xm[j] < 0 || xm[j] >= mpol) throw std::runtime_error("xm has an entry outside the range 0 to mpol - 1");
+    if (xn[j] % nfp != 0 || std::abs(xn[j]) > nfp * ntor) throw std::runtime_error("xn has an entry that is not a multiple of nfp up to nfp * ntor");
+  }
+  for (j = 0; j < mnmax_nyq; j++) {
+    if (xm_nyq[j] < 0 || xm_nyq[j] > mpol_nyq) throw std::runtime_error("xm_nyq has an entry outside the range 0 to mpol_nyq");
+    if (xn_nyq[j] % nfp != 0 || std::abs(xn_nyq[j]) > nfp * ntor_nyq) throw std::runtime_error("xn_nyq has an entry that is not a multiple of nfp up to nfp * ntor_nyq");
+  }
+
   if (rmnc0.cols() != ns) throw std::runtime_error("rmnc0 has wrong number of cols");
   if (zmns0.cols() != ns) throw std::runtime_error("zmns0 has wrong number of cols");
   if (lmns0.cols() != ns) throw std::runtime_error("lmns0 has wrong number of cols");
-- 
2.43.0


From 8c2dfee81323063871e07c6d112fff2c9500850f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:10 +0000
Subject: [PATCH 19/32] fix: reject missing input data in run() instead of
 reading out of bounds

This happens e.g. for a new object, or after read_boozmn().
---
 src/_booz_xform/init.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index f65e04e..9b53f14 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -23,6 +23,13 @@ int booz_xform::omp_max_threads() {
 #endif
 }
 
+/** Make sure an input array covers all input modes and surfaces.
+ */
+static void check_size(const Matrix& matrix, int rows, int cols, std::string name) {
+  if (matrix.rows() < rows || matrix.cols() < cols)
+    throw std::runtime_error("Input array " + name + " is too small");
+}
+
 /** Initialize variables that are common to all surfaces that share
  *  the same (mpol, ntor) resolution.
  *
@@ -37,6 +44,23 @@ void Booz_xform::init() {
     if (compute_surfs[js] >= ns_in) throw std::runtime_error("compute_surfs has an entry that is too large for the available surfaces");
   }
 
+  if (mpol < 1 || iota.size() < ns_in || s_in.size() < ns_in)
+    throw std::runtime_error("Input data must be loaded before run()");
+  check_size(rmnc, mnmax, ns_in, "rmnc");
+  check_size(zmns, mnmax, ns_in, "zmns");
+  check_size(lmns, mnmax, ns_in, "lmns");
+  check_size(bmnc, mnmax_nyq, ns_in, "bmnc");
+  check_size(bsubumnc, mnmax_nyq, ns_in, "bsubumnc");
+  check_size(bsubvmnc, mnmax_nyq, ns_in, "bsubvmnc");
+  if (asym) {
+    check_size(rmns, mnmax, ns_in, "rmns");
+    check_size(zmnc, mnmax, ns_in, "zmnc");
+    check_size(lmnc, mnmax, ns_in, "lmnc");
+    check_size(bmns, mnmax_nyq, ns_in, "bmns");
+    check_size(bsubumns, mnmax_nyq, ns_in, "bsubumns");
+    check_size(bsubvmns, mnmax_nyq, ns_in, "bsubvmns");
+  }
+
   // First comes some initialization from read_wout_booz.f:
   
   // Set resolution for the real-space grids:
-- 
2.43.0


From e6606d75eebbbe987df0557999256ce0d2dd0341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:06 +0000
Subject: [PATCH 20/32] fix: reject NetCDF files whose array shapes do not
 match their header

Reading such a file wrote past the end of the destination arrays, and
nfp = 0 or mnmax_nyq = 0 in a wout file crashed.
---
 src/_booz_xform/netcdf_reader.cpp | 39 ++++++++++++++++++++++++++-----
 src/_booz_xform/netcdf_reader.hpp |  3 +++
 src/_booz_xform/read_wout.cpp     |  2 ++
 3 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/src/_booz_xform/netcdf_reader.cpp b/src/_booz_xform/netcdf_reader.cpp
index f80db23..0c8433c 100644
--- a/src/_booz_xform/netcdf_reader.cpp
+++ b/src/_booz_xform/netcdf_reader.cpp
@@ -37,10 +37,33 @@ size_t booz_xform::NetCDFReader::getdim(std::string dimname) {
   return dimval;
 }
 
+/** Throw an error if a variable does not have the expected shape. The
+    dimensions are given in the NetCDF order, i.e. slowest first. An
+    array with one element is accepted for a scalar.
+ */
+void booz_xform::NetCDFReader::check_shape(int var_id, std::string varname, std::vector<long> expected) {
+  int n, retval;
+  if ((retval = nc_inq_varndims(ncid, var_id, &n)))
+    ERR(retval, varname);
+  std::vector<int> dim_ids(n + 1); // Never empty, so &dim_ids[0] is valid for scalars
+  if ((retval = nc_inq_vardimid(ncid, var_id, &dim_ids[0])))
+    ERR(retval, varname);
+  if (expected.empty()) expected.assign(n, 1);
+  bool ok = (n == (int) expected.size());
+  for (int j = 0; ok && j < n; j++) {
+    size_t len;
+    if ((retval = nc_inq_dimlen(ncid, dim_ids[j], &len)))
+      ERR(retval, varname);
+    ok = ((long) len == expected[j]);
+  }
+  if (!ok) throw std::runtime_error("NetCDF variable " + varname + " has an unexpected shape");
+}
+
 void booz_xform::NetCDFReader::get(std::string varname, int& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
     ERR(retval, varname);
+  check_shape(var_id, varname, {});
   if ((retval = nc_get_var_int(ncid, var_id, &var)))
     ERR(retval, varname);
 }
@@ -49,39 +72,43 @@ void booz_xform::NetCDFReader::get(std::string varname, boozfloat& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
     ERR(retval, varname);
+  check_shape(var_id, varname, {});
   if ((retval = nc_get_var_double(ncid, var_id, &var)))
     ERR(retval, varname);
 }
 
-/** This subroutine presently assumes the Vector has already been
-    sized to the correct dimension. If not, there may be a seg fault.
+/** This subroutine assumes the Vector has already been sized to the
+    correct dimension. If not, an error is raised.
  */
 void booz_xform::NetCDFReader::get(std::string varname, Vector& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
     ERR(retval, varname);
+  check_shape(var_id, varname, {(long) var.size()});
   if ((retval = nc_get_var_double(ncid, var_id, &var[0])))
     ERR(retval, varname);
 }
 
-/** This subroutine presently assumes the IntVector has already been
-    sized to the correct dimension. If not, there may be a seg fault.
+/** This subroutine assumes the IntVector has already been sized to the
+    correct dimension. If not, an error is raised.
  */
 void booz_xform::NetCDFReader::get(std::string varname, IntVector& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
     ERR(retval, varname);
+  check_shape(var_id, varname, {(long) var.size()});
   if ((retval = nc_get_var_int(ncid, var_id, &var[0])))
     ERR(retval, varname);
 }
 
-/** This subroutine presently assumes the matrix has already been
-    sized to the correct dimension. If not, there may be a seg fault.
+/** This subroutine assumes the matrix has already been sized to the
+    correct dimension. If not, an error is raised.
  */
 void booz_xform::NetCDFReader::get(std::string varname, Matrix& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
     ERR(retval, varname);
+  check_shape(var_id, varname, {(long) var.cols(), (long) var.rows()});
   if ((retval = nc_get_var_double(ncid, var_id, &var(0,0))))
     ERR(retval, varname);
 }
diff --git a/src/_booz_xform/netcdf_reader.hpp b/src/_booz_xform/netcdf_reader.hpp
index 688be23..4f07c11 100644
--- a/src/_booz_xform/netcdf_reader.hpp
+++ b/src/_booz_xform/netcdf_reader.hpp
@@ -1,6 +1,8 @@
 #ifndef BOOZ_NETCDF_READER_H
 #define BOOZ_NETCDF_READER_H
 
+#include <string>
+#include <vector>
 #include "vector_matrix.hpp"
 
 namespace booz_xform {
@@ -12,6 +14,7 @@ namespace booz_xform {
     int ncid, ndims, nvars, ngatts, unlimdimid;
     bool is_open;
     static void ERR(int, std::string);
+    void check_shape(int, std::string, std::vector<long>);
     
   public:
     NetCDFReader(std::string);
diff --git a/src/_booz_xform/read_wout.cpp b/src/_booz_xform/read_wout.cpp
index bf05824..4b41adc 100644
--- a/src/_booz_xform/read_wout.cpp
+++ b/src/_booz_xform/read_wout.cpp
@@ -26,6 +26,8 @@ void Booz_xform::read_wout(std::string filename, bool flux) {
   nc.get("mnmax", mnmax);
   nc.get("mnmax_nyq", mnmax_nyq);
   nc.get("aspect", aspect);
+  if (ns < 2 || nfp < 1 || mnmax < 1 || mnmax_nyq < 1)
+    throw std::runtime_error("ns, nfp, mnmax, or mnmax_nyq in the wout file is out of range");
 
   Vector phip0;
   Vector chi0;
-- 
2.43.0


From 19d2b8d17987eb0ba49a83cefa242dfae849984e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:24 +0000
Subject: [PATCH 21/32] fix: do not garble the accuracy report when verbose > 1

---
 src/_booz_xform/surface_solve.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/_booz_xform/surface_solve.cpp b/src/_booz_xform/surface_solve.cpp
index f45a016..3bd8e8c 100644
--- a/src/_booz_xform/surface_solve.cpp
+++ b/src/_booz_xform/surface_solve.cpp
@@ -18,7 +18,11 @@ void Booz_xform::surface_solve(int js_b) {
   int js = compute_surfs[js_b];
   // js is the 0-based radial index into the input data arrays
   // js_b is the 0-based index among the subset of surfaces on which the transformation is done.
-  if (verbose > 1) std::cout << "Solving for js_b=" << js_b << ", js=" << js << std::endl;
+  if (verbose > 1) {
+    // Do not print in the middle of the report of another thread:
+#pragma omp critical
+    std::cout << "Solving for js_b=" << js_b << ", js=" << js << std::endl;
+  }
 
   int jmn, m, n, abs_n, j;
 
-- 
2.43.0


From 9ad417a1957141addf03b4e10544437dd881c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:31 +0000
Subject: [PATCH 22/32] fix: reject boozmn files with a non-positive number of
 modes or radii

---
 src/_booz_xform/read_boozmn.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index 41d949e..718a12a 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -24,6 +24,7 @@ void Booz_xform::read_boozmn(std::string filename) {
   nc.get("mboz_b", mboz);
   nc.get("nboz_b", nboz);
   nc.get("mnboz_b", mnboz);
+  if (mnboz < 1) throw std::runtime_error("mnboz_b must be at least 1");
 
   xm_b.resize(mnboz);
   xn_b.resize(mnboz);
@@ -31,6 +32,7 @@ void Booz_xform::read_boozmn(std::string filename) {
   nc.get("ixn_b", xn_b);
 
   int radius = nc.getdim("radius");
+  if (radius < 1) throw std::runtime_error("The radius dimension must be at least 1");
   Vector iota_in, Boozer_G_in, Boozer_I_in;
   iota_in.resize(radius);
   Boozer_G_in.resize(radius);
-- 
2.43.0


From bf446659f8c43ea18c16d05a801db4da745f482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:30 +0000
Subject: [PATCH 23/32] fix: wireplot shows the curves also for refine = 1

---
 src/booz_xform/plots.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 438fea9..f9c8194 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -461,7 +461,7 @@ def wireplot(b,
         showlegend = True
         if index > 1:
             showlegend = False
-        if np.mod(index, refine) == 1:
+        if np.mod(index - 1, refine) == 0:
             data.append(go.Scatter3d(x=i, y=j, z=k,
                                      mode='lines', line=line_marker,
                                      showlegend=showlegend,
@@ -469,7 +469,7 @@ def wireplot(b,
     index = 0
     for i, j, k in zip(X.T, Y.T, Z.T):
         index += 1
-        if np.mod(index, refine) == 1:
+        if np.mod(index - 1, refine) == 0:
             data.append(go.Scatter3d(x=i, y=j, z=k,
                                      mode='lines', line=line_marker,
                                      showlegend=False))
@@ -501,7 +501,7 @@ def wireplot(b,
             showlegend = True
             if index > 1:
                 showlegend = False
-            if np.mod(index, refine) == 1:
+            if np.mod(index - 1, refine) == 0:
                 data.append(go.Scatter3d(x=i, y=j, z=k,
                                          mode='lines', line=line_marker,
                                          showlegend=showlegend,
@@ -509,7 +509,7 @@ def wireplot(b,
         index = 0
         for i, j, k in zip(X.T, Y.T, Z.T):
             index += 1
-            if np.mod(index, refine) == 1:
+            if np.mod(index - 1, refine) == 0:
                 data.append(go.Scatter3d(x=i, y=j, z=k,
                                          mode='lines', line=line_marker,
                                          showlegend=False))
-- 
2.43.0


From 6e5be03724b201bb6d05942623097e889587ecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:30 +0000
Subject: [PATCH 24/32] fix: modeplot and wireplot use the outermost surface
 also if it is not the last one

---
 src/booz_xform/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index f9c8194..892b56a 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -328,7 +328,7 @@ def modeplot(b,
     # Sort by the absolute value of the mode amplitudes at the
     # outermost radius. Minus sign gives a decreasing instead of
     # increasing sort.
-    sorted_indices = np.argsort(-np.abs(data[:, -1]))
+    sorted_indices = np.argsort(-np.abs(data[:, np.argmax(b.s_b)]))
     indices = sorted_indices[:nmodes]
 
     if sqrts:
@@ -403,7 +403,7 @@ def wireplot(b,
 
     # If not otherwise specified, choose the outermost surface:
     if js is None:
-        js = b.ns_b - 1
+        js = np.argmax(b.s_b)
 
     for jmn in range(b.mnboz):
         m = b.xm_b[jmn]
-- 
2.43.0


From 50db652a48b7f8600e5b9af791c37de8927d07c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:46 +0000
Subject: [PATCH 25/32] fix: symplot does not draw modes beyond max_m and max_n
 for the legend

---
 src/booz_xform/plots.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 892b56a..e783841 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -172,44 +172,47 @@ def symplot(b,
     if not log:
         plt.plot([0, 1], [0, 0], ':k')
         
+    # Modes within the limits:
+    included = (np.abs(b.xm_b) <= max_m) & (np.abs(b.xn_b) <= max_n * b.nfp)
+
     # First, plot just the 1st mode of each type, so the legend looks nice.
     if B0:
         for imode in range(mnmax):
-            if b.xn_b[imode] == 0 and b.xm_b[imode] == 0:
+            if included[imode] and b.xn_b[imode] == 0 and b.xm_b[imode] == 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=background_color,
                              label='m = 0, n = 0 (Background)', **kwargs)
                 break
     for imode in range(mnmax):
-        if b.xn_b[imode] == 0 and b.xm_b[imode] != 0:
+        if included[imode] and b.xn_b[imode] == 0 and b.xm_b[imode] != 0:
             plt.plot(rad, my_abs(data[imode, :]), color=QA_color,
                          label=r'm $\ne$ 0, n = 0 (Quasiaxisymmetric)', **kwargs)
             break
     for imode in range(mnmax):
-        if b.xn_b[imode] != 0 and b.xm_b[imode] == 0:
+        if included[imode] and b.xn_b[imode] != 0 and b.xm_b[imode] == 0:
             plt.plot(rad, my_abs(data[imode, :]), color=mirror_color,
                          label=r'm = 0, n $\ne$ 0 (Mirror)', **kwargs)
             break
 
     if helical_detail:
         for imode in range(mnmax):
-            if b.xn_b[imode] == b.xm_b[imode] * b.nfp and b.xm_b[imode] != 0:
+            if included[imode] and b.xn_b[imode] == b.xm_b[imode] * b.nfp and b.xm_b[imode] != 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_plus_color,
                              label=r'n = n$_{fp}$ m (Helical)', **kwargs)
                 break
         for imode in range(mnmax):
-            if b.xn_b[imode] == -b.xm_b[imode] * b.nfp and b.xm_b[imode] != 0:
+            if included[imode] and b.xn_b[imode] == -b.xm_b[imode] * b.nfp and b.xm_b[imode] != 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_minus_color,
                              label=r'n = -n$_{fp}$ m (Helical)', **kwargs)
                 break
         for imode in range(mnmax):
-            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0 \
+            if included[imode] and b.xn_b[imode] != 0 and b.xm_b[imode] != 0 \
                and b.xn_b[imode] != b.xm_b[imode] * b.nfp and b.xn_b[imode] != -b.xm_b[imode] * b.nfp:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_color,
                              label=r'Other helical', **kwargs)
                 break
     else:
         for imode in range(mnmax):
-            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0:
+            if included[imode] and b.xn_b[imode] != 0 and b.xm_b[imode] != 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_color,
                              label=r'm $\ne$ 0, n $\ne$ 0 (Helical)', **kwargs)
                 break
@@ -218,9 +221,7 @@ def symplot(b,
     # Now that the legend is made, plot all modes
 
     for imode in range(mnmax):
-        if np.abs(b.xm_b[imode]) > max_m:
-            continue
-        if np.abs(b.xn_b[imode]) > max_n * b.nfp:
+        if not included[imode]:
             continue
         if b.xn_b[imode] == 0:
             if b.xm_b[imode] == 0:
-- 
2.43.0


From cc9de95a4f14dc21a8c41cf57d724372fe646bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:13 +0000
Subject: [PATCH 26/32] fix: report errors when the last data of a boozmn file
 cannot be written

---
 src/_booz_xform/netcdf_writer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/_booz_xform/netcdf_writer.cpp b/src/_booz_xform/netcdf_writer.cpp
index 8ebb027..ebf25b0 100644
--- a/src/_booz_xform/netcdf_writer.cpp
+++ b/src/_booz_xform/netcdf_writer.cpp
@@ -168,6 +168,9 @@ void booz_xform::NetCDFWriter::write_and_close() {
     }
   }
   
+  // nc_close() does not report errors in writing buffered data, nc_sync() does.
+  if ((retval = nc_sync(ncid))) ERR(retval);
+
   // Close the file
   is_open = false;
   if ((retval = nc_close(ncid))) ERR(retval);
-- 
2.43.0


From 36f49ea947503eb3430e0a9ae1780cebd6e75ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:23 +0000
Subject: [PATCH 27/32] fix: reject mode numbers out of range in run() instead
 of reading out of bounds

---
 src/_booz_xform/init.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index 9b53f14..eb05e45 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -30,6 +30,17 @@ static void check_size(const Matrix& matrix, int rows, int cols, std::string nam
     throw std::runtime_error("Input array " + name + " is too small");
 }
 
+/** Make sure the mode numbers lie in the range covered by the trig arrays.
+ */
+static void check_modes(const IntVector& m, const IntVector& n, int size, int m_max, int n_max, int nfp, std::string name) {
+  if (size < 1 || m.size() < size || n.size() < size)
+    throw std::runtime_error("Input mode numbers " + name + " are missing");
+  for (int j = 0; j < size; j++) {
+    if (m[j] < 0 || m[j] > m_max || n[j] % nfp != 0 || std::abs(n[j] / nfp) > n_max)
+      throw std::runtime_error("Input mode numbers " + name + " are outside the range given by nfp and the maximum mode numbers");
+  }
+}
+
 /** Initialize variables that are common to all surfaces that share
  *  the same (mpol, ntor) resolution.
  *
@@ -46,6 +57,10 @@ void Booz_xform::init() {
 
   if (mpol < 1 || iota.size() < ns_in || s_in.size() < ns_in)
     throw std::runtime_error("Input data must be loaded before run()");
+  if (nfp < 1) throw std::runtime_error("nfp must be at least 1");
+  check_modes(xm, xn, mnmax, mpol - 1, ntor, nfp, "xm, xn");
+  check_modes(xm_nyq, xn_nyq, mnmax_nyq, mpol_nyq, ntor_nyq, nfp, "xm_nyq, xn_nyq");
+  if (xm_nyq[0] != 0 || xn_nyq[0] != 0) throw std::runtime_error("The first mode of xm_nyq, xn_nyq must be (0,0)");
   check_size(rmnc, mnmax, ns_in, "rmnc");
   check_size(zmns, mnmax, ns_in, "zmns");
   check_size(lmns, mnmax, ns_in, "lmns");
-- 
2.43.0


From 86211de00dd4d198048ffb397b5cc4e646860ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:11 +0000
Subject: [PATCH 28/32] fix: write_boozmn rejects missing or outdated results
 instead of reading out of bounds

---
 src/_booz_xform/write_boozmn.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/_booz_xform/write_boozmn.cpp b/src/_booz_xform/write_boozmn.cpp
index 543e53b..89cba39 100644
--- a/src/_booz_xform/write_boozmn.cpp
+++ b/src/_booz_xform/write_boozmn.cpp
@@ -1,12 +1,42 @@
 #include <iostream>
 #include <vector>
+#include <stdexcept>
 #include "booz_xform.hpp"
 #include "netcdf_writer.hpp"
 
 using namespace booz_xform;
 
+/** Make sure an output array holds the results for all output modes and surfaces.
+ */
+static void check_size(const Matrix& matrix, int rows, int cols, std::string name) {
+  if (matrix.rows() != rows || matrix.cols() != cols)
+    throw std::runtime_error("Output array " + name + " does not match mnboz and compute_surfs. run() must be called before write_boozmn()");
+}
+
 void Booz_xform::write_boozmn(std::string filename) {
   int j;
+
+  // Do not write arrays that do not exist, or no longer match the
+  // inputs which determine their size:
+  if (mnboz < 1 || compute_surfs.size() < 1 || compute_surfs.size() != ns_b || xm_b.size() != mnboz || xn_b.size() != mnboz)
+    throw std::runtime_error("There are no results for the present compute_surfs. run() must be called before write_boozmn()");
+  check_size(bmnc_b, mnboz, ns_b, "bmnc_b");
+  check_size(rmnc_b, mnboz, ns_b, "rmnc_b");
+  check_size(zmns_b, mnboz, ns_b, "zmns_b");
+  check_size(numns_b, mnboz, ns_b, "numns_b");
+  check_size(gmnc_b, mnboz, ns_b, "gmnc_b");
+  if (asym) {
+    check_size(bmns_b, mnboz, ns_b, "bmns_b");
+    check_size(rmns_b, mnboz, ns_b, "rmns_b");
+    check_size(zmnc_b, mnboz, ns_b, "zmnc_b");
+    check_size(numnc_b, mnboz, ns_b, "numnc_b");
+    check_size(gmns_b, mnboz, ns_b, "gmns_b");
+  }
+  if (iota.size() < ns_in || Boozer_I_all.size() < ns_in || Boozer_G_all.size() < ns_in)
+    throw std::runtime_error("The profiles iota, Boozer_I_all, and Boozer_G_all must cover all input surfaces");
+  if (phip.size() > 0 && (phip.size() < ns_in + 1 || chi.size() < ns_in + 1 || pres.size() < ns_in + 1 || phi.size() < ns_in + 1))
+    throw std::runtime_error("The profiles phip, chi, pres, and phi must cover all radii");
+
   if (verbose > 0) std::cout << "Writing output to " << filename << std::endl;
   NetCDFWriter nc(filename);
 
-- 
2.43.0


From 263fcbc1250978989e896ff95d3340c1dd3bf188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:29 +0000
Subject: [PATCH 29/32] fix: keep the surface index apart in the accuracy
 report if it has more than 3 digits

---
 src/_booz_xform/check_accuracy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_booz_xform/check_accuracy.cpp b/src/_booz_xform/check_accuracy.cpp
index 2df8c56..2748397 100644
--- a/src/_booz_xform/check_accuracy.cpp
+++ b/src/_booz_xform/check_accuracy.cpp
@@ -129,7 +129,7 @@ void Booz_xform::check_accuracy(int js, int js_b,
   {
   std::cout << std::setprecision(3) << std::scientific
 	    << std::setw(4) << thread << std::setw(6) << js_b
-	    << std::setw(4) << js
+	    << ' ' << std::setw(3) << js // A space, also if js > 999
 	    << "   0" << std::setprecision(3) << std::scientific
 	    << std::setw(11) << bmod_vmec[0]
 	    << std::setw(11) << bmod_boozer[0]
-- 
2.43.0


From 1337cc11ea7c7e3e092a70b3697ae230a7116f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:25 +0000
Subject: [PATCH 30/32] fix: read_boozmn does not report an error on stdout if
 chi_b is absent, nor ignore errors in reading it

---
 src/_booz_xform/netcdf_reader.cpp | 9 +++++++++
 src/_booz_xform/netcdf_reader.hpp | 1 +
 src/_booz_xform/read_boozmn.cpp   | 4 ++--
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/netcdf_reader.cpp b/src/_booz_xform/netcdf_reader.cpp
index 0c8433c..cb0bc10 100644
--- a/src/_booz_xform/netcdf_reader.cpp
+++ b/src/_booz_xform/netcdf_reader.cpp
@@ -37,6 +37,15 @@ size_t booz_xform::NetCDFReader::getdim(std::string dimname) {
   return dimval;
 }
 
+/** Return whether the file has a variable with the given name. */
+bool booz_xform::NetCDFReader::has(std::string varname) {
+  int var_id;
+  int retval = nc_inq_varid(ncid, varname.c_str(), &var_id);
+  if (retval != NC_NOERR && retval != NC_ENOTVAR)
+    ERR(retval, varname);
+  return retval == NC_NOERR;
+}
+
 /** Throw an error if a variable does not have the expected shape. The
     dimensions are given in the NetCDF order, i.e. slowest first. An
     array with one element is accepted for a scalar.
diff --git a/src/_booz_xform/netcdf_reader.hpp b/src/_booz_xform/netcdf_reader.hpp
index 4f07c11..25ed5da 100644
--- a/src/_booz_xform/netcdf_reader.hpp
+++ b/src/_booz_xform/netcdf_reader.hpp
@@ -21,6 +21,7 @@ namespace booz_xform {
     ~NetCDFReader();
 
     size_t getdim(std::string);
+    bool has(std::string);
     
     // Scalars:
     void get(std::string, int&);
diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index 718a12a..b410376 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -50,9 +50,9 @@ void Booz_xform::read_boozmn(std::string filename) {
   nc.get("buco_b", Boozer_I_in);
   nc.get("phi_b", phi);
   nc.get("phip_b", phip);
-  try {
+  if (nc.has("chi_b")) {
       nc.get("chi_b", chi);
-  } catch (std::runtime_error error) {
+  } else {
       // Not present in files from the fortran booz_xform.
       chi.setZero();
   }
-- 
2.43.0


From 5f8bcfb08048cd453366573d8c9c8e9174623b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:39 +0000
Subject: [PATCH 31/32] fix: do not let bytes that are not text stop the Python
 driver

The Python driver decoded its whole input file, and failed if any part of it,
for instance a comment after the list of surfaces in Latin-1, was not valid in
the present encoding. The C++ driver ignores such bytes unless they are in the
way of what it reads.
---
 src/booz_xform/_cli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/booz_xform/_cli.py b/src/booz_xform/_cli.py
index 9159a7e..a49afb7 100644
--- a/src/booz_xform/_cli.py
+++ b/src/booz_xform/_cli.py
@@ -65,7 +65,9 @@ def _parse_input_file(filename):
     extraction operators, i.e. all tokens are read in order and newlines are
     not significant.
     """
-    with open(filename) as f:
+    # As in driver.cpp, bytes that are not text in the present encoding matter
+    # only where they are read.
+    with open(filename, errors="surrogateescape") as f:
         text = f.read()
 
     mboz, pos = _scan_int(text, 0)
-- 
2.43.0


From 68e34409ba34ad9cb8934661ec16def4c54a2e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:31 +0000
Subject: [PATCH 32/32] Observation points in init() (nothing unless
 BOOZ_XFORM_VERIF is defined)

---
 src/_booz_xform/init.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index eb05e45..4757349 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -7,6 +7,7 @@
 #endif
 #include "booz_xform.hpp"
 #include "init_trig.hpp"
+#include "verif_hooks.hpp"
 
 using namespace booz_xform;
 
@@ -76,6 +77,7 @@ void Booz_xform::init() {
     check_size(bsubvmns, mnmax_nyq, ns_in, "bsubvmns");
   }
 
+  BOOZ_XFORM_VERIF_POINT("init_begin", -1);
   // First comes some initialization from read_wout_booz.f:
   
   // Set resolution for the real-space grids:
@@ -109,6 +111,7 @@ void Booz_xform::init() {
   }
   assert (j == mnboz);
 
+  BOOZ_XFORM_VERIF_POINT("init_modes", -1);
   // A section about "fac" and "scl" has been moved to the end of
   // surface_solve(). Look for "fourier_factor" there.
 
@@ -166,6 +169,7 @@ void Booz_xform::init() {
     }
   }
 
+  BOOZ_XFORM_VERIF_POINT("init_grid", -1);
   cosm.setZero(n_theta_zeta, mpol);
   sinm.setZero(n_theta_zeta, mpol);
   cosn.setZero(n_theta_zeta, ntor + 1);
@@ -189,6 +193,7 @@ void Booz_xform::init() {
   std::cout << std::setprecision(15) << "sinm:" << std::endl << sinm << std::endl;
   std::cout << std::setprecision(15) << "sinn:" << std::endl << sinn << std::endl;
   */
+  BOOZ_XFORM_VERIF_POINT("init_trig", -1);
   ns_b = compute_surfs.size();
   s_b.resize(ns_b);
   for (j = 0; j < ns_b; j++) s_b[j] = s_in[compute_surfs[j]];
-- 
2.43.0

