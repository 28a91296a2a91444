From 27b94bbd9428e0ee7e6020b25c03e950106d7131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 01/13] fix: destroying a Cheb no longer invalidates other FFTW
 plans

fftw_cleanup() makes every plan that still exists undefined, including those of
other Cheb objects and of SHTns (the Sphere in a Grid is destroyed after its Cheb).
---
 Source/cheb.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Source/cheb.cpp b/Source/cheb.cpp
index d53b232..dfcdd2a 100644
--- a/Source/cheb.cpp
+++ b/Source/cheb.cpp
@@ -42,7 +42,6 @@ Cheb::~Cheb()
    assert(_plan_dct!=nullptr);
 
    fftw_destroy_plan(_plan_dct);
-   fftw_cleanup();
 }
 /*==========================================================================*/
 /* position space to Chebyshev space */
-- 
2.43.0


From 5a43d38e48b5ecaf277d1b50638d2ecdf971ae62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 02/13] fix: Grid::set_row_ph runs over the phi points

It ran over nlat points, reading and writing out of bounds when nlat>nphi
and leaving points unset when nlat<nphi.
---
 Source/grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/grid.hpp b/Source/grid.hpp
index 8d710c5..4f04f12 100644
--- a/Source/grid.hpp
+++ b/Source/grid.hpp
@@ -111,7 +111,7 @@ public:
    {
       assert(in.size() ==_nphi);
       assert(out.size()==_nx*_nphi*_nlat);
-      for (size_t ip=0; ip<_nlat; ip++) {
+      for (size_t ip=0; ip<_nphi; ip++) {
          out[indx_R_th_ph(ix,it,ip)] = in[ip];
       }
    } 
-- 
2.43.0


From d7b59ee1ba90b811a949614bad32df4c01c99178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 03/13] fix: Grid::get_row_R_ph checks its output against the
 phi points

The assertion aborted debug builds for correctly sized rows when nlat!=nphi.
---
 Source/grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/grid.hpp b/Source/grid.hpp
index 4f04f12..ef35227 100644
--- a/Source/grid.hpp
+++ b/Source/grid.hpp
@@ -167,7 +167,7 @@ public:
          std::vector<double> &out) const
    {
       assert(in.size() ==_nx*_nphi*_nlat);
-      assert(out.size()==_nx*_nlat);
+      assert(out.size()==_nx*_nphi);
       for (size_t ix=0; ix<_nx;   ix++) {
       for (size_t ip=0; ip<_nphi; ip++) {
          out[indx_r_ph(ix,ip)] = in[indx_R_th_ph(ix,it,ip)];
-- 
2.43.0


From fa7b521452944a4ce983bd43a1a20537df8c4386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 04/13] fix: Grid::filter applies the radial filter

The radial row was read and written back unfiltered, so that neither the
Chebyshev low pass filter nor the Kreiss-Oliger dissipation was ever applied.
---
 Source/grid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/grid.cpp b/Source/grid.cpp
index 7819e4c..9c60d66 100644
--- a/Source/grid.cpp
+++ b/Source/grid.cpp
@@ -295,9 +295,10 @@ void Grid::filter(std::vector<double> &v) const
       get_row_R(it, ip, v, inter_radial); 
       const double lwr = inter_radial[0    ];
       const double upr = inter_radial[_nx-1];
-      set_row_R(it, ip, inter_radial, v); 
+      _radial.filter(inter_radial);
       inter_radial[0    ] = lwr;
       inter_radial[_nx-1] = upr;
+      set_row_R(it, ip, inter_radial, v); 
    }
    }
 }
-- 
2.43.0


From 5b3f83deda122b3c9ad800e4573f7f2c9d694c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 05/13] fix: Sphere operators act on every mode SHTns resolves

SHTns resolves l<=lmax and m<=mmax. The modes with l=lmax or m=mmax were passed
through the Laplacian, the phi derivative, the ladder operators and the filter
unchanged (so that the highest modes were neither damped nor differentiated),
and m=mmax was missing from the power spectrum.
---
 Source/sphere.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/Source/sphere.cpp b/Source/sphere.cpp
index 8d1ebfa..d36b871 100644
--- a/Source/sphere.cpp
+++ b/Source/sphere.cpp
@@ -13,8 +13,8 @@ Sphere::Sphere(
    _mmax{nm},
    _nlat{nlat}, 
    _nphi{nphi}, 
-   _lap(_lmax,0),
-   _low_pass(_lmax,0)
+   _lap(_lmax+1,0),
+   _low_pass(_lmax+1,0)
 {
    std::cout<<"Initializing Sphere"<<std::endl;
    shtns_verbose(0);     /* displays informations during initialization. */
@@ -45,13 +45,13 @@ Sphere::Sphere(
    /* 
     * Set Laplacian in spherical harmonic space: \Delta Y_{lm} = -l(l+1) Y_{lm}
     */
-   for (size_t i=0; i<_lmax; i++) {
+   for (size_t i=0; i<=_lmax; i++) {
       _lap[i] = - double(i)*double(i+1.0);
    }
    /* 
     * Low pass filter in spherical harmonic space 
     */
-   for (size_t i=0; i<_lmax; i++) {
+   for (size_t i=0; i<=_lmax; i++) {
       _low_pass[i] = exp(-40.0*pow(double(i)/_lmax,16));
    }
    _nSph = NSPAT_ALLOC(_shtns);
@@ -202,8 +202,8 @@ void Sphere::laplace_beltrami(
    }
    spat_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax;               l++) {
-   for (size_t m=0; m<std::min(l+1,_mmax); m++) {
+   for (size_t l=0; l<=_lmax;              l++) {
+   for (size_t m=0; m<=std::min(l,_mmax);  m++) {
       Ylm_tmp[LM(_shtns,l,m)] *= _lap[l];
    }
    }
@@ -233,8 +233,8 @@ void Sphere::partial_phi(const std::vector<double> &v, std::vector<double> &dv)
 
    const cplx img(0,1);
 
-   for (size_t l=0; l<_lmax;               l++) {
-   for (size_t m=0; m<std::min(l+1,_mmax); m++) {
+   for (size_t l=0; l<=_lmax;              l++) {
+   for (size_t m=0; m<=std::min(l,_mmax);  m++) {
       Ylm_tmp[LM(_shtns,l,m)] *= img*cplx(m);
    }
    }
@@ -265,7 +265,7 @@ void Sphere::raise(const std::vector<double> &v, std::vector<cplx> &rv) const
    }
    spat_cplx_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax; l++) {
+   for (size_t l=0; l<=_lmax; l++) {
       for (int m=int(l); m>-int(l); m--) {
          Ylm_tmp[l*(l+1)+m] = pow((l-m+1)*(l+m),0.5)*Ylm_tmp[l*(l+1)+(m-1)];
       }
@@ -299,7 +299,7 @@ void Sphere::lower(const std::vector<double> &v, std::vector<cplx> &lv) const
    }
    spat_cplx_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax; l++) {
+   for (size_t l=0; l<=_lmax; l++) {
       for (int m=-int(l); m<int(l); m++) {
          Ylm_tmp[l*(l+1)+m] = pow((l+m+1)*(l-m),0.5)*Ylm_tmp[l*(l+1)+(m+1)];
       }
@@ -354,8 +354,8 @@ void Sphere::filter(std::vector<double> &v) const
    }
    spat_to_SH(_shtns, Sph_tmp, Ylm_tmp);
 
-   for (size_t l=0; l<_lmax;               l++) {
-   for (size_t m=0; m<std::min(l+1,_mmax); m++) {
+   for (size_t l=0; l<=_lmax;              l++) {
+   for (size_t m=0; m<=std::min(l,_mmax);  m++) {
       Ylm_tmp[LM(_shtns,l,m)] *= _low_pass[l]*_low_pass[m];
    }
    }
@@ -387,7 +387,7 @@ void Sphere::power_spectrum(const std::vector<double> &v, std::vector<double> &p
       const double i_Ylm = Ylm_tmp[LM(_shtns,l,0)].imag();
       p[l] = (pow(r_Ylm,2) + pow(i_Ylm,2));
 
-      for (size_t m=1; m<std::min(l+1,_mmax); m++) {
+      for (size_t m=1; m<=std::min(l,_mmax); m++) {
          /*
           * We double count positive m as we do not
           * count negative m.
-- 
2.43.0


From b3c716e52aa22d6ca8ae2e413216124152ae8d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 06/13] fix: set the initial pulse at the horizon on the
 Chebyshev grid

The last radial point was skipped because r is infinite there, but Chebyshev
points run from Rmax to Rmin: the horizon point was left at its old value.
---
 Source/initial_data.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Source/initial_data.cpp b/Source/initial_data.cpp
index 5d18d71..4c2c05e 100644
--- a/Source/initial_data.cpp
+++ b/Source/initial_data.cpp
@@ -36,7 +36,7 @@ void compact_pulse(
 
    std::vector<double> ylm = grid.compute_ylm(l_ang, m_ang);
 
-   for (size_t ix=0; ix<nx-1; ix++) { /* do not include ix=nx-1 as r=infty there */
+   for (size_t ix=0; ix<nx;   ix++) {
    for (size_t ip=0; ip<nphi; ip++) {
    for (size_t it=0; it<nlat; it++) {
       const std::vector<double> R_th_ph = grid.R_th_ph(ix,it,ip);
@@ -44,6 +44,12 @@ void compact_pulse(
       const double r = grid.R_to_r(R_th_ph[0]);
       double bump = 0.0;
 
+      if (!((r<ru) && (r>rl))) { /* includes the point at r=infty */
+         f[grid.indx_R_th_ph(ix,it,ip)] = 0.0;
+         p[grid.indx_R_th_ph(ix,it,ip)] = 0.0;
+         continue;
+      }
+
       if ((r<ru) && (r>rl)) {
          bump = exp(-1.0*width/(r-rl))*exp(-2.0*width/(ru-r));
       }
-- 
2.43.0


From 80f4bee7cd1481a538cdfd7cf655677067dfcec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 07/13] fix: energy density counts the kinetic and gradient
 terms in full

The factor 1/2 is already part of the _rho coefficients; applying it twice halved
the kinetic energy relative to the potential (see Documentation, rho).
---
 Source/scalar_eom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/scalar_eom.cpp b/Source/scalar_eom.cpp
index 13124fa..67d0a26 100644
--- a/Source/scalar_eom.cpp
+++ b/Source/scalar_eom.cpp
@@ -343,7 +343,7 @@ void Scalar_eom::set_rho(
          );
          
       rho[i] = 
-      +  k*(1./2.)*(
+      +  k*(
             _rho_vv[i]*pow(p[i],2) 
          +  _rho_vr[i]*p[i]*_dr_f[i]
          +  _rho_rr[i]*pow(_dr_f[i],2)
-- 
2.43.0


From d4cb43f4ca40cf3dc43e206b379294f81eafa8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 08/13] fix: sign of the time-radial cross term in the energy
 density

n^v = -(1+2Mr/Sigma)^{1/2} and n^r = (2Mr/Sigma)(1+2Mr/Sigma)^{-1/2}, so that the
cross term of (n^a d_a psi)^2 is -(4Mr/Sigma) d_v psi d_r psi.
---
 Documentation/main.tex | 2 +-
 Source/scalar_eom.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Documentation/main.tex b/Documentation/main.tex
index 4ae33b5..92e67d6 100644
--- a/Documentation/main.tex
+++ b/Documentation/main.tex
@@ -306,7 +306,7 @@ In ingoing Eddington-Finkelstein coordinates we have
    \frac{1}{2}\Bigg[
       \left(1+\frac{2Mr}{\Sigma}\right)
       \left(\partial_v\psi\right)^2
-      +
+      -
       \frac{4Mr}{\Sigma}
       \left(\partial_v\psi\right)\left(\partial_r\psi\right)
       \nonumber\\&
diff --git a/Source/scalar_eom.cpp b/Source/scalar_eom.cpp
index 67d0a26..c5d4c54 100644
--- a/Source/scalar_eom.cpp
+++ b/Source/scalar_eom.cpp
@@ -112,7 +112,7 @@ Scalar_eom::Scalar_eom(
       _p_sphereX_f[indx]   *= _pre[indx];
 
       _rho_vv[indx]      = 0.5*(1. + 2.*m*inv_r/Sigma);
-      _rho_vr[indx]      = 2. *m*inv_r/Sigma;
+      _rho_vr[indx]      = -2.*m*inv_r/Sigma;
       _rho_rr[indx]      = 0.5*( 
             ((1. + (2.*m*inv_r)+pow(a*inv_r,2))/Sigma)
          -  (4.*m*inv_r/(2.*m*inv_r + Sigma))     
-- 
2.43.0


From 895141c7ba78cfe3b594cf39d1ac43c0e595a114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 09/13] fix: the executables use the radial method they are
 named after

config.py linked default_fd.run from the objects of the Chebyshev build, which
make considered up to date; recompiling from the run script never passed use_cheb
(and 'make clean_obj<bin>' built a stray executable instead of cleaning).
---
 config.py    | 2 ++
 sim_class.py | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/config.py b/config.py
index 6ad5508..7d2b553 100755
--- a/config.py
+++ b/config.py
@@ -20,6 +20,7 @@ args = parser.parse_args()
 print("=====================================================")
 print("Compiling radial Chebyshev executable")
 print("=====================================================")
+subprocess.call('make clean_Source', shell=True) ## flags below differ
 subprocess.call(
       'make debug={} profile={} use_cheb=true use_contiguous_longitudes=true'.format(args.debug, args.profile), 
       shell=True
@@ -27,6 +28,7 @@ subprocess.call(
 print("=====================================================")
 print("Compiling radial finite difference executable")
 print("=====================================================")
+subprocess.call('make clean_Source', shell=True) ## flags below differ
 subprocess.call(
       'make debug={} profile={} use_contiguous_longitudes=true'.format(args.debug, args.profile), 
       shell=True
diff --git a/sim_class.py b/sim_class.py
index 19b5c61..9eefd45 100644
--- a/sim_class.py
+++ b/sim_class.py
@@ -145,5 +145,8 @@ class Sim:
          os.chdir(self.home_dir)
 #=============================================================================
    def then_recompile(self)->None:
-      subprocess.call('make clean_obj'+self.bin_name,shell=True)
-      subprocess.call('make '+self.bin_name,shell=True)
+      subprocess.call('make clean_Source',shell=True)
+      flags= 'use_contiguous_longitudes=true'
+      if (self.use_cheb==True):
+         flags+= ' use_cheb=true'
+      subprocess.call('make {} {}'.format(flags,self.bin_name),shell=True)
-- 
2.43.0


From 0df297b65171eb19976f8eb4c640a1bf02d473e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 10/13] fix: a missing parameter ends the program with a
 failure status

The run stopped with an error message but status 0, as if it had succeeded.
---
 Source/params.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Source/params.cpp b/Source/params.cpp
index fa13c17..214f1e9 100644
--- a/Source/params.cpp
+++ b/Source/params.cpp
@@ -1,4 +1,5 @@
 #include <cassert>
+#include <cstdlib>
 #include <iomanip>
 #include <fstream>
 #include <iostream>
@@ -83,7 +84,7 @@ std::string Params::_read(
       }
    }
    std::cout<<"ERROR: did not find "<<find_this_var<<std::endl;
-   std::quick_exit(0);
+   std::quick_exit(EXIT_FAILURE);
 }
 /*========================================================================*/
 void Params::_read_array(
@@ -114,7 +115,7 @@ void Params::_read_array(
       }
    }
    std::cout<<"ERROR: did not find "<<find_this_var<<std::endl;
-   std::quick_exit(0);
+   std::quick_exit(EXIT_FAILURE);
 }
 /*========================================================================*/
 void Params::_read_array(
@@ -144,5 +145,5 @@ void Params::_read_array(
       }
    }
    std::cout<<"ERROR: did not find "<<find_this_var<<std::endl;
-   std::quick_exit(0);
+   std::quick_exit(EXIT_FAILURE);
 }
-- 
2.43.0


From 8640fb1a5c439f9bc6434472953fc49016f23fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:34 +0000
Subject: [PATCH 11/13] fix: report a CSV file that could not be written
 completely

A full disk or a write error was noticed by the stream only; the data was lost without a message.
---
 Source/io.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/Source/io.cpp b/Source/io.cpp
index a9c8cce..5a3d63d 100644
--- a/Source/io.cpp
+++ b/Source/io.cpp
@@ -31,13 +31,18 @@ void write(
       for (int i=0; i<n; i++) {
          out<<std::setprecision(16)<<vals[i]<<std::endl;
       }
+      out.close();
+      if (!out) {
+         std::cout
+            <<"ERROR(Csv::write): could not write all of "+file_name
+            <<std::endl;
+      }
    }
    else {
       std::cout
          <<"ERROR(Csv::write): "+file_name+" does not exist"
          <<std::endl;
    }
-   out.close();
 }
 /*===========================================================================*/
 /* f_{n,l}, with l = sqrt(Sum_m f_{l,m}) */
@@ -75,13 +80,18 @@ void write_n_psl(
             <<((power_spectrum[i]<1e-16) ? -16 : log(power_spectrum[i])/log(10))
             <<std::endl; 
       }		
+      out.close();
+      if (!out) {
+         std::cout
+            <<"ERROR(Csv::write): could not write all of "+file_name
+            <<std::endl;
+      }
    }
    else {
       std::cout
          <<"ERROR(Csv::write): "+file_name+" does not exist"
          <<std::endl;
    }
-   out.close();
 }
 #endif
 /*===========================================================================*/
@@ -117,13 +127,18 @@ void write_R_psl(
             <<((power_spectrum[i]<1e-16) ? -16 : log(power_spectrum[i])/log(10))
             <<std::endl; 
       }		
+      out.close();
+      if (!out) {
+         std::cout
+            <<"ERROR(Csv::write): could not write all of "+file_name
+            <<std::endl;
+      }
    }
    else {
       std::cout
          <<"ERROR(Csv::write): "+file_name+" does not exist"
          <<std::endl;
    }
-   out.close();
 }
 /*===========================================================================*/
 inline double magnitude(const std::vector<double> &v)
@@ -172,13 +187,18 @@ void write_x_y_z(
             out<<std::setprecision(16)<<vals[i]<<std::endl; /* grid point value */
          }
       }
+      out.close();
+      if (!out) {
+         std::cout
+            <<"ERROR(Csv::write): could not write all of "+file_name
+            <<std::endl;
+      }
    }
    else {
       std::cout
          <<"ERROR(Csv::write): "+file_name+" does not exist"
          <<std::endl;
    }
-   out.close();
 }
 /*===========================================================================*/
 }; /* Csv */
-- 
2.43.0


From 504f912b707f83890d85ba414cc52e7420f2bb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:21 +0000
Subject: [PATCH 12/13] fix: a cluster launch into a directory with a space or
 shell character in its name submitted nothing

The path of the batch script went through the shell unquoted. The working
directory is the output directory at this point, so its name is enough.
---
 sim_class.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim_class.py b/sim_class.py
index 9eefd45..b48be17 100644
--- a/sim_class.py
+++ b/sim_class.py
@@ -141,7 +141,7 @@ class Sim:
       else:
          self.write_slurm_script()
          os.chdir(self.output_dir)
-         subprocess.call('sbatch {}/run.slurm'.format(self.output_dir), shell=True)
+         subprocess.call('sbatch run.slurm', shell=True)
          os.chdir(self.home_dir)
 #=============================================================================
    def then_recompile(self)->None:
-- 
2.43.0


From 989baee3d8b5bce8e7cb4cb1e2d65dc4dd1eb92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:21 +0000
Subject: [PATCH 13/13] fix: a launch whose recompilation fails ran the old
 executable

The exit status of make was ignored, so that an executable of an earlier
build was copied, and run or submitted, as if it had been recompiled.
---
 sim_class.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sim_class.py b/sim_class.py
index b48be17..3f6775f 100644
--- a/sim_class.py
+++ b/sim_class.py
@@ -149,4 +149,4 @@ class Sim:
       flags= 'use_contiguous_longitudes=true'
       if (self.use_cheb==True):
          flags+= ' use_cheb=true'
-      subprocess.call('make {} {}'.format(flags,self.bin_name),shell=True)
+      subprocess.check_call('make {} {}'.format(flags,self.bin_name),shell=True)
-- 
2.43.0

