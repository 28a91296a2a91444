/*
 * Stand-in for the part of the SHTns interface that scalar-field-kerr uses.
 *
 * SHTns itself is not installed in the sandbox, so the code that needs it could
 * not be executed at all.  This is an independent implementation (direct
 * Gauss-Legendre quadrature and direct sums over m) of the documented contract:
 *   - orthonormal harmonics with the Condon-Shortley phase,
 *   - real transforms keep m>=0 only, LM(l,m) = LiM ordering (m-major),
 *   - complex transforms index l*(l+1)+m with (lmax+1)^2 coefficients,
 *   - l<=lmax and |m|<=mmax are resolved, Nlat>lmax and Nphi>2*mmax required,
 *   - native layout: theta contiguous; SHT_PHI_CONTIGUOUS: phi contiguous,
 *   - transforms are re-entrant.
 * It also monitors that contract: misuse is reported on stderr and aborts.
 */
#ifndef SHTNS_SHIM_H
#define SHTNS_SHIM_H
#include <complex>
#include <cstddef>
typedef std::complex<double> cplx;

enum shtns_norm { sht_orthonormal, sht_fourpi, sht_schmidt, sht_for_rotations };
enum shtns_type {
   sht_gauss, sht_auto, sht_reg_fast, sht_reg_dct, sht_quick_init, sht_reg_poles, sht_gauss_fly
};
#define SHT_NATIVE_LAYOUT 0
#define SHT_THETA_CONTIGUOUS 256
#define SHT_PHI_CONTIGUOUS (256*2)
#define SHT_NO_CS_PHASE (256*4)
#define SHT_REAL_NORM (256*8)

struct shtns_info {
   unsigned int nlm;
   unsigned short lmax, mmax, mres;
   unsigned short nlat_2;
   unsigned int nlat, nphi, nspat;
   unsigned int nlm_cplx;
   unsigned short *li, *mi;
   double *ct, *st;
   double *wts;
   double *plm;     /* [lm][it] */
   double *cs;      /* cos(2 pi k/nphi), sin(2 pi k/nphi) */
   int phi_contiguous, ready;
};
typedef struct shtns_info *shtns_cfg;

unsigned int shtns_shim_lm(shtns_cfg c, long long l, long long m);
#define LM(shtns, l, m)  shtns_shim_lm((shtns), (long long)(l), (long long)(m))
#define LiM(shtns, l, im) shtns_shim_lm((shtns), (long long)(l), (long long)(im)*(shtns)->mres)
#define NSPAT_ALLOC(shtns) ((shtns)->nspat)
#define PHI_DEG(shtns, ip) (360./((shtns)->nphi*(shtns)->mres))*(ip)
#define PHI_RAD(shtns, ip) (2.*M_PI/((shtns)->nphi*(shtns)->mres))*(ip)

extern "C" {
void shtns_verbose(int);
int  shtns_use_threads(int num_threads);
shtns_cfg shtns_create(int lmax, int mmax, int mres, enum shtns_norm norm);
int  shtns_set_grid(shtns_cfg, enum shtns_type flags, double eps, int nlat, int nphi);
void shtns_destroy(shtns_cfg);
void spat_to_SH(shtns_cfg, double *Vr, cplx *Qlm);
void SH_to_spat(shtns_cfg, cplx *Qlm, double *Vr);
void spat_cplx_to_SH(shtns_cfg, cplx *z, cplx *alm);
void SH_to_spat_cplx(shtns_cfg, cplx *alm, cplx *z);
}
#endif
