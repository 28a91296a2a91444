#include "shtns.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <vector>
#include <atomic>
#include <csignal>
#include <unistd.h>

static void fail(const char *msg, long long a = 0, long long b = 0)
{
   std::fprintf(stderr, "SHTNS-CONTRACT: %s (%lld,%lld)\n", msg, a, b);
   std::fflush(stderr);
   std::abort();
}
static const uint32_t LIVE = 0x5487;
/* Fault injection: SHTNS_KILL_AT=n ends the process (SHTNS_KILL_SIG, default SIGKILL) at its n-th transform; SHTNS_COUNT=file
 * writes the number of transforms at exit. */
namespace {
struct Fault {
   std::atomic<long long> n{0};
   long long at = -1;
   int sig = SIGKILL;
   const char *file = nullptr;
   Fault() {
      if (const char *e = std::getenv("SHTNS_KILL_AT")) at = std::atoll(e);
      if (const char *e = std::getenv("SHTNS_KILL_SIG")) sig = std::atoi(e);
      file = std::getenv("SHTNS_COUNT");
   }
   ~Fault() {
      if (!file) return;
      if (FILE *f = std::fopen(file, "w")) { std::fprintf(f, "%lld\n", n.load()); std::fclose(f); }
   }
   inline void hit() {
      if (at < 0 && !file) return;
      if (n.fetch_add(1, std::memory_order_relaxed) == at) { kill(getpid(), sig); for (;;) pause(); }
   }
} fault;
}
unsigned int shtns_shim_lm(shtns_cfg c, long long l, long long m)
{
   if (l < 0 || l > c->lmax || m < 0 || m > c->mmax || m > l) fail("LM index out of the resolved modes", l, m);
   return (unsigned)((m*(2*c->lmax + 1 - m))/2 + l);
}
extern "C" {
void shtns_verbose(int) {}
int shtns_use_threads(int) { return 1; }

shtns_cfg shtns_create(int lmax, int mmax, int mres, enum shtns_norm norm)
{
   if (lmax < 1) fail("lmax must be at least 1", lmax);
   if (mmax < 0 || mmax*mres > lmax) fail("mmax*mres must not exceed lmax", mmax, lmax);
   if (mres != 1) fail("only mres=1 is provided", mres);
   if (norm != sht_orthonormal) fail("only sht_orthonormal is provided", norm);
   shtns_cfg c = (shtns_cfg) std::calloc(1, sizeof(struct shtns_info));
   c->lmax = lmax; c->mmax = mmax; c->mres = mres;
   c->nlm = (mmax + 1)*(lmax + 1) - (mmax*(mmax + 1))/2;
   c->nlm_cplx = (lmax + 1)*(lmax + 1);
   c->li = (unsigned short *) std::calloc(c->nlm, sizeof(unsigned short));
   c->mi = (unsigned short *) std::calloc(c->nlm, sizeof(unsigned short));
   for (int m = 0; m <= mmax; m++)
      for (int l = m; l <= lmax; l++) {
         c->li[shtns_shim_lm(c, l, m)] = l;
         c->mi[shtns_shim_lm(c, l, m)] = m;
      }
   return c;
}

int shtns_set_grid(shtns_cfg c, enum shtns_type flags, double, int nlat, int nphi)
{
   if (c->ready) fail("grid already set");
   if ((int(flags) & 255) != sht_gauss) fail("only sht_gauss is provided", flags);
   if (int(flags) & (SHT_NO_CS_PHASE | SHT_REAL_NORM)) fail("unsupported flags", flags);
   if (nlat <= c->lmax) fail("the sampling condition Nlat>Lmax is not met", nlat, c->lmax);
   if (nphi <= 2*c->mmax) fail("the sampling condition Nphi>2*Mmax is not met", nphi, c->mmax);
   c->phi_contiguous = (int(flags) & SHT_PHI_CONTIGUOUS) ? 1 : 0;
   c->nlat = nlat; c->nlat_2 = (nlat + 1)/2; c->nphi = nphi; c->nspat = (unsigned) nlat*nphi;
   c->ct  = (double *) std::calloc(nlat, sizeof(double));
   c->st  = (double *) std::calloc(nlat, sizeof(double));
   c->wts = (double *) std::calloc(nlat, sizeof(double));
   c->cs  = (double *) std::calloc(2*nphi, sizeof(double));
   c->plm = (double *) std::calloc((size_t) c->nlm*nlat, sizeof(double));
   const long double pi = 3.14159265358979323846264338327950288L;
   for (int i = 0; i < nlat; i++) {   /* Gauss-Legendre nodes, north pole first */
      long double x = cosl(pi*(i + 0.75L)/(nlat + 0.5L)), dp = 0;
      for (int it = 0; it < 100; it++) {
         long double p0 = 1, p1 = x;
         for (int k = 2; k <= nlat; k++) { long double p2 = ((2*k - 1)*x*p1 - (k - 1)*p0)/k; p0 = p1; p1 = p2; }
         if (nlat == 1) { p0 = 1; p1 = x; }
         dp = nlat*(x*p1 - p0)/(x*x - 1);
         long double dx = p1/dp;
         x -= dx;
         if (fabsl(dx) < 1e-19L) break;
      }
      if (nlat % 2 == 1 && i == nlat/2) x = 0;
      c->ct[i] = (double) x;
      c->st[i] = (double) sqrtl(1 - x*x);
      c->wts[i] = (double) (2/((1 - x*x)*dp*dp));
      long double s = sqrtl(1 - x*x);
      long double pmm = sqrtl(1/(4*pi));
      for (int m = 0; m <= c->mmax; m++) {
         if (m > 0) pmm *= -s*sqrtl((2*m + 1)/(2.0L*m));
         long double a = 0, b = pmm;
         for (int l = m; l <= c->lmax; l++) {
            if (l > m) {
               long double L = l, M = m;
               long double f  = sqrtl((4*L*L - 1)/(L*L - M*M));
               long double g  = (l == m + 1) ? 0 : sqrtl(((L - 1)*(L - 1) - M*M)/(4*(L - 1)*(L - 1) - 1));
               long double n = f*(x*b - g*a);
               a = b; b = n;
            }
            c->plm[(size_t) shtns_shim_lm(c, l, m)*nlat + i] = (double) b;
         }
      }
   }
   for (int k = 0; k < nphi; k++) {
      c->cs[2*k]     = (double) cosl(2*pi*k/nphi);
      c->cs[2*k + 1] = (double) sinl(2*pi*k/nphi);
   }
   c->ready = LIVE;
   return c->nspat;
}

void shtns_destroy(shtns_cfg c)
{
   if (!c) fail("destroying a null configuration");
   std::free(c->li); std::free(c->mi); std::free(c->ct); std::free(c->st);
   std::free(c->wts); std::free(c->cs); std::free(c->plm);
   c->ready = 0;
   std::free(c);
}
}
static inline size_t at(shtns_cfg c, size_t it, size_t ip)
{
   return c->phi_contiguous ? ip + (size_t) c->nphi*it : it + (size_t) c->nlat*ip;
}
static void need(shtns_cfg c, const void *a, const void *b)
{
   if (!c || c->ready != (int) LIVE) fail("transform before the grid was set or after destruction");
   if (!a || !b) fail("null array");
   if (((uintptr_t) a | (uintptr_t) b) % 16) fail("array not 16-byte aligned");
}
extern "C" {
void spat_to_SH(shtns_cfg c, double *V, cplx *Q)
{
   fault.hit();
   need(c, V, Q);
   const size_t nlat = c->nlat, nphi = c->nphi;
   std::vector<double> re(nlat), im(nlat);
   const double dphi = 2*M_PI/nphi;
   for (size_t m = 0; m <= c->mmax; m++) {
      for (size_t it = 0; it < nlat; it++) {
         double a = 0, b = 0;
         for (size_t ip = 0; ip < nphi; ip++) {
            const size_t k = (m*ip) % nphi;
            const double v = V[at(c, it, ip)];
            a += v*c->cs[2*k]; b -= v*c->cs[2*k + 1];
         }
         re[it] = a*dphi*c->wts[it]; im[it] = b*dphi*c->wts[it];
      }
      for (size_t l = m; l <= c->lmax; l++) {
         const size_t lm = shtns_shim_lm(c, l, m);
         const double *p = c->plm + lm*nlat;
         double a = 0, b = 0;
         for (size_t it = 0; it < nlat; it++) { a += p[it]*re[it]; b += p[it]*im[it]; }
         Q[lm] = cplx(a, m ? b : 0.0);
      }
   }
}
void SH_to_spat(shtns_cfg c, cplx *Q, double *V)
{
   fault.hit();
   need(c, V, Q);
   const size_t nlat = c->nlat, nphi = c->nphi;
   std::vector<double> re((c->mmax + 1)*nlat, 0.0), im((c->mmax + 1)*nlat, 0.0);
   for (size_t m = 0; m <= c->mmax; m++)
      for (size_t l = m; l <= c->lmax; l++) {
         const size_t lm = shtns_shim_lm(c, l, m);
         const double *p = c->plm + lm*nlat;
         const double a = Q[lm].real(), b = m ? Q[lm].imag() : 0.0;
         for (size_t it = 0; it < nlat; it++) { re[m*nlat + it] += a*p[it]; im[m*nlat + it] += b*p[it]; }
      }
   for (size_t it = 0; it < nlat; it++)
      for (size_t ip = 0; ip < nphi; ip++) {
         double v = re[it];
         for (size_t m = 1; m <= c->mmax; m++) {
            const size_t k = (m*ip) % nphi;
            v += 2*(re[m*nlat + it]*c->cs[2*k] - im[m*nlat + it]*c->cs[2*k + 1]);
         }
         V[at(c, it, ip)] = v;
      }
}
void spat_cplx_to_SH(shtns_cfg c, cplx *z, cplx *a)
{
   fault.hit();
   need(c, z, a);
   const long nlat = c->nlat, nphi = c->nphi, mmax = c->mmax, lmax = c->lmax;
   for (long i = 0; i < (lmax + 1)*(lmax + 1); i++) a[i] = 0;
   std::vector<cplx> F(nlat);
   const double dphi = 2*M_PI/nphi;
   for (long m = -mmax; m <= mmax; m++) {
      const long am = std::labs(m);
      const double sg = (m < 0 && (am & 1)) ? -1 : 1;
      for (long it = 0; it < nlat; it++) {
         double x = 0, y = 0;
         for (long ip = 0; ip < nphi; ip++) {
            const long k = (((m*ip) % nphi) + nphi) % nphi;
            const double cc = c->cs[2*k], ss = -c->cs[2*k + 1];
            const cplx v = z[at(c, it, ip)];
            x += v.real()*cc - v.imag()*ss; y += v.real()*ss + v.imag()*cc;
         }
         F[it] = cplx(x*dphi*c->wts[it]*sg, y*dphi*c->wts[it]*sg);
      }
      for (long l = am; l <= lmax; l++) {
         const double *p = c->plm + (size_t) shtns_shim_lm(c, l, am)*nlat;
         double x = 0, y = 0;
         for (long it = 0; it < nlat; it++) { x += p[it]*F[it].real(); y += p[it]*F[it].imag(); }
         a[l*(l + 1) + m] = cplx(x, y);
      }
   }
}
void SH_to_spat_cplx(shtns_cfg c, cplx *a, cplx *z)
{
   fault.hit();
   need(c, z, a);
   const long nlat = c->nlat, nphi = c->nphi, mmax = c->mmax, lmax = c->lmax;
   std::vector<cplx> G((2*mmax + 1)*nlat, cplx(0, 0));
   for (long m = -mmax; m <= mmax; m++) {
      const long am = std::labs(m);
      const double sg = (m < 0 && (am & 1)) ? -1 : 1;
      for (long l = am; l <= lmax; l++) {
         const double *p = c->plm + (size_t) shtns_shim_lm(c, l, am)*nlat;
         const double x = sg*a[l*(l + 1) + m].real(), y = sg*a[l*(l + 1) + m].imag();
         for (long it = 0; it < nlat; it++) G[(m + mmax)*nlat + it] += cplx(x*p[it], y*p[it]);
      }
   }
   for (long it = 0; it < nlat; it++)
      for (long ip = 0; ip < nphi; ip++) {
         double x = 0, y = 0;
         for (long m = -mmax; m <= mmax; m++) {
            const long k = (((m*ip) % nphi) + nphi) % nphi;
            const double cc = c->cs[2*k], ss = c->cs[2*k + 1];
            const cplx g = G[(m + mmax)*nlat + it];
            x += g.real()*cc - g.imag()*ss; y += g.real()*ss + g.imag()*cc;
         }
         z[at(c, it, ip)] = cplx(x, y);
      }
}
}
