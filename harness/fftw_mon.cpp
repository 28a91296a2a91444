// Typestate monitor for the FFTW interface (linked with -Wl,--wrap=...):
//  - a plan may not be executed or destroyed after fftw_cleanup() or after its own destruction,
//  - new-array execution must match the planned alignment and in-place-ness,
//  - fftw_malloc memory is filled with a signalling pattern, so that data that was
//    never written shows in the results,
//  - under a sanitizer the whole input and output range of a transform is touched in
//    instrumented code (FFTW itself is not instrumented).
// FFTWMON_PLAN=estimate replaces the planning effort (not the transform).
#include <fftw3.h>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <limits>
#include <mutex>
#include "fftw_mon.hpp"

#ifdef MON_TSAN
extern "C" void __tsan_read_range(void *, size_t);
extern "C" void __tsan_write_range(void *, size_t);
#endif

namespace {
struct Rec { int n; int ain, aout; bool inplace, unaligned, undefined, destroyed; };
// a fixed table: the monitor itself never changes the heap
const size_t SLOTS = 1 << 14;
fftw_plan keys[SLOTS]; Rec recs[SLOTS]; size_t used = 0;
Rec *find(fftw_plan p)
{
   for (size_t k = (size_t) ((uintptr_t) p >> 4)*2654435761u % SLOTS, i = 0; i < SLOTS && keys[k]; k = (k + 1) % SLOTS, i++) if (keys[k] == p) return &recs[k];
   return 0;
}
void put(fftw_plan p, const Rec &r)
{
   if (Rec *f = find(p)) { *f = r; return; }
   if (used >= SLOTS/2) return;
   size_t k = (size_t) ((uintptr_t) p >> 4)*2654435761u % SLOTS;
   while (keys[k]) k = (k + 1) % SLOTS;
   keys[k] = p; recs[k] = r; used++;
}
std::mutex mtx;
FftwStats st;
void bad(const std::string &s) { if (st.bad.size() < 20) st.bad.push_back(s); }
struct Guard {
#ifdef MON_TSAN   /* no lock: it would order the monitored threads */
   Guard() {}
#else
   Guard() { mtx.lock(); }
   ~Guard() { mtx.unlock(); }
#endif
};
}
FftwStats fftw_mon_stats() { Guard g; return st; }

extern "C" {
fftw_plan __real_fftw_plan_r2r_1d(int, double *, double *, fftw_r2r_kind, unsigned);
void __real_fftw_execute_r2r(const fftw_plan, double *, double *);
void __real_fftw_execute(const fftw_plan);
void __real_fftw_destroy_plan(fftw_plan);
void __real_fftw_cleanup(void);
void *__real_fftw_malloc(size_t);

fftw_plan __wrap_fftw_plan_r2r_1d(int n, double *in, double *out, fftw_r2r_kind kind, unsigned flags)
{
   const char *e = std::getenv("FFTWMON_PLAN");
   unsigned fl = flags;
   if (e && !std::strcmp(e, "estimate")) fl = (flags & ~(FFTW_PATIENT | FFTW_EXHAUSTIVE)) | FFTW_ESTIMATE;
   fftw_plan p = __real_fftw_plan_r2r_1d(n, in, out, kind, fl);
   Guard g;
   st.planned++;
   if (p) put(p, Rec{n, fftw_alignment_of(in), fftw_alignment_of(out), in == out, (flags & FFTW_UNALIGNED) != 0, false, false});
   return p;
}
static void check_exec(const fftw_plan p, const char *what)
{
   Rec *it = find(p);
   if (!it) return;
   if (it->destroyed) bad(std::string(what) + " of a destroyed plan");
   else if (it->undefined) bad(std::string(what) + " of a plan that fftw_cleanup made undefined");
}
void __wrap_fftw_execute_r2r(const fftw_plan p, double *in, double *out)
{
   int n = 0;
   {
      Guard g;
#ifndef MON_TSAN
      st.executed++;
#endif
      if (const Rec *it = find(p)) {
         check_exec(p, "execution");
         const Rec &r = *it;
         n = r.n;
         if ((in == out) != r.inplace) bad("new-array execution with other in-place-ness than planned");
         if (!r.unaligned && (fftw_alignment_of(in) != r.ain || fftw_alignment_of(out) != r.aout))
            bad("new-array execution with other alignment than planned");
      }
   }
#ifdef MON_TSAN
   __tsan_read_range(in, 8*(size_t) n);
   __tsan_write_range(out, 8*(size_t) n);
#else
   volatile double sink = 0;
   for (int i = 0; i < n; i++) { sink = in[i]; sink = out[i]; }
   (void) sink;
#endif
   __real_fftw_execute_r2r(p, in, out);
}
void __wrap_fftw_execute(const fftw_plan p)
{
   { Guard g; check_exec(p, "execution"); }
   __real_fftw_execute(p);
}
void __wrap_fftw_destroy_plan(fftw_plan p)
{
   {
      Guard g;
      st.destroyed++;
      if (Rec *it = find(p)) {
         if (it->destroyed) { bad("second destruction of a plan"); return; }
         if (it->undefined) bad("destruction of a plan that fftw_cleanup made undefined");
         it->destroyed = true;
      }
   }
   __real_fftw_destroy_plan(p);
}
void __wrap_fftw_cleanup(void)
{
   Guard g;
   st.cleanups++;
   for (size_t k = 0; k < SLOTS; k++) if (keys[k] && !recs[k].destroyed) recs[k].undefined = true;
   __real_fftw_cleanup();
}
void *__wrap_fftw_malloc(size_t n)
{
   void *p = __real_fftw_malloc(n);
   if (p) {
      double *d = (double *) p;
      const double nan = std::numeric_limits<double>::quiet_NaN();
      for (size_t i = 0; i < n/8; i++) d[i] = nan;
   }
   return p;
}
}
