// A small OpenMP runtime with the libgomp ABI, made for observing programs:
//   MG_MODE=par         every team thread is a fresh POSIX thread.  The only
//                       synchronisation a race detector can see is the one OpenMP
//                       guarantees (fork, join, barrier, critical, tasks): the
//                       bookkeeping of this file is not instrumented, so handing out
//                       sections or iterations does not hide races.
//   MG_MODE=fwd|rev|rand:<seed>   real threads of which exactly one runs at a time; the
//                       order is given by the mode.  Code compiled with
//                       -fsanitize-coverage=trace-pc can be preempted at every basic
//                       block (probability 1/MG_PREEMPT).
//   MG_DELAY=<us>       (par) random start delays of team threads.
//   MG_REPORT=<file>    appends what was observed: teams, threads, switches, hash of the schedule.
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <atomic>
#include <vector>
#include <map>
#include <algorithm>

extern "C" {
void __tsan_acquire(void *) __attribute__((weak));
void __tsan_release(void *) __attribute__((weak));
}
#define ACQ(p) do { if (__tsan_acquire) __tsan_acquire((void *) (p)); } while (0)
#define REL(p) do { if (__tsan_release) __tsan_release((void *) (p)); } while (0)
typedef unsigned long long ull;

namespace {
struct Spin {
   std::atomic<int> f{0};
   void lock() { while (f.exchange(1, std::memory_order_acquire)) sched_yield(); }
   void unlock() { f.store(0, std::memory_order_release); }
};
// ---------------------------------------------------------------- configuration
enum Mode { PAR, FWD, REV, RAND };
struct Conf {
   Mode mode; uint64_t seed; unsigned preempt; unsigned delay; int nthreads[8]; int nlev; int levels; const char *report;
   int sched; long chunk;
};
Conf &conf()
{
   static Conf c; static std::atomic<int> done{0}; static Spin s;
   if (done.load(std::memory_order_acquire)) return c;
   s.lock();
   if (!done.load()) {
      const char *m = std::getenv("MG_MODE"), *p = std::getenv("MG_PREEMPT"), *d = std::getenv("MG_DELAY");
      c.mode = PAR; c.seed = 1;
      if (m && !std::strcmp(m, "fwd")) c.mode = FWD;
      else if (m && !std::strcmp(m, "rev")) c.mode = REV;
      else if (m && !std::strncmp(m, "rand", 4)) { c.mode = RAND; if (m[4] == ':') c.seed = std::strtoull(m + 5, 0, 10); }
      c.preempt = p ? std::atoi(p) : 0; c.delay = d ? std::atoi(d) : 0;
      c.report = std::getenv("MG_REPORT");
      c.nlev = 0;
      const char *n = std::getenv("OMP_NUM_THREADS");
      while (n && *n && c.nlev < 8) { c.nthreads[c.nlev++] = std::max(1, std::atoi(n)); n = std::strchr(n, ','); if (n) n++; }
      if (!c.nlev) { c.nthreads[0] = 4; c.nlev = 1; }
      const char *l = std::getenv("OMP_MAX_ACTIVE_LEVELS");
      c.levels = l ? std::atoi(l) : (c.nlev > 1 ? c.nlev : 1);
      c.sched = 1; c.chunk = 0;
      const char *s2 = std::getenv("OMP_SCHEDULE");
      if (s2) {
         c.sched = std::strstr(s2, "dynamic") ? 2 : std::strstr(s2, "guided") ? 3 : 1;
         const char *k = std::strchr(s2, ','); if (k) c.chunk = std::atol(k + 1);
      }
      done.store(1, std::memory_order_release);
   }
   s.unlock();
   return c;
}
// ---------------------------------------------------------------- observation
std::atomic<long> o_teams{0}, o_threads{0}, o_switches{0}, o_preempts{0}, o_maxlive{0}, o_live{0};
uint64_t o_hash = 1469598103934665603ull;
void report()
{
   if (!conf().report) return;
   FILE *f = std::fopen(conf().report, "a");
   if (!f) return;
   std::fprintf(f, "teams=%ld threads=%ld switches=%ld preempts=%ld maxlive=%ld hash=%016llx\n",
                o_teams.load(), o_threads.load(), o_switches.load(), o_preempts.load(), o_maxlive.load(), (ull) o_hash);
   std::fclose(f);
}
// ---------------------------------------------------------------- one thread at a time
struct Sched { sem_t sem; int id; bool (*cond)(void *); void *arg; };
std::vector<Sched *> *runq = 0;     // touched by the holder of the baton only
std::atomic<int> nrun{0};
int next_id = 0;
uint64_t rng = 0;
uint64_t rnd() { if (!rng) rng = conf().seed*0x9E3779B97F4A7C15ull + 88172645463325252ull; rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
inline bool baton() { return conf().mode != PAR; }
Sched *new_sched() { Sched *s = new Sched; sem_init(&s->sem, 0, 0); s->id = next_id++; s->cond = 0; s->arg = 0; return s; }

struct Team;
struct Ts {                          // what a thread knows about itself
   Team *team; int tid; int level; int active; int nth[8]; int nnth; int maxlev; long ws; long singles;
   struct Work *cur; long static_at; Sched *sched; std::vector<pthread_t> *kids; Ts *parent; int sk; long sc;
};
__thread Ts *me_ = 0;
__thread int inside = 0;
Ts *me()
{
   if (!me_) {
      Ts *t = new Ts();
      t->team = 0; t->tid = 0; t->level = 0; t->active = 0; t->ws = 0; t->cur = 0; t->sched = 0; t->kids = 0; t->parent = 0;
      for (int i = 0; i < conf().nlev; i++) t->nth[i] = conf().nthreads[i];
      t->nnth = conf().nlev; t->maxlev = conf().levels; t->sk = conf().sched; t->sc = conf().chunk;
      me_ = t;
   }
   return me_;
}
Sched *my_sched()
{
   Ts *t = me();
   if (!t->sched) {
      if (!runq) { runq = new std::vector<Sched *>; std::atexit(report); }
      t->sched = new_sched(); runq->push_back(t->sched); nrun++;
   }
   return t->sched;
}
Sched *pick(Sched *cur, bool may_stay)
{
   std::vector<Sched *> ok;
   for (Sched *s : *runq) if ((may_stay || s != cur) && (!s->cond || s->cond(s->arg))) ok.push_back(s);
   if (ok.empty()) return 0;
   if (conf().mode == RAND) return ok[rnd() % ok.size()];
   // fwd and rev run a thread until it ends or waits
   if (may_stay && cur) for (Sched *s : ok) if (s == cur) return s;
   return conf().mode == FWD ? ok.front() : ok.back();
}
void give(Sched *cur, Sched *to)
{
   if (to == cur) return;
   o_switches++;
   o_hash = (o_hash ^ (uint64_t) to->id)*1099511628211ull;
   sem_post(&to->sem);
}
void wait_turn(Sched *s) { while (sem_wait(&s->sem)) {} }
void yield_(bool fresh = false)     // a scheduling point
{
   if (!baton() || !me_ || !me_->sched) return;
   inside++;
   Sched *s = me_->sched, *to = pick(fresh && conf().mode == REV ? 0 : s, true);
   if (to && to != s) { give(s, to); wait_turn(s); }
   inside--;
}
void block(bool (*cond)(void *), void *arg)    // waits for a condition
{
   if (!baton()) { while (!cond(arg)) sched_yield(); return; }
   inside++;
   Sched *s = my_sched();
   while (!cond(arg)) {
      s->cond = cond; s->arg = arg;
      Sched *to = pick(s, false);
      if (!to) { if (nrun <= 1) { inside--; s->cond = 0; while (!cond(arg)) sched_yield(); return; }
                 std::fprintf(stderr, "MINIGOMP: deadlock\n"); _exit(98); }
      give(s, to); wait_turn(s);
      s->cond = 0;
   }
   s->cond = 0;
   inside--;
}
// ---------------------------------------------------------------- teams
struct Work {
   std::atomic<long> next{0}; long start = 0, end = 0, incr = 1, chunk = 0; ull ustart = 0, uend = 0, uincr = 1; bool up = true;
   ull trips = 0; int kind = 1; std::atomic<ull> at{0}; std::atomic<int> taken{0}; void *copy = 0; std::atomic<int> copied{0};
   std::atomic<long> ordered{0};
};
struct Team {
   int n; std::atomic<int> done{0}; Spin mx; std::vector<Work *> works; int nth_arrived = 0; std::atomic<long> gen{0};
   void (*fn)(void *); void *data;
   Work *work(long k) { mx.lock(); while ((long) works.size() <= k) works.push_back(new Work); Work *w = works[k]; mx.unlock(); return w; }
   ~Team() { for (Work *w : works) delete w; }
};
struct Start { Ts ts; Team *team; };
void join_kids(Ts *t)
{
   if (!t->kids) return;
   std::vector<pthread_t> k; k.swap(*t->kids);
   for (pthread_t p : k) pthread_join(p, 0);
}
void *team_thread(void *a)
{
   Start *s = (Start *) a;
   Ts *t = new Ts(s->ts);
   me_ = t;
   long l = ++o_live; long m = o_maxlive.load(); while (l > m && !o_maxlive.compare_exchange_weak(m, l)) {}
   if (t->sched) wait_turn(t->sched);
   else if (conf().delay) { unsigned seed = (unsigned) (uintptr_t) a ^ (unsigned) std::clock(); usleep(rand_r(&seed) % (conf().delay + 1)); }
   s->team->fn(s->team->data);
   join_kids(t);
   o_live--;
   inside++;
   s->team->done++;
   if (t->sched) {
      Sched *mine = t->sched;
      runq->erase(std::find(runq->begin(), runq->end(), mine)); nrun--;
      Sched *to = pick(0, true);
      if (!to) { std::fprintf(stderr, "MINIGOMP: deadlock at the end of a thread\n"); _exit(98); }
      give(0, to);
      sem_destroy(&mine->sem); delete mine;
   }
   delete t->kids; delete t; delete s;
   me_ = 0;
   return 0;
}
bool team_done(void *a) { Team *t = (Team *) a; return t->done.load() == t->n - 1; }
int team_size(Ts *t, unsigned want)
{
   int n = want ? (int) want : t->nth[0];
   if (t->active >= t->maxlev) n = 1;
   return n < 1 ? 1 : n;
}
void run_team(void (*fn)(void *), void *data, unsigned want, Team *team)
{
   inside++;
   Ts *t = me();
   const int n = team->n = team_size(t, want);
   team->fn = fn; team->data = data;
   o_teams++; o_threads += n;
   if (!baton()) { static std::atomic<int> once{0}; if (!once.exchange(1)) std::atexit(report); }
   std::vector<pthread_t> th(n > 1 ? n - 1 : 0);
   Ts mine = *t;
   auto child = [&](int tid) {
      Ts c = mine;
      c.team = team; c.tid = tid; c.level = mine.level + 1; c.active = mine.active + (n > 1); c.ws = 0; c.cur = 0; c.kids = 0; c.parent = t; c.sched = 0; c.singles = 0;
      if (mine.nnth > 1) { for (int i = 1; i < mine.nnth; i++) c.nth[i-1] = mine.nth[i]; c.nnth = mine.nnth - 1; }
      return c;
   };
   if (n > 1 && baton()) my_sched();
   for (int i = 1; i < n; i++) {
      Start *s = new Start{child(i), team};
      if (baton()) { s->ts.sched = new_sched(); runq->push_back(s->ts.sched); nrun++; }
      if (pthread_create(&th[i-1], 0, team_thread, s)) { std::fprintf(stderr, "MINIGOMP: cannot create a thread\n"); _exit(97); }
   }
   Ts *self = new Ts(child(0));
   self->sched = t->sched;
   me_ = self;
   inside--;
   if (n > 1) yield_(true);
   fn(data);
   inside++;
   join_kids(self);
   if (n > 1) { if (baton()) block(team_done, team); for (pthread_t p : th) pthread_join(p, 0); }
   delete self->kids; delete self;
   me_ = t;
   inside--;
}
struct BarArg { Team *t; long gen; };
bool bar_open(void *a) { BarArg *b = (BarArg *) a; return b->t->gen.load() != b->gen; }
void barrier()
{
   Ts *t = me();
   join_kids(t);
   Team *tm = t->team;
   if (!tm || tm->n == 1) return;
   inside++;
   REL(tm);
   tm->mx.lock();
   BarArg b{tm, tm->gen.load()};
   if (++tm->nth_arrived == tm->n) { tm->nth_arrived = 0; tm->gen++; tm->mx.unlock(); }
   else { tm->mx.unlock(); block(bar_open, &b); }
   ACQ(tm);
   inside--;
   yield_();
}
// ---------------------------------------------------------------- work sharing
Work *begin(Ts *t)
{
   if (!t->team) { t->team = new Team; t->team->n = 1; }
   Work *w = t->team->work(t->ws++);
   t->cur = w; t->static_at = 0;
   return w;
}
ull trips(bool up, ull s, ull e, ull inc) { if (up ? s >= e : s <= e) return 0; return up ? (e - s + inc - 1)/inc : (s - e + (0 - inc) - 1)/(0 - inc); }
long ltrips(long s, long e, long inc) { return inc > 0 ? (s >= e ? 0 : (e - s + inc - 1)/inc) : (s <= e ? 0 : (s - e - inc - 1)/(-inc)); }
// next chunk of iterations [a,b) out of w->trips
bool grab(ull &a, ull &b)
{
   Ts *t = me();
   Work *w = t->cur;
   yield_();
   const ull N = w->trips, n = t->team->n;
   if (w->kind == 1 || !baton()) {     // static; in par mode dynamic schedules are dealt out evenly, so that no thread takes it all
      if (w->kind != 1) {
         ull c = w->chunk > 0 ? w->chunk : 1;
         a = ((ull) t->static_at++*n + t->tid)*c;
         if (a >= N) return false;
         b = std::min(N, a + c);
         return true;
      }
      if (w->chunk <= 0) {
         if (t->static_at++) return false;
         ull q = N/n, r = N % n, id = t->tid;
         a = id*q + std::min(id, r); b = a + q + (id < r);
         return a < b;
      }
      a = ((ull) t->static_at++*n + t->tid)*w->chunk;
      if (a >= N) return false;
      b = std::min(N, a + w->chunk);
      return true;
   }
   for (;;) {
      ull k = w->at.load(), c = w->chunk > 0 ? w->chunk : 1;
      if (k >= N) return false;
      if (w->kind == 3) c = std::max(c, (N - k + n - 1)/n);
      ull e = std::min(N, k + c);
      if (w->at.compare_exchange_strong(k, e)) { a = k; b = e; return true; }
   }
}
void setup(Work *w, int kind, long chunk, ull tr)
{
   Ts *t = me();
   if (kind == 4) { kind = t->sk; chunk = t->sc; }
   w->kind = kind; w->chunk = chunk; w->trips = tr;    // the same values from every thread
}
bool lnext(long *i, long *e)
{
   ull a, b; Work *w = me()->cur;
   if (!grab(a, b)) return false;
   *i = w->start + (long) a*w->incr; *e = w->start + (long) b*w->incr;
   return true;
}
bool lstart(int kind, long s, long e, long inc, long chunk, long *i, long *en)
{
   Work *w = begin(me());
   w->start = s; w->end = e; w->incr = inc;
   setup(w, kind, chunk, ltrips(s, e, inc));
   return lnext(i, en);
}
bool unext(ull *i, ull *e)
{
   ull a, b; Work *w = me()->cur;
   if (!grab(a, b)) return false;
   *i = w->ustart + a*w->uincr; *e = w->ustart + b*w->uincr;
   return true;
}
bool ustart(int kind, bool up, ull s, ull e, ull inc, ull chunk, ull *i, ull *en)
{
   Work *w = begin(me());
   w->ustart = s; w->uend = e; w->uincr = inc; w->up = up;
   setup(w, kind, (long) chunk, trips(up, s, e, inc));
   return unext(i, en);
}
unsigned snext()
{
   ull a, b;
   if (!grab(a, b)) return 0;
   return (unsigned) a + 1;
}
struct LoopStart { void (*fn)(void *); void *data; int kind; long s, e, inc, chunk; };
void loop_body(void *p)
{
   LoopStart *l = (LoopStart *) p;
   Work *w = begin(me());
   w->start = l->s; w->end = l->e; w->incr = l->inc;
   setup(w, l->kind, l->chunk, ltrips(l->s, l->e, l->inc));
   l->fn(l->data);
}
void parloop(void (*fn)(void *), void *data, unsigned nt, int kind, long s, long e, long inc, long chunk)
{
   LoopStart l{fn, data, kind, s, e, inc, chunk};
   Team tm; run_team(loop_body, &l, nt, &tm);
}
struct SecStart { void (*fn)(void *); void *data; unsigned count; };
void sec_body(void *p)
{
   SecStart *l = (SecStart *) p;
   Work *w = begin(me());
   setup(w, 2, 1, l->count);
   l->fn(l->data);
}
// ---------------------------------------------------------------- locks
struct Lock { std::atomic<int> held{0}; std::atomic<void *> owner{nullptr}; int depth = 0; };
bool lock_free(void *a) { return ((Lock *) a)->held.load() == 0; }
void lock(Lock *l)
{
   yield_();
   for (;;) {
      if (!l->held.exchange(1)) break;
      block(lock_free, l);
   }
   ACQ(l);
}
void unlock(Lock *l) { REL(l); l->held.store(0); yield_(); }
Lock crit, atom;
Spin names; std::map<void *, Lock *> &named() { static std::map<void *, Lock *> *m = new std::map<void *, Lock *>; return *m; }
Lock *by_name(void *p) { names.lock(); Lock *&l = named()[p]; if (!l) l = new Lock; Lock *r = l; names.unlock(); return r; }
// ---------------------------------------------------------------- tasks
struct Task { Ts ts; void (*fn)(void *); char *buf; void *arg; };
void *task_thread(void *a)
{
   Task *k = (Task *) a;
   me_ = new Ts(k->ts);
   k->fn(k->arg);
   join_kids(me_);
   delete me_->kids; delete me_; me_ = 0;
   delete[] k->buf; delete k;
   return 0;
}
void spawn(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool now, long *range)
{
   Ts *t = me();
   Task *k = new Task;
   k->ts = *t; k->ts.kids = 0; k->ts.sched = 0; k->fn = fn;
   k->buf = new char[size + align + 16];
   char *arg = (char *) (((uintptr_t) k->buf + align - 1)/(align ? align : 1)*(align ? align : 1));
   if (cpy) cpy(arg, data); else std::memcpy(arg, data, size);
   k->arg = arg;
   if (range) std::memcpy(arg, range, 2*sizeof(long));
   if (now || baton()) { Ts *keep = me_; fn(arg); me_ = keep; delete[] k->buf; delete k; yield_(); return; }
   if (!t->kids) t->kids = new std::vector<pthread_t>;
   pthread_t p;
   if (pthread_create(&p, 0, task_thread, k)) { std::fprintf(stderr, "MINIGOMP: cannot create a thread\n"); _exit(97); }
   t->kids->push_back(p);
   o_threads++;
}
}  // namespace

extern "C" {
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) { Team tm; run_team(fn, data, nt, &tm); }
unsigned GOMP_parallel_reductions(void (*fn)(void *), void *data, unsigned nt, unsigned) { Team tm; run_team(fn, data, nt, &tm); return tm.n; }
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned nt, unsigned count, unsigned)
{
   SecStart s{fn, data, count}; Team tm; run_team(sec_body, &s, nt, &tm);
}
void GOMP_parallel_loop_static(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned) { parloop(fn, d, nt, 1, s, e, i, c); }
void GOMP_parallel_loop_dynamic(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned) { parloop(fn, d, nt, 2, s, e, i, c); }
void GOMP_parallel_loop_guided(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned) { parloop(fn, d, nt, 3, s, e, i, c); }
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned) { parloop(fn, d, nt, 2, s, e, i, c); }
void GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, long c, unsigned) { parloop(fn, d, nt, 3, s, e, i, c); }
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned) { parloop(fn, d, nt, 4, s, e, i, 0); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned) { parloop(fn, d, nt, 4, s, e, i, 0); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned nt, long s, long e, long i, unsigned) { parloop(fn, d, nt, 4, s, e, i, 0); }
#define LOOP(name, kind) \
bool GOMP_loop_##name##_start(long s, long e, long inc, long c, long *i, long *en) { return lstart(kind, s, e, inc, c, i, en); } \
bool GOMP_loop_##name##_next(long *i, long *e) { return lnext(i, e); } \
bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull inc, ull c, ull *i, ull *en) { return ustart(kind, up, s, e, inc, c, i, en); } \
bool GOMP_loop_ull_##name##_next(ull *i, ull *e) { return unext(i, e); }
#define LOOPR(name) \
bool GOMP_loop_##name##_start(long s, long e, long inc, long *i, long *en) { return lstart(4, s, e, inc, 0, i, en); } \
bool GOMP_loop_##name##_next(long *i, long *e) { return lnext(i, e); } \
bool GOMP_loop_ull_##name##_start(bool up, ull s, ull e, ull inc, ull *i, ull *en) { return ustart(4, up, s, e, inc, 0, i, en); } \
bool GOMP_loop_ull_##name##_next(ull *i, ull *e) { return unext(i, e); }
LOOP(static, 1) LOOP(dynamic, 2) LOOP(guided, 3) LOOP(nonmonotonic_dynamic, 2) LOOP(nonmonotonic_guided, 3)
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) { yield_(); }
bool GOMP_loop_end_cancel(void) { barrier(); return false; }
unsigned GOMP_sections_start(unsigned count) { Work *w = begin(me()); setup(w, 2, 1, count); return snext(); }
unsigned GOMP_sections_next(void) { return snext(); }
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) { yield_(); }
bool GOMP_sections_end_cancel(void) { barrier(); return false; }
bool GOMP_single_start(void) { Work *w = begin(me()); yield_(); return w->taken.exchange(1) == 0; }
void *GOMP_single_copy_start(void)
{
   Work *w = begin(me());
   if (w->taken.exchange(1) == 0) return 0;
   barrier();
   return w->copy;
}
void GOMP_single_copy_end(void *p) { me()->cur->copy = p; barrier(); }
void GOMP_barrier(void) { barrier(); }
bool GOMP_barrier_cancel(void) { barrier(); return false; }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
void GOMP_critical_start(void) { lock(&crit); }
void GOMP_critical_end(void) { unlock(&crit); }
void GOMP_critical_name_start(void **p) { lock(by_name(p)); }
void GOMP_critical_name_end(void **p) { unlock(by_name(p)); }
void GOMP_atomic_start(void) { lock(&atom); }
void GOMP_atomic_end(void) { unlock(&atom); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool ifc, unsigned, void **, int, void *)
{
   spawn(fn, data, cpy, size, align, !ifc, 0);
}
void GOMP_taskwait(void) { join_kids(me()); }
void GOMP_taskyield(void) { yield_(); }
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) { join_kids(me()); }
void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned flags, unsigned long num, int, long s, long e, long step)
{
   const long n = ltrips(s, e, step);
   if (n <= 0) return;
   long parts;
   if (flags & (1 << 9)) parts = std::max(1L, n/(long) std::max(1ul, num));      // grainsize
   else parts = num ? (long) num : (long) (me()->team ? me()->team->n : 1);
   parts = std::min(parts, n);
   for (long k = 0, at = 0; k < parts; k++) {
      long c = n/parts + (k < n % parts);
      long r[2] = {s + at*step, s + (at + c)*step};
      at += c;
      spawn(fn, data, cpy, size, align, !(flags & (1 << 10)), r);
   }
   if (!(flags & (1 << 11))) join_kids(me());
}
void GOMP_taskloop_ull(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, unsigned flags, unsigned long num, int p, ull s, ull e, ull step)
{
   GOMP_taskloop(fn, data, cpy, size, align, flags, num, p, (long) s, (long) e, (long) step);
}

int omp_get_thread_num(void) { return me()->tid; }
int omp_get_num_threads(void) { Ts *t = me(); return t->team ? t->team->n : 1; }
int omp_get_max_threads(void) { return me()->nth[0]; }
void omp_set_num_threads(int n) { Ts *t = me(); t->nth[0] = n < 1 ? 1 : n; t->nnth = std::max(t->nnth, 1); }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return me()->active > 0; }
int omp_get_level(void) { return me()->level; }
int omp_get_active_level(void) { return me()->active; }
int omp_get_ancestor_thread_num(int l) { Ts *t = me(); if (l < 0 || l > t->level) return -1; while (t && t->level > l) t = t->parent; return t ? t->tid : 0; }
int omp_get_team_size(int l) { Ts *t = me(); if (l < 0 || l > t->level) return -1; while (t && t->level > l) t = t->parent; return t && t->team ? t->team->n : 1; }
void omp_set_max_active_levels(int n) { me()->maxlev = n; }
int omp_get_max_active_levels(void) { return me()->maxlev; }
void omp_set_nested(int n) { me()->maxlev = n ? 1 << 20 : 1; }
int omp_get_nested(void) { return me()->maxlev > 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
int omp_get_thread_limit(void) { return 1 << 20; }
int omp_get_cancellation(void) { return 0; }
void omp_set_schedule(int k, int c) { Ts *t = me(); k &= 0xff; t->sk = k == 2 ? 2 : k == 3 ? 3 : 1; t->sc = c; }
void omp_get_schedule(int *k, int *c) { Ts *t = me(); *k = t->sk; *c = (int) t->sc; }
double omp_get_wtime(void) { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + 1e-9*ts.tv_nsec; }
double omp_get_wtick(void) { return 1e-9; }
int omp_get_num_teams(void) { return 1; }
int omp_get_team_num(void) { return 0; }
int omp_get_num_devices(void) { return 0; }
int omp_get_default_device(void) { return 0; }
int omp_is_initial_device(void) { return 1; }
int omp_get_proc_bind(void) { return 0; }
void omp_init_lock(void *p) { *(Lock **) p = 0; (void) by_name(p); }
void omp_destroy_lock(void *) {}
void omp_set_lock(void *p) { lock(by_name(p)); }
void omp_unset_lock(void *p) { unlock(by_name(p)); }
int omp_test_lock(void *p) { Lock *l = by_name(p); if (l->held.exchange(1)) return 0; ACQ(l); return 1; }
void omp_init_nest_lock(void *p) { (void) by_name(p); }
void omp_destroy_nest_lock(void *) {}
void omp_set_nest_lock(void *p) { Lock *l = by_name(p); if (l->owner.load() == (void *) &me_) { l->depth++; return; } lock(l); l->owner = (void *) &me_; l->depth = 1; }
void omp_unset_nest_lock(void *p) { Lock *l = by_name(p); if (--l->depth == 0) { l->owner = nullptr; unlock(l); } }

// preemption at basic blocks (objects compiled with -fsanitize-coverage=trace-pc)
void __sanitizer_cov_trace_pc(void)
{
   if (inside || nrun.load(std::memory_order_relaxed) < 2 || !me_ || !me_->sched) return;
   const Conf &c = conf();
   if (c.mode != RAND || !c.preempt) return;
   if (rnd() % c.preempt == 0) { o_preempts++; yield_(); }
}
#ifdef MG_SCHED
// whoever waits for a mutex or a local static lets the others run
int pthread_mutex_lock(pthread_mutex_t *m)
{
   int r;
   while ((r = pthread_mutex_trylock(m)) == 16 /* EBUSY */) {
      if (me_ && me_->sched && !inside && baton()) {
         inside++;
         Sched *s = me_->sched, *to = pick(s, false);
         if (to) { give(s, to); wait_turn(s); }
         inside--;
      } else sched_yield();
   }
   return r;
}
#endif
}
