#include "wire.hpp"
#include "fftw_mon.hpp"
#include <atomic>
#include <thread>
#include "par.hpp"
#include "cheb.hpp"
#include "finite_diff.hpp"

struct Obj { std::unique_ptr<Cheb> c; std::unique_ptr<FD> f; size_t n; };
static std::map<long long, Obj> objs;
static std::atomic<size_t> made(0);

// runs one method; `v` is given to the code and `o` is what came out
static void call(Obj &o, const std::string &m, std::vector<double> &v, std::vector<double> &w)
{
   w.assign(v.size(), POISON);
   if (o.c) {
      if (m == "to_ch") o.c->to_ch(v, w);
      else if (m == "to_po") o.c->to_po(v, w);
      else if (m == "der") o.c->der(v, w);
      else if (m == "filter") { o.c->filter(v); w = v; }
      else std::exit(96);
   } else {
      if (m == "der") o.f->der(v, w);
      else if (m == "der2") o.f->der2(v, w);
      else if (m == "filter") { o.f->filter(v); w = v; }
      else std::exit(96);
   }
}
void dispatch(const std::string &op, In &in, Out &out)
{
   if (op == "new") {
      long long id = in.i(); std::string kind = in.s(); size_t n = in.i(); double lo = in.x(), hi = in.x();
      Obj o; o.n = n;
      if (kind == "cheb") {
         o.c.reset(new Cheb(n, lo, hi));
         out.i(o.c->n()); out.x(o.c->lower()); out.x(o.c->upper());
      } else {
         o.f.reset(new FD(n, lo, hi));
         out.i(o.f->n()); out.x(o.f->lower()); out.x(o.f->upper());
      }
      objs[id] = std::move(o);
   } else if (op == "del") {
      objs.erase(in.i());
   } else if (op == "pts") {
      Obj &o = objs[in.i()];
      std::vector<double> p(o.n);
      for (size_t i = 0; i < o.n; i++) p[i] = o.c ? o.c->pt(i) : o.f->pt(i);
      out.d(p);
   } else if (op == "call") {
      Obj &o = objs[in.i()]; std::string m = in.s(); std::vector<double> v = in.d(), w;
      call(o, m, v, w);
      out.d(w); out.d(v);
   } else if (op == "matrix") {   // images of all unit vectors times `scale`
      Obj &o = objs[in.i()]; std::string m = in.s(); double scale = in.x();
      std::vector<double> M;
      for (size_t j = 0; j < o.n; j++) {
         std::vector<double> v(o.n, 0.0), w;
         v[j] = scale;
         call(o, m, v, w);
         M.insert(M.end(), w.begin(), w.end());
      }
      out.d(M);
   } else if (op == "par" || op == "parnew") {      // T threads repeat a list of calls, each compared with its sequential result
      size_t T = in.i(), reps = in.i(), k = in.i();
      struct Task { long long id; std::string m; std::vector<double> v, ref; };
      std::vector<Task> ts(k);
      for (auto &t : ts) {
         t.id = in.i(); t.m = in.s(); t.v = in.d();
         std::vector<double> v = t.v; call(objs[t.id], t.m, v, t.ref);
      }
      // parnew: meanwhile this thread makes, uses and destroys other objects
      struct Spec { size_t n; double lo, hi; }; std::vector<Spec> others;
      if (op == "parnew") for (long long q = in.i(); q > 0; q--) { Spec s; s.n = in.i(); s.lo = in.x(); s.hi = in.x(); others.push_back(s); }
      std::atomic<size_t> ready(0), bad(0), calls(0), running(T);
      made = 0;
      std::vector<std::thread> th;
      std::vector<Obj *> ptr(k);
      for (size_t q = 0; q < k; q++) ptr[q] = &objs[ts[q].id];
      for (size_t t = 0; t < T; t++) th.emplace_back([&, t]() {
         ready++; while (ready < T) std::this_thread::yield();
         size_t b = 0, c = 0;
         for (size_t r = 0; r < reps || (!others.empty() && made < 3*others.size() && r < 1000000); r++)
            for (size_t q = 0; q < k; q++) {
               size_t j = (q + t*(r + 1)) % k;
               std::vector<double> v = ts[j].v, w;
               call(*ptr[j], ts[j].m, v, w);
               c++; if (!same_bits(w, ts[j].ref)) b++;
            }
         bad += b; calls += c; running--;
      });
      bool cheb = objs[ts[0].id].c != nullptr;
      for (size_t q = 0; !others.empty() && (running || made < 3*others.size()); q++) {
         Spec s = others[q % others.size()]; Obj o; o.n = s.n;
         if (cheb) o.c.reset(new Cheb(s.n, s.lo, s.hi)); else o.f.reset(new FD(s.n, s.lo, s.hi));
         std::vector<double> v(s.n), w;
         for (size_t i = 0; i < s.n; i++) v[i] = std::cos(3.0*i*i);
         call(o, "der", v, w); call(o, "filter", v, w);
         made++;
      }
      for (auto &x : th) x.join();
      out.i(calls); out.i(bad);
   } else if (op == "par0") {     // the same, nothing having been computed before on the object
      Obj &o = objs[in.i()];
      concurrent(in, out, [&](const std::string &m, const std::vector<double> &v) { std::vector<double> c = v, w; call(o, m, c, w); return w; });
   } else if (op == "fftw") {
      FftwStats s = fftw_mon_stats();
      out.i(s.planned); out.i(s.executed); out.i(s.destroyed); out.i(s.cleanups);
      std::string b; for (auto &x : s.bad) b += x + "; ";
      out.s(b);
   } else std::exit(96);
}
