#include "wire.hpp"
#include <omp.h>
#include <cmath>
#include "params.hpp"
#include "grid.hpp"
#include "field.hpp"
#include "initial_data.hpp"
#include "scalar_eom.hpp"
typedef std::vector<double> VD;
struct Obj { std::unique_ptr<Params> pr; std::unique_ptr<Grid> g; std::unique_ptr<Scalar_eom> e, e2; std::unique_ptr<Field> f, p; size_t n; };
static std::map<long long, Obj> os;
static VD &level(Field &f, const std::string &lv) { return lv == "n" ? f.n : lv == "l" ? f.l : lv == "np1" ? f.np1 : f.k; }
void dispatch(const std::string &op, In &in, Out &out)
{
   if (op == "threads") { omp_set_num_threads(in.i()); omp_set_max_active_levels(in.i()); return; }
   long long id = in.i();
   if (op == "new") {
      std::string file = in.s();
      Obj o;
      o.pr.reset(new Params(file));
      const Params &q = *o.pr;
      o.g.reset(new Grid(q.cl(), q.Rmin(), q.Rmax(), q.nx(), q.nl(), q.nm(), q.nlat(), q.nphi()));
      o.e.reset(new Scalar_eom(*o.g, q));
      o.n = q.nx()*q.nlat()*q.nphi();
      o.f.reset(new Field("f", o.n, 0.0)); o.p.reset(new Field("p", o.n, 0.0));
      os[id] = std::move(o);
      return;
   }
   if (op == "del") { os.erase(id); return; }
   Obj &o = os[id];
   Grid &g = *o.g;
   if (op == "set_k") {
      VD f = in.d(), p = in.d(), f0 = f, p0 = p, fk(o.n, POISON), pk(o.n, POISON);
      o.e->set_k(g, f, p, fk, pk);
      out.d(fk); out.d(pk); out.i(same_bits(f, f0) && same_bits(p, p0));
   } else if (op == "set_rho") {
      VD f = in.d(), p = in.d(), f0 = f, p0 = p, rho(o.n, POISON);
      o.e->set_rho(g, f, p, rho);
      out.d(rho); out.i(same_bits(f, f0) && same_bits(p, p0));
   } else if (op == "ders") {      // the grid's own derivatives of f and p
      VD f = in.d(), p = in.d(), a(o.n, POISON), b(o.n, POISON);
      g.set_partial_r(f, a); out.d(a);
      g.set_partial2_r(f, a); out.d(a);
      g.set_partial_phi(f, b); out.d(b);
      g.set_partial_r(b, a); out.d(a);
      g.set_sphereX(f, a); out.d(a);
      g.set_spherical_lap(f, a); out.d(a);
      g.set_partial_r(p, a); out.d(a);
   } else if (op == "filter") { VD f = in.d(); g.filter(f); out.d(f); }
   else if (op == "pulse") {
      VD f = in.d(), p = in.d();
      ID::compact_pulse(*o.pr, g, f, p);
      out.d(f); out.d(p);
   } else if (op == "set") {
      Field &f = in.s() == "f" ? *o.f : *o.p; std::string lv = in.s(); VD v = in.d(); level(f, lv) = v;
   } else if (op == "get") {
      for (Field *f : {o.f.get(), o.p.get()}) { out.d(f->n); out.d(f->l); out.d(f->np1); out.d(f->k); }
   } else if (op == "step") { o.e->time_step(g, *o.f, *o.p); }
   else if (op == "shift") { o.f->shift(); o.p->shift(); }
   else if (op == "rk4") {      // the definition, on a second equation object
      double dt = in.x(); size_t sub = in.i(); bool filter = in.i(); VD f = in.d(), p = in.d();
      if (!o.e2) o.e2.reset(new Scalar_eom(g, *o.pr));
      if (filter) { g.filter(f); g.filter(p); }
      out.d(f); out.d(p);
      const double h = dt/sub;
      for (size_t s = 0; s < sub; s++) {
         VD a[4], b[4], x(o.n), y(o.n);
         for (int k = 0; k < 4; k++) { a[k].assign(o.n, POISON); b[k].assign(o.n, POISON); }
         const double c[4] = {0, 0.5, 0.5, 1};
         for (int k = 0; k < 4; k++) {
            for (size_t i = 0; i < o.n; i++) { x[i] = k ? f[i] + c[k]*h*a[k-1][i] : f[i]; y[i] = k ? p[i] + c[k]*h*b[k-1][i] : p[i]; }
            o.e2->set_k(g, x, y, a[k], b[k]);
         }
         for (size_t i = 0; i < o.n; i++) {
            f[i] += h/6*(a[0][i] + 2*a[1][i] + 2*a[2][i] + a[3][i]);
            p[i] += h/6*(b[0][i] + 2*b[1][i] + 2*b[2][i] + b[3][i]);
         }
      }
      out.d(f); out.d(p);
   } else if (op == "trajectory") {      // the run as described: initial state, then every step before nt
      const size_t nt = in.i(), ns = g.nx()*g.nl();
      const double dt = o.pr->dt();
      VD rho(o.n, POISON), pw(ns, POISON);
      ID::compact_pulse(*o.pr, g, o.f->n, o.p->n);
      o.f->np1 = o.f->n; o.p->np1 = o.p->n;
      for (size_t s = 0; s < nt || s == 0; s++) {
         if (s) o.e->time_step(g, *o.f, *o.p);
         out.x(g.norm_indep_res(dt, o.f->n, o.f->np1, o.p->n)); out.x(g.total_variation(o.f->np1));
         o.e->set_rho(g, o.f->np1, o.p->np1, rho);
         g.set_angular_power_spectrum(o.f->np1, pw); out.d(pw);
         g.set_angular_power_spectrum(rho, pw); out.d(pw);
         if (s) { o.f->n = o.f->np1; o.p->n = o.p->np1; }
      }
   } else if (op == "walk") {      // a fingerprint of every state of a long history, and some of the states
      const size_t steps = in.i(); o.f->n = in.d(); o.p->n = in.d(); VD at = in.d(), h, states;
      size_t q = 0;
      for (size_t s = 1; s <= steps; s++) {
         o.e->time_step(g, *o.f, *o.p); o.f->shift(); o.p->shift();
         uint64_t x = 1469598103934665603ULL;
         for (Field *f : {o.f.get(), o.p.get()}) for (double y : f->n) { uint64_t b; std::memcpy(&b, &y, 8); x = (x ^ b)*1099511628211ULL; x ^= x >> 29; }
         h.push_back(double(x >> 12));
         if (q < at.size() && size_t(at[q]) == s) { q++; for (Field *f : {o.f.get(), o.p.get()}) states.insert(states.end(), f->n.begin(), f->n.end()); }
      }
      out.d(h); out.d(states);
   } else if (op == "evolve") {
      size_t steps = in.i(); o.f->n = in.d(); o.p->n = in.d();
      double worst = 0;
      for (size_t s = 0; s < steps; s++) { o.e->time_step(g, *o.f, *o.p); o.f->shift(); o.p->shift(); }
      for (double x : o.f->n) worst = std::fabs(x) > worst ? std::fabs(x) : worst;
      out.d(o.f->n); out.d(o.p->n);
   } else std::exit(96);
}
