#include "wire.hpp"
#include "par.hpp"
#include "grid.hpp"
static std::map<long long, std::unique_ptr<Grid>> gs;
typedef std::vector<double> VD;
static void push(VD &t, const VD &a) { t.insert(t.end(), a.begin(), a.end()); }
static VD calc(const Grid &g, const std::string &op, VD &v)
{
   const size_t N = g.nx()*g.nlat()*g.nphi();
   const bool spec = op == "power" || op == "n_l";
   VD o(spec ? g.nx()*g.nl() : N, POISON);
   if (op == "dphi") g.set_partial_phi(v, o); else if (op == "lap") g.set_spherical_lap(v, o);
   else if (op == "X") g.set_sphereX(v, o); else if (op == "dR") g.set_partial_R(v, o);
   else if (op == "dr") g.set_partial_r(v, o); else if (op == "drr") g.set_partial2_r(v, o);
   else if (op == "power") g.set_angular_power_spectrum(v, o);
#if USE_CHEB
   else if (op == "n_l") g.set_n_l_coef(v, o);
#endif
   else if (op == "filter") { o = v; g.filter(o); }
   else if (op == "ylm") { o = g.compute_ylm(v[0], v[1]); }
   else std::exit(96);
   return o;
}
void dispatch(const std::string &op, In &in, Out &out)
{
   if (op == "threads") { omp_set_num_threads(in.i()); omp_set_max_active_levels(in.i()); return; }
   long long id = in.i();
   if (op == "new") {
      double cl = in.x(), lo = in.x(), hi = in.x();
      size_t nx = in.i(), nl = in.i(), nm = in.i(), nlat = in.i(), nphi = in.i();
      gs[id].reset(new Grid(cl, lo, hi, nx, nl, nm, nlat, nphi));
      Grid &g = *gs[id];
      out.x(g.cl()); out.x(g.Rmin()); out.x(g.Rmax());
      out.i(g.nx()); out.i(g.nl()); out.i(g.nm()); out.i(g.nlat()); out.i(g.nphi());
      return;
   }
   if (op == "del") { gs.erase(id); return; }
   Grid &g = *gs[id];
   const size_t nx = g.nx(), nlat = g.nlat(), nphi = g.nphi(), nl = g.nl(), N = nx*nlat*nphi;
   if (op == "tables") {
      VD i3, rtp, xyz, rtp1, xyz1, i2, tp, tp1, irt, irp, irl, rl, rl1, nL, nL1, r;
      for (size_t ix = 0; ix < nx; ix++) for (size_t it = 0; it < nlat; it++) for (size_t ip = 0; ip < nphi; ip++) {
         i3.push_back(g.indx_R_th_ph(ix, it, ip)); push(rtp, g.R_th_ph(ix, it, ip)); push(xyz, g.x_y_z(ix, it, ip));
      }
      for (size_t i = 0; i < N; i++) { push(rtp1, g.R_th_ph(i)); push(xyz1, g.x_y_z(i)); }
      for (size_t it = 0; it < nlat; it++) for (size_t ip = 0; ip < nphi; ip++) { i2.push_back(g.indx_th_ph(it, ip)); push(tp, g.th_ph(it, ip)); }
      for (size_t i = 0; i < nlat*nphi; i++) push(tp1, g.th_ph(i));
      for (size_t ix = 0; ix < nx; ix++) {
         for (size_t it = 0; it < nlat; it++) irt.push_back(g.indx_r_th(ix, it));
         for (size_t ip = 0; ip < nphi; ip++) irp.push_back(g.indx_r_ph(ix, ip));
         for (size_t il = 0; il < nl; il++) {
            irl.push_back(g.indx_r_l(ix, il)); push(rl, g.R_l(ix, il));
#if USE_CHEB
            push(nL, g.n_l(ix, il));
#endif
         }
         r.push_back(g.R_to_r(g.R_th_ph(ix, 0, 0)[0]));
      }
      for (size_t i = 0; i < nx*nl; i++) {
         push(rl1, g.R_l(i));
#if USE_CHEB
         push(nL1, g.n_l(i));
#endif
      }
      for (const VD *v : {&i3, &rtp, &xyz, &rtp1, &xyz1, &i2, &tp, &tp1, &irt, &irp, &irl, &rl, &rl1, &nL, &nL1, &r}) out.d(*v);
   } else if (op == "R_to_r") {
      VD v = in.d(), o; for (double x : v) o.push_back(g.R_to_r(x)); out.d(o);
   } else if (op == "ylm") { size_t l = in.i(), m = in.i(); out.d(g.compute_ylm(l, m)); }
   else if (op == "row") {
      std::string m = in.s(); size_t a = in.i(), b = in.i(); VD src = in.d(), dst = in.d();
      if (m == "get_R") g.get_row_R(a, b, src, dst); else if (m == "set_R") g.set_row_R(a, b, src, dst);
      else if (m == "get_th") g.get_row_th(a, b, src, dst); else if (m == "set_th") g.set_row_th(a, b, src, dst);
      else if (m == "get_ph") g.get_row_ph(a, b, src, dst); else if (m == "set_ph") g.set_row_ph(a, b, src, dst);
      else if (m == "get_n") g.get_row_n(a, src, dst); else if (m == "set_n") g.set_row_n(a, src, dst);
      else if (m == "get_R_th") g.get_row_R_th(a, src, dst); else if (m == "set_R_th") g.set_row_R_th(a, src, dst);
      else if (m == "get_R_ph") g.get_row_R_ph(a, src, dst); else if (m == "set_R_ph") g.set_row_R_ph(a, src, dst);
      else if (m == "get_th_ph") g.get_row_th_ph(a, src, dst); else if (m == "set_th_ph") g.set_row_th_ph(a, src, dst);
      else if (m == "set_l") g.set_row_l(a, src, dst); else std::exit(96);
      out.d(dst); out.d(src);
   } else if (op == "res") {
      double dt = in.x(); VD a = in.d(), b = in.d(), p = in.d();
      VD a0 = a, b0 = b, p0 = p;
      double r = g.norm_indep_res(dt, a, b, p);
      out.x(r); out.i(same_bits(a, a0) && same_bits(b, b0) && same_bits(p, p0));
   } else if (op == "par") {
      concurrent(in, out, [&](const std::string &m, const VD &v) { VD c = v; return calc(g, m, c); });
   } else if (op == "tv") {
      VD a = in.d(), a0 = a; double r = g.total_variation(a); out.x(r); out.i(same_bits(a, a0));
   } else {
      VD v = in.d(), v0 = v;
      VD o = calc(g, op, v);
      out.d(o); out.i(same_bits(v, v0));
   }
}
