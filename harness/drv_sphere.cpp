#include "wire.hpp"
#include "par.hpp"
#include "sphere.hpp"
static std::map<long long, std::unique_ptr<Sphere>> ss;
static std::map<long long, size_t> nls;
typedef std::vector<std::complex<double>> VC;
typedef std::vector<double> VD;
static VD flat(const VC &a)
{
   VD v(2*a.size());
   for (size_t k = 0; k < a.size(); k++) { v[2*k] = a[k].real(); v[2*k+1] = a[k].imag(); }
   return v;
}
// one operation: its result, and its input afterwards
typedef std::pair<VD, VD> Two;
static Two calc(const Sphere &s, size_t nl, const std::string &op, const VD &v)
{
   const std::complex<double> CP(POISON, POISON);
   const size_t n2 = (nl + 1)*(nl + 1);
   if (op == "to_Sph") { VC c = to_c(v); VD o(s.nSph(), POISON); s.to_Sph(c, o); return Two(o, flat(c)); }
   if (op == "to_Ylm") { VD c = v; VC o(s.nYlm(), CP); s.to_Ylm(c, o); return Two(flat(o), c); }
   if (op == "to_Sph_c") { VC c = to_c(v); VC o(s.nSph(), CP); s.to_Sph(c, o); return Two(flat(o), flat(c)); }
   if (op == "to_Ylm_c") { VC c = to_c(v); VC o(n2, CP); s.to_Ylm(c, o); return Two(flat(o), flat(c)); }
   if (op == "lap") { VD o(v.size(), POISON), c = v; s.laplace_beltrami(c, o); return Two(o, c); }
   if (op == "dphi") { VD o(v.size(), POISON), c = v; s.partial_phi(c, o); return Two(o, c); }
   if (op == "X") { VD o(v.size(), POISON), c = v; s.sphereX(c, o); return Two(o, c); }
   if (op == "raise") { VC o(v.size(), CP); VD c = v; s.raise(c, o); return Two(flat(o), c); }
   if (op == "lower") { VC o(v.size(), CP); VD c = v; s.lower(c, o); return Two(flat(o), c); }
   if (op == "filter") { VD c = v; s.filter(c); return Two(c, v); }
   if (op == "power") { VD o(nl, POISON), c = v; s.power_spectrum(c, o); return Two(o, c); }
   std::exit(96);
}
void dispatch(const std::string &op, In &in, Out &out)
{
   if (op == "threads") { omp_set_num_threads(in.i()); omp_set_max_active_levels(in.i()); return; }
   if (op == "new") {
      long long id = in.i(); size_t nl = in.i(), nm = in.i(), nlat = in.i(), nphi = in.i();
      ss[id].reset(new Sphere(nl, nm, nlat, nphi)); nls[id] = nl;
      Sphere &s = *ss[id];
      out.i(s.nlat()); out.i(s.nphi()); out.i(s.nSph()); out.i(s.nYlm());
      VD th(nlat), ph(nphi), ix(nlat*nphi);
      for (size_t i = 0; i < nlat; i++) th[i] = s.theta(i);
      for (size_t i = 0; i < nphi; i++) ph[i] = s.phi(i);
      for (size_t i = 0; i < nlat; i++) for (size_t j = 0; j < nphi; j++) ix[i*nphi + j] = s.indx(i, j);
      out.d(th); out.d(ph); out.d(ix);
   } else if (op == "del") { ss.erase(in.i()); }
   else if (op == "ylm") { Sphere &s = *ss[in.i()]; size_t l = in.i(), m = in.i(); out.d(s.compute_ylm(l, m)); }
   else if (op == "par") {
      long long id = in.i(); Sphere &s = *ss[id]; const size_t nl = nls[id];
      concurrent(in, out, [&](const std::string &m, const VD &v) { Two r = calc(s, nl, m, v); return r.first; });
   } else {
      long long id = in.i();
      VD v = in.d();
      Two r = calc(*ss[id], nls[id], op, v);
      out.d(r.first); out.d(r.second);
   }
}
