#include "wire.hpp"
#include "params.hpp"
#include <cstdio>
#include <cstdlib>
void dispatch(const std::string &op, In &in, Out &out)
{
   std::string path;
   if (op == "put") {             /* writes the file itself: the same path may hold other values every time */
      path = in.s();
      const std::string text = in.s();
      FILE *f = std::fopen(path.c_str(), "wb");
      if (!f || std::fwrite(text.data(), 1, text.size(), f) != text.size() || std::fclose(f)) std::exit(95);
   }
   else if (op == "load") path = in.s();
   else std::exit(96);
   Params p(path);
   out.i(p.nt()); out.i(p.nx()); out.i(p.nl()); out.i(p.nm()); out.i(p.nlat()); out.i(p.nphi()); out.i(p.t_step_save());
   out.x(p.dt()); out.x(p.cl()); out.x(p.Rmax()); out.x(p.Rmin()); out.x(p.bh_mass()); out.x(p.bh_spin());
   out.x(p.km1()); out.x(p.k0()); out.x(p.k1()); out.x(p.k2()); out.x(p.V2()); out.x(p.V3()); out.x(p.V4());
   out.s(p.id()); out.s(p.initial_data_direction());
   out.x(p.amp()); out.x(p.rl()); out.x(p.ru()); out.i(p.l_ang()); out.i(p.m_ang());
}
