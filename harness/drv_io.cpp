#include "wire.hpp"
#include <omp.h>
#include <unistd.h>
#include <fcntl.h>
#include "grid.hpp"
#include "io.hpp"
typedef std::vector<double> VD;
static std::map<long long, std::unique_ptr<Grid>> gs;
// what an operation prints
struct Capture {
   int keep; std::string path;
   Capture() {
      std::cout.flush(); std::fflush(stdout);
      path = "capture." + std::to_string(getpid());
      keep = dup(1);
      int fd = open(path.c_str(), O_RDWR|O_CREAT|O_TRUNC, 0600);
      if (fd < 0 || keep < 0) std::exit(97);
      dup2(fd, 1); close(fd);
   }
   std::string end() {
      std::cout.flush(); std::fflush(stdout);
      dup2(keep, 1); close(keep);
      std::string s; char b[4096]; size_t k;
      FILE *f = std::fopen(path.c_str(), "rb");
      while ((k = std::fread(b, 1, sizeof b, f)) > 0) s.append(b, k);
      std::fclose(f); unlink(path.c_str());
      return s;
   }
};
void dispatch(const std::string &op, In &in, Out &out)
{
   if (op == "threads") { omp_set_num_threads(in.i()); omp_set_max_active_levels(in.i()); return; }
   if (op == "write") {
      std::string name = in.s(); size_t itm = in.i(); VD v = in.d(), v0 = v;
      Capture c; Csv::write(name, itm, v); out.s(c.end()); out.i(same_bits(v, v0));
      return;
   }
   long long id = in.i();
   if (op == "new") {
      double cl = in.x(), lo = in.x(), hi = in.x();
      size_t nx = in.i(), nl = in.i(), nm = in.i(), nlat = in.i(), nphi = in.i();
      gs[id].reset(new Grid(cl, lo, hi, nx, nl, nm, nlat, nphi));
      return;
   }
   Grid &g = *gs[id];
   if (op == "xyz") {
      std::string name = in.s(); bool save = in.i(); int itm = in.i(); double a = in.x(), b = in.x(), r0 = in.x(), r1 = in.x(); VD v = in.d(), v0 = v;
      Capture c; Csv::write_x_y_z(g, name, save, itm, a, b, r0, r1, v); out.s(c.end()); out.i(same_bits(v, v0));
   } else {
      std::string name = in.s(); bool save = in.i(); int itm = in.i(); VD v = in.d(), v0 = v;
      VD p(g.nx()*g.nl(), POISON);
#if USE_CHEB
      if (op == "npsl") { g.set_n_l_coef(v, p); } else
#endif
      g.set_angular_power_spectrum(v, p);
      Capture c;
#if USE_CHEB
      if (op == "npsl") Csv::write_n_psl(g, name, save, itm, v); else
#endif
      Csv::write_R_psl(g, name, save, itm, v);
      out.s(c.end()); out.i(same_bits(v, v0)); out.d(p);
   }
}
