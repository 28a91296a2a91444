#include "wire.hpp"
#include <omp.h>
#include "field.hpp"
static std::map<long long, std::unique_ptr<Field>> fs;
static void dump(Field &f, Out &out)
{
   out.s(f.name); out.i(f.size); out.d(f.n); out.d(f.l); out.d(f.np1); out.d(f.k);
}
void dispatch(const std::string &op, In &in, Out &out)
{
   if (op == "threads") { omp_set_num_threads(in.i()); }
   else if (op == "new") {
      long long id = in.i(); std::string nm = in.s(); size_t n = in.i(); double v = in.x();
      fs[id].reset(new Field(nm, n, v)); dump(*fs[id], out);
   } else if (op == "del") fs.erase(in.i());
   else if (op == "set") {
      Field &f = *fs[in.i()]; std::string lv = in.s(); std::vector<double> v = in.d();
      std::vector<double> &t = lv == "n" ? f.n : lv == "l" ? f.l : lv == "np1" ? f.np1 : f.k;
      for (size_t i = 0; i < v.size(); i++) t[i] = v[i];   // as the code does: element by element
   } else if (op == "shift") fs[in.i()]->shift();
   else if (op == "get") dump(*fs[in.i()], out);
   else std::exit(96);
}
