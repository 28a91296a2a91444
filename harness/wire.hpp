// Workload in / trace out.  A workload is a list of operations; the driver
// executes them against the real code and records, per operation, what came out.
#ifndef VERIF_WIRE_HPP
#define VERIF_WIRE_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <complex>
#include <malloc.h>

struct In {
   FILE *f;
   int tag() { return std::fgetc(f); }
   void raw(void *p, size_t n) { if (n && std::fread(p, 1, n, f) != n) { std::fprintf(stderr, "WIRE: short read\n"); std::exit(97); } }
   void want(int t) { int g = tag(); if (g != t) { std::fprintf(stderr, "WIRE: wanted %c got %c\n", t, g); std::exit(97); } }
   long long i() { want('i'); int64_t v; raw(&v, 8); return v; }
   std::string s() { want('s'); uint32_t n; raw(&n, 4); std::string v(n, 0); raw(&v[0], n); return v; }
   std::vector<double> d() { want('d'); uint64_t n; raw(&n, 8); std::vector<double> v(n); raw(v.data(), 8*n); return v; }
   double x() { std::vector<double> v = d(); if (v.size() != 1) { std::fprintf(stderr, "WIRE: scalar\n"); std::exit(97); } return v[0]; }
   bool more() { int c = std::fgetc(f); if (c == EOF) return false; std::ungetc(c, f); return true; }
};
struct Out {
   FILE *f;
   void raw(const void *p, size_t n) { if (n) std::fwrite(p, 1, n, f); }
   void i(long long a) { int64_t v = a; std::fputc('i', f); raw(&v, 8); }
   void s(const std::string &a) { uint32_t n = a.size(); std::fputc('s', f); raw(&n, 4); raw(a.data(), n); }
   void d(const std::vector<double> &a) { uint64_t n = a.size(); std::fputc('d', f); raw(&n, 8); raw(a.data(), 8*n); }
   void x(double a) { d(std::vector<double>(1, a)); }
   void z(const std::vector<std::complex<double>> &a) {
      std::vector<double> v(2*a.size());
      for (size_t k = 0; k < a.size(); k++) { v[2*k] = a[k].real(); v[2*k+1] = a[k].imag(); }
      d(v);
   }
};
static inline std::vector<std::complex<double>> to_c(const std::vector<double> &v)
{
   std::vector<std::complex<double>> a(v.size()/2);
   for (size_t k = 0; k < a.size(); k++) a[k] = std::complex<double>(v[2*k], v[2*k+1]);
   return a;
}
static inline bool same_bits(const std::vector<double> &a, const std::vector<double> &b)
{
   return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), 8*a.size()) == 0);
}
static const double POISON = std::numeric_limits<double>::quiet_NaN();

void dispatch(const std::string &op, In &in, Out &out);   // one per driver

#ifndef WIRE_NO_MAIN
int main(int argc, char **argv)
{
   if (argc != 3) return 98;
   In in{std::fopen(argv[1], "rb")};
   Out out{std::fopen(argv[2], "wb")};
   if (!in.f || !out.f) return 98;
   while (in.more()) {
      std::string op = in.s();
      std::fputc('B', out.f); out.s(op); std::fflush(out.f);
      if (op == "heap") out.i((long long) mallinfo2().uordblks + (long long) mallinfo2().hblkhd); else dispatch(op, in, out);
      std::fputc('E', out.f); std::fflush(out.f);
   }
   std::fputc('Z', out.f);
   std::fclose(out.f); std::fclose(in.f);
   return 0;
}
#endif
#endif
