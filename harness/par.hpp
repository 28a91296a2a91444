// Several threads call const operations of one shared object at the same time.
#ifndef VERIF_PAR_HPP
#define VERIF_PAR_HPP
#include "wire.hpp"
#include <omp.h>
struct Job { std::string op; std::vector<double> v, ref; };
// args: threads, repetitions, number of jobs, then op and data of each job.
// The concurrent calls come first, so that nothing has been prepared by earlier calls.
template <class F> void concurrent(In &in, Out &out, F calc)
{
   const int T = in.i(); const size_t reps = in.i(), k = in.i();
   std::vector<Job> jobs(k);
   for (auto &j : jobs) { j.op = in.s(); j.v = in.d(); }
   std::vector<std::vector<std::vector<double>>> got(T, std::vector<std::vector<double>>(reps*k));
   const int levels = omp_get_max_active_levels();
   omp_set_max_active_levels(levels + 1);
#pragma omp parallel for num_threads(T) schedule(static,1)
   for (int t = 0; t < T; t++)
      for (size_t r = 0; r < reps; r++)
         for (size_t q = 0; q < k; q++) {
            const size_t j = (q + t*(r + 1)) % k;
            got[t][r*k + j] = calc(jobs[j].op, jobs[j].v);
         }
   omp_set_max_active_levels(levels);
   long long calls = 0, bad = 0; std::string first;
   for (auto &j : jobs) j.ref = calc(j.op, j.v);
   for (int t = 0; t < T; t++) for (size_t r = 0; r < reps; r++) for (size_t j = 0; j < k; j++) {
      calls++;
      if (!same_bits(got[t][r*k + j], jobs[j].ref)) { bad++; if (first.empty()) first = jobs[j].op; }
   }
   out.i(calls); out.i(bad); out.s(first);
}
#endif
