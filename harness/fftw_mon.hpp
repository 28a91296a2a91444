#ifndef FFTW_MON_HPP
#define FFTW_MON_HPP
#include <string>
#include <vector>
struct FftwStats { long long planned, executed, destroyed, cleanups; std::vector<std::string> bad; };
FftwStats fftw_mon_stats();
#endif
