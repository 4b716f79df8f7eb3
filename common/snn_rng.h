// Force-included before every translation unit, in the encoding and in the replay build: pseudo-random draws
// become inputs. The generator itself keeps its interface; what the library obtains from it is arbitrary.
#pragma once
#include <cstdint>
#include <cstddef>
#include <limits>
#include <random>
extern "C" float snn_rng_canonical();
extern "C" uint64_t snn_rng_int(uint64_t lo, uint64_t hi);
namespace std
{
    template <> inline void mt19937::seed(mt19937::result_type) {}
    template <> inline mt19937::result_type mt19937::operator()() { return snn_rng_int(0, 4294967295UL); }
    template <> inline void mt19937::discard(unsigned long long) {}
    template <> inline double generate_canonical<double, 53, mt19937>(mt19937&) { return snn_rng_canonical(); }
    template <> inline float generate_canonical<float, 24, mt19937>(mt19937&) { return snn_rng_canonical(); }
    template <> inline double generate_canonical<double, size_t(-1), mt19937>(mt19937&) { return snn_rng_canonical(); }
#define SNN_UID(T) \
    template <> template <> inline T uniform_int_distribution<T>::operator()<mt19937>(mt19937&, const param_type& p) { return (T)snn_rng_int((uint64_t)p.a(), (uint64_t)p.b()); }
    SNN_UID(int) SNN_UID(unsigned) SNN_UID(long) SNN_UID(unsigned long)
#undef SNN_UID
}
