// Interface between a harness and whatever runs it: the symbolic executor (engine/externs.inc), or the replay
// runtime (rt/native.cpp), which feeds the solver's values to the same harness linked with the real library.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C"
{
    int snn_symbolic();
    float snn_float(const char* name);
    double snn_double(const char* name);
    int snn_int(const char* name, int lo, int hi);
    bool snn_bool(const char* name);
    int snn_choose(const char* name, int lo, int hi);
    int snn_concrete(int v);
    int snn_param(const char* name, int def);
    void snn_assume(bool);
    void snn_check(bool, const char* msg);
    void snn_check_eq(float a, float b, const char* msg);
    void snn_finding(bool, const char* msg);   // as snn_check, but the path goes on as it is
    bool snn_near(float a, float b);      // equality, up to rounding in a native run
    void snn_reach(const char* tag);
    void snn_stop(const char* reason);
    void snn_observe_f(const char* name, float v);
    void snn_observe_i(const char* name, int v);
    float snn_diff(float y, float x, const char* nameOfX);
    bool snn_depends(float y, float x);
    void snn_shared(const void* p, size_t n);
    long snn_clock(int i);          // the i-th reading of the clock, in nanoseconds (parameter clock)
    void snn_pass_time(long ns);    // without parameter clock: the clock goes on
    void snn_yield();
    int snn_threads_running();
    int snn_counter(const char* name, int delta);
    void snn_print_f(const char* name, float v);
    void snn_print_i(const char* name, int v);
    void snn_rng_mode(int fixed);
    float snn_rng_canonical();
    int snn_rng_draws();            // arbitrary draws made so far
    float snn_rng_draw(int i);      // one of them
    uint64_t snn_rng_int(uint64_t lo, uint64_t hi);
}
