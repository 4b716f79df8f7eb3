#include <atomic>
// Replay runtime: runs a harness linked with the real library on the values of a solver model.
// usage: prog ENTRY VALUES [-p NAME=INT]...   exit 0 passed, 10 a check failed, 11 assumption not met, else crash.
#include <cfenv>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <map>
#include <random>
#include <string>
#include <sys/wait.h>
#include <ctime>
#include <unistd.h>
#include <vector>
#include "snn.h"

static std::map<std::string, std::pair<char, double>> values;
static std::map<std::string, long> ivalues;
static std::map<std::string, int> uses;
static std::map<std::string, long> params;
static std::map<std::string, int> counters;
static std::vector<std::string> args;
static unsigned long rngCount = 0;
static int rngFixed = 0;
static unsigned rngK = 0;
static std::map<int, float> draws;
static int checksDone = 0, diffCalls = 0;
static bool randomise = false;
static std::mt19937_64* random_ = nullptr;     // only for filling values the model leaves open
static std::string perturbName;
static double perturbBy = 0;
static int stopAtDiff = -1, perturbFd = -1;

static uint64_t rnd()
{
    static uint64_t s = 88172645463325252ull ^ (params.count("__seed") ? (uint64_t)params["__seed"] * 0x9E3779B97F4A7C15ull : 0);
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    return s;
}
static double unit() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }

static std::string uniq(const char* n)
{
    int k = uses[n]++;
    return k ? std::string(n) + "#" + std::to_string(k) : n;
}
static double floatValue(const std::string& n, double lo, double hi)
{
    auto it = values.find(n);
    if (randomise && lo == -2 && hi == 2)
        switch (params["__seed"] % 6)      // other sizes, and values near those of the model
        {
        case 1: lo = -8; hi = 8; break;
        case 2: lo = -4; hi = 4; break;
        case 3: lo = -0.5; hi = 0.5; break;
        case 4: if (it != values.end()) { lo = it->second.second * 0.25; hi = it->second.second * 1.25; } break;
        }
    double v = it != values.end() && !randomise ? it->second.second : randomise ? lo + (hi - lo) * unit() : (lo <= 0 && hi >= 0 ? 0 : lo);
    if (n == perturbName) v += perturbBy;
    return v;
}
static long intValue(const std::string& n, long lo, long hi)
{
    auto it = ivalues.find(n);
    if (it != ivalues.end()) return it->second;
    if (randomise && hi >= lo) return lo + (long)(rnd() % (uint64_t)(hi - lo + 1));
    return lo;
}
static std::vector<long> clockReadings;
static std::atomic<long> clockReads{0}, clockOffset{0};
static long readClock()
{
    if (!params.count("clock"))
        return 1000000000l * 1000 + 1000 * clockReads++ + clockOffset;      // as the encoding
    long low = clockReadings.empty() ? 1000000000l : clockReadings.back();
    clockReadings.push_back(intValue(uniq("clock"), low, low + 3000000000l));
    return clockReadings.back();
}
namespace std::chrono
{
    system_clock::time_point system_clock::now() noexcept { return time_point(nanoseconds(readClock())); }
    steady_clock::time_point steady_clock::now() noexcept { return time_point(nanoseconds(readClock())); }
}

extern "C"
{
    void snn_pass_time(long ns) { clockOffset += ns; }
    long snn_clock(int i) { return clockReadings.at(i); }
    int snn_symbolic() { return 0; }
    float snn_float(const char* n) { return (float)floatValue(uniq(n), -2, 2); }
    double snn_double(const char* n) { return floatValue(uniq(n), -2, 2); }
    int snn_int(const char* n, int lo, int hi) { return (int)intValue(uniq(n), lo, hi); }
    bool snn_bool(const char* n) { return intValue(uniq(n), 0, 1) != 0; }
    int snn_choose(const char* n, int lo, int hi) { return (int)intValue(uniq(n), lo, hi); }
    int snn_concrete(int v) { return v; }
    int snn_param(const char* n, int d) { return params.count(n) ? (int)params[n] : d; }
    void snn_assume(bool c) { if (!c) { printf("ASSUME\n"); fflush(stdout); _exit(11); } }
    void snn_check(bool c, const char* m)
    {
        checksDone++;
        if (!c) { printf("FAIL %s\n", m); fflush(stdout); if (stopAtDiff < 0) _exit(10); }
    }
    void snn_finding(bool c, const char* m) { checksDone++; if (!c && stopAtDiff < 0) printf("FINDING %s\n", m); }
    bool snn_near(float a, float b) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs((double)a - b) <= 2e-4 + 2e-3 * std::max(std::fabs((double)a), std::fabs((double)b)); }
    void snn_check_eq(float a, float b, const char* m)
    {
        checksDone++;
        bool ok = snn_near(a, b);
        if (!ok) { printf("FAIL %s: %.9g != %.9g\n", m, a, b); fflush(stdout); if (stopAtDiff < 0) _exit(10); }
    }
    void snn_reach(const char*) {}
    void snn_stop(const char*) { fflush(stdout); _exit(0); }
    void snn_observe_f(const char* n, float v) { printf("OBS %s %.9g\n", n, v); }
    void snn_observe_i(const char* n, int v) { printf("OBS %s %d\n", n, v); }
    // derivative by central differences: the harness is executed again, up to this call, with the input moved both ways
    float snn_diff(float y, float x, const char* name)
    {
        int k = diffCalls++;
        if (stopAtDiff >= 0)
        {
            if (k == stopAtDiff) { double d = y; if (write(perturbFd, &d, sizeof d) < 0) _exit(12); _exit(0); }
            return 0;
        }
        double h = 0.01 * std::max(1.0, std::fabs((double)x)), r[2] = {0, 0};
        for (int s = 0; s < 2; s++)
        {
            int fd[2];
            if (pipe(fd)) _exit(12);
            pid_t p = fork();
            if (p == 0)
            {
                std::vector<char*> av;
                std::string e1 = std::string("--perturb=") + name, e2 = "--by=" + std::to_string(s ? h : -h), e3 = "--diff=" + std::to_string(k), e4 = "--fd=" + std::to_string(fd[1]);
                for (auto& a : args) av.push_back(const_cast<char*>(a.c_str()));
                for (auto* e : {&e1, &e2, &e3, &e4}) av.push_back(const_cast<char*>(e->c_str()));
                av.push_back(nullptr);
                freopen("/dev/null", "w", stdout);
                execv("/proc/self/exe", av.data());
                _exit(12);
            }
            close(fd[1]);
            if (read(fd[0], &r[s], sizeof(double)) != sizeof(double)) { printf("ASSUME\n"); fflush(stdout); _exit(11); }
            close(fd[0]);
            int st; waitpid(p, &st, 0);
        }
        return (float)((r[1] - r[0]) / (2 * h));
    }
    bool snn_depends(float, float) { return false; }
    void snn_shared(const void*, size_t) {}
    void snn_yield() {}
    int snn_threads_running() { return 0; }
    int snn_counter(const char* n, int d) { return counters[n] += d; }
    void snn_print_f(const char* n, float v) { printf("%s = %.9g\n", n, v); }
    void snn_print_i(const char* n, int v) { printf("%s = %d\n", n, v); }
    void snn_rng_mode(int m) { rngFixed = m; }
    int snn_rng_draws() { return (int)rngCount; }
    float snn_rng_draw(int i) { return draws.at(i); }
    float snn_rng_canonical()
    {
        if (rngFixed == 1) return ((rngK++ * 7919u + 13u) % 1024u) / 1024.0f;
        if (rngFixed) rngK++;
        float v = (float)floatValue("rng" + std::to_string(rngCount++), 0, 1);
        v = v >= 1 ? 0.99999994f : v < 0 ? 0 : v;
        draws[rngCount - 1] = v;
        return v;
    }
    uint64_t snn_rng_int(uint64_t lo, uint64_t hi)
    {
        if (rngFixed) { uint64_t r = rngK++ * 7919u + 13u; return hi - lo + 1 ? lo + r % (hi - lo + 1) : r; }
        std::string n = "rngi" + std::to_string(rngCount++);
        auto it = ivalues.find(n);
        if (it != ivalues.end()) return (uint64_t)it->second;
        return randomise && hi - lo + 1 ? lo + rnd() % (hi - lo + 1) : lo;
    }
}

int main(int argc, char** argv)
{
    for (int i = 0; i < argc; i++)
    {
        std::string a = argv[i];
        if (a.rfind("--perturb=", 0) == 0) perturbName = a.substr(10);
        else if (a.rfind("--by=", 0) == 0) perturbBy = atof(a.c_str() + 5);
        else if (a.rfind("--diff=", 0) == 0) stopAtDiff = atoi(a.c_str() + 7);
        else if (a.rfind("--fd=", 0) == 0) perturbFd = atoi(a.c_str() + 5);
        else args.push_back(a);
    }
    for (size_t i = 3; i + 1 < args.size(); i++)
        if (args[i] == "-p") { auto e = args[i + 1].find('='); params[args[i + 1].substr(0, e)] = atol(args[i + 1].c_str() + e + 1); i++; }
    if (params.count("__seed")) randomise = true;
    if (FILE* f = fopen(args[2].c_str(), "r"))
    {
        char kind; char val[400], name[200];
        while (fscanf(f, " %c %399s %199[^\n]", &kind, val, name) == 3)
        {
            if (kind == 'f') values[name] = {kind, strtod(val, nullptr)};
            else ivalues[name] = strtol(val, nullptr, 10);
        }
        fclose(f);
    }
    auto entry = (void (*)())dlsym(RTLD_DEFAULT, args[1].c_str());
    if (!entry) { fprintf(stderr, "no entry %s\n", args[1].c_str()); return 12; }
    alarm(params.count("__alarm") ? params["__alarm"] : 20);
    entry();
    printf("CHECKS %d\n", checksDone);
    fflush(stdout);
    _exit(0);
}

#undef fpclassify
extern "C" int snn_fpclass_f(float x) noexcept { return __builtin_fpclassify(FP_NAN, FP_INFINITE, FP_NORMAL, FP_SUBNORMAL, FP_ZERO, x); }
