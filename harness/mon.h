// Monitoring runtime shared by all harnesses.
//  - deterministic per-case random streams (seed, class, index) so that every
//    case can be replayed alone,
//  - counters of what was observed, distinct non-trivial cases, samples,
//  - violation records keyed by <class>:<rule>,
//  - death callbacks so that a sanitizer abort names the case it happened in.
#pragma once
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <nlohmann/json.hpp>
#include <set>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

#include "PROPOSAL/Logging.h"

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace mon {

inline uint64_t mix(uint64_t z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline uint64_t hstr(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
    double u() { return ((next() >> 11) + 0.5) * (1.0 / 9007199254740992.0); } // (0,1)
    double range(double a, double b) { return a + (b - a) * u(); }
    double logr(double a, double b) { return std::exp(range(std::log(a), std::log(b))); }
    long i(long a, long b) { return a + (long)(next() % (uint64_t)(b - a + 1)); }
    bool p(double q) { return u() < q; }
    double sgn() { return (next() & 1) ? 1. : -1.; }
    template <class V> auto& pick(V& v) { return v[next() % v.size()]; }
    double gauss() { return std::sqrt(-2 * std::log(u())) * std::cos(2 * M_PI * u()); }
};

inline std::string sfmt(const char* f, ...)
{
    char b[4096];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}
inline std::string g17(double x) { return sfmt("%.17g", x); }

struct Mon;
inline Mon*& cur() { static Mon* m = nullptr; return m; }

struct Skip {};

struct Mon {
    std::string prop, tier = "quick", out, only_class, scratch = "/tmp";
    long only_index = -1;
    uint64_t seed = 1;
    int shard = 0, nshard = 1;
    double scale = 1;
    // state of the running case
    std::string cls, desc;
    long index = -1;
    volatile uint64_t ticks = 0;
    uint64_t lastcase = 0;
    // results
    uint64_t evaluations = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, std::vector<double>> extremes; // name -> {min,max}
    nlohmann::json violations = nlohmann::json::array();
    std::map<std::string, int> perkey;
    std::map<std::string, std::vector<std::string>> samples;
    std::map<std::string, nlohmann::json> merge; // accumulators merged by the driver

    bool thorough() const { return tier == "thorough"; }
    void note(const std::string& n, uint64_t k = 1) { counters[n] += k; }
    void worst(const std::string& n, double v)
    {
        if (std::isnan(v)) return;
        auto& e = extremes[n];
        if (e.empty()) e = { v, v };
        e[0] = std::min(e[0], v);
        e[1] = std::max(e[1], v);
    }
    void nontrivial() { distinct.insert(mix(hstr(cls) ^ mix((uint64_t)index + 77 * seed)) ); }
    void nontrivial(uint64_t h) { distinct.insert(mix(hstr(cls) ^ h)); }
    void describe(const std::string& d)
    {
        desc = d;
    }
    void sample(const std::string& d)
    {
        auto& v = samples[cls];
        if (v.size() < 2) v.push_back(d);
    }
    void viol(const std::string& rule, const std::string& msg)
    {
        std::string key = cls + ":" + rule;
        int& n = perkey[key];
        ++n;
        static const int keep = getenv("MON_KEEP") ? atoi(getenv("MON_KEEP")) : 3; if (n > keep) return;
        nlohmann::json v;
        v["key"] = key;
        v["class"] = cls;
        v["index"] = index;
        v["seed"] = seed;
        v["msg"] = msg;
        v["case"] = desc;
        violations.push_back(v);
        if (only_index >= 0) std::fprintf(stderr, "VIOL %s: %s | case: %s\n", key.c_str(), msg.c_str(), desc.c_str());
    }
    bool check(bool ok, const std::string& rule, const std::string& msg)
    {
        ++evaluations_checks;
        if (!ok) viol(rule, msg);
        return ok;
    }
    template <class F> bool checkf(bool ok, const std::string& rule, F f)
    {
        ++evaluations_checks;
        if (!ok) viol(rule, f());
        return ok;
    }
    // |a-b| <= rel*max(|a|,|b|)+abs ; NaN never ok
    bool close(double a, double b, double rel, double abs, const std::string& rule, const std::string& what = "")
    {
        ++evaluations_checks;
        double tol = rel * std::max(std::fabs(a), std::fabs(b)) + abs;
        bool ok = (a == b) || (std::fabs(a - b) <= tol);
        if (tol > 0 && !(a == b)) worst("dev/tol " + rule, std::fabs(a - b) / tol);
        if (!ok) viol(rule, what + sfmt(" got %.17g expected %.17g (rel %g abs %g)", a, b, rel, abs));
        return ok;
    }
    uint64_t evaluations_checks = 0;

    double seconds() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - begun).count(); }
    std::chrono::steady_clock::time_point begun = std::chrono::steady_clock::now();
    // f(Rng&): one case.  n cases in the quick tier, nt in the thorough tier.
    template <class F> void cases(const std::string& name, long n, long nt, F f)
    {
        long N = thorough() ? nt : n;
        N = (long)std::ceil(N * scale);
        if (!only_class.empty() && only_class != name) return;
        for (long k = 0; k < N; ++k) {
            if (only_index >= 0) { if (k != only_index) continue; }
            else if (k % nshard != shard) continue;
            // a workload that became many times slower ends with what was seen so far
            if (!thorough() && only_index < 0 && seconds() > 420) { note("cases given up for lack of time"); continue; }
            cls = name; index = k; desc.clear();
            lastcase++;
            ticks = 0;
            ++evaluations;
            Rng r(mix(mix(seed * 1000003ull) ^ hstr(prop + "/" + name) ^ mix((uint64_t)k)));
            try {
                f(r);
            } catch (const Skip&) {
                note("skipped " + name);
            } catch (const std::exception& e) {
                viol("unexpected-exception", std::string("exception: ") + e.what());
            } catch (...) {
                viol("unexpected-exception", "non-standard exception");
            }
        }
    }
    // A case that is run once (in shard 0).
    template <class F> void once(const std::string& name, F f)
    {
        if (!only_class.empty() && only_class != name) return;
        if (only_class.empty() && (int)(hstr(name) % nshard) != shard) return;
        long save = only_index;
        cls = name; index = 0; desc.clear(); ticks = 0; lastcase++; ++evaluations;
        Rng r(mix(mix(seed * 1000003ull) ^ hstr(prop + "/" + name)));
        try { f(r); }
        catch (const Skip&) { note("skipped " + name); }
        catch (const std::exception& e) { viol("unexpected-exception", std::string("exception: ") + e.what()); }
        only_index = save;
    }
    void dump()
    {
        nlohmann::json j;
        j["prop"] = prop; j["shard"] = shard; j["evaluations"] = evaluations;
        j["checks"] = evaluations_checks;
        j["counters"] = counters;
        j["extremes"] = extremes;
        j["violations"] = violations;
        j["perkey"] = perkey;
        j["samples"] = samples;
        j["merge"] = merge;
        j["complete"] = true;
        std::ofstream o(out);
        o << j.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
        o.close();
        std::ofstream b(out + ".bin", std::ios::binary);
        for (auto h : distinct) b.write((const char*)&h, 8);
    }
};

inline void death()
{
    if (auto* m = cur()) {
        char b[6000];
        int n = snprintf(b, sizeof b, "\nMON-CASE\t%s\t%ld\t%s\n", m->cls.c_str(), m->index, m->desc.substr(0, 3000).c_str());
        (void)!write(2, b, n);
    }
}
inline void onprof(int)
{
    auto* m = cur();
    if (!m) return;
    m->ticks = m->ticks + 1;
    if (m->ticks >= 18) { // 180 s of CPU time inside one case
        (void)!write(2, "\nMON-HANG", 9);
        death();
        _exit(97);
    }
}
inline void onterm()
{
    (void)!write(2, "\nMON-TERMINATE", 14);
    death();
    _exit(98);
}

typedef void (*PropFn)(Mon&);
inline std::map<std::string, PropFn>& registry() { static std::map<std::string, PropFn> r; return r; }
struct Reg { Reg(const char* n, PropFn f) { registry()[n] = f; } };
#define PROP(id) \
    static void prop_##id(mon::Mon&); \
    static mon::Reg reg_##id(#id, prop_##id); \
    static void prop_##id(mon::Mon& m)

inline int run(int argc, char** argv)
{
    Mon m;
    if (argc < 2) { for (auto& p : registry()) std::puts(p.first.c_str()); return 2; }
    m.prop = argv[1];
    for (int i = 2; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed") m.seed = std::stoull(v);
        else if (a == "--tier") m.tier = v;
        else if (a == "--out") m.out = v;
        else if (a == "--shard") m.shard = std::stoi(v);
        else if (a == "--nshard") m.nshard = std::stoi(v);
        else if (a == "--class") m.only_class = v;
        else if (a == "--index") m.only_index = std::stol(v);
        else if (a == "--scale") m.scale = std::stod(v);
        else if (a == "--scratch") m.scratch = v;
        else { std::fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; }
    }
    auto it = registry().find(m.prop);
    if (it == registry().end()) { std::fprintf(stderr, "unknown property\n"); return 2; }
    cur() = &m;
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
    std::set_terminate(onterm);
    signal(SIGPROF, onprof);
    itimerval tv { { 10, 0 }, { 10, 0 } };
    setitimer(ITIMER_PROF, &tv, nullptr);
    PROPOSAL::Logging::SetGlobalLoglevel(spdlog::level::off);
    it->second(m);
    itimerval z { { 0, 0 }, { 0, 0 } };
    setitimer(ITIMER_PROF, &z, nullptr);
    if (!m.out.empty()) m.dump();
    else std::printf("eval %lu checks %lu viol %zu distinct %zu\n", m.evaluations, m.evaluations_checks, m.violations.size(), m.distinct.size());
    return 0;
}
} // namespace mon
