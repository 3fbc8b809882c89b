// Core of the property harness: choice sequences, case context, property registry.
// A property is a pure function of a choice sequence (a vector of 32-bit numbers); rapidcheck or libFuzzer
// supplies the sequence, replay files store it. When a sequence runs out, every further choice is 0,
// which every generator maps to its simplest value.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <iomanip>
#include <stdexcept>

struct Src {
    const uint32_t* d; size_t n; size_t pos = 0;
    Src(const uint32_t* d_, size_t n_) : d(d_), n(n_) {}
    uint32_t raw() { uint32_t v = pos < n ? d[pos] : 0u; ++pos; return v; }
    // inclusive range; monotone in the raw value so that shrinking moves towards lo
    int range(int lo, int hi) {
        if (hi <= lo) { raw(); return lo; }
        uint64_t w = (uint64_t)((int64_t)hi - lo) + 1;
        return (int)(lo + (int64_t)(((uint64_t)raw() * w) >> 32));
    }
    bool chance(int percent) { return range(0, 99) >= 100 - percent; } // 0 -> false
    double real01() { return raw() / 4294967296.0; }
    double real(double lo, double hi) { return lo + (hi - lo) * real01(); }
    // multiple of 1/den in [lo,hi]
    double dyadic(int lo, int hi, int den) { return range(lo * den, hi * den) / (double)den; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + range(0, (int)l.size() - 1)); }
    template <class T> const T& pick(const std::vector<T>& l) { return l[range(0, (int)l.size() - 1)]; }
    // index by weights; index 0 is the simplest
    int weighted(std::initializer_list<int> w) {
        int tot = 0; for (int x : w) tot += x;
        int r = range(0, tot - 1), i = 0;
        for (int x : w) { if (r < x) return i; r -= x; ++i; }
        return 0;
    }
};

struct Fail { std::string msg; };

struct Ctx {
    Src s;
    bool nontrivial = false;
    std::set<std::string> labels;
    std::ostringstream desc;            // human readable description of the case
    explicit Ctx(Src s_) : s(s_) { desc << std::setprecision(17); }
    void label(const std::string& l) { labels.insert(l); }
};

[[noreturn]] inline void failWith(const std::string& m) { throw Fail{m}; }
#define CHECK(cond, msg) do { if (!(cond)) { std::ostringstream o_; o_ << std::setprecision(17) << msg; failWith(o_.str()); } } while (0)

typedef void (*PropFn)(Ctx&);
struct PropDef { const char* id; PropFn fn; int maxlen; };
std::vector<PropDef>& registry();
struct Reg { Reg(const char* id, PropFn f, int maxlen) { registry().push_back({id, f, maxlen}); } };
#define PROPERTY(id, maxlen) static void prop_##id(Ctx& c); static Reg reg_##id(#id, prop_##id, maxlen); static void prop_##id(Ctx& c)

// Listed known findings: a fixed input that is known to fail; returns when it holds, throws Fail when it (still) fails.
struct KnownDef { const char* id; void (*fn)(); };
std::vector<KnownDef>& knowns();
struct KReg { KReg(const char* id, void (*f)()) { knowns().push_back({id, f}); } };
#define KNOWN(id) static void known_##id(); static KReg kreg_##id(#id, known_##id); static void known_##id()

// Runs one case. Returns "" when it held, else the failure message. Resets the library's global configuration.
std::string runCase(const PropDef& p, const uint32_t* d, size_t n, Ctx** keep = nullptr);

std::string homeDir();               // scratch HOME of this process, ends with '/'
// the configuration as the library set it up, before anything in this process changed it
struct StartConfig { int grade; double tol; int scale, prec; };
const StartConfig& startConfig();
std::string slurp(const std::string& path);
void spit(const std::string& path, const std::string& text);
