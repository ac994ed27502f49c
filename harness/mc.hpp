// mc.hpp - a small stateless explorer ("choice tree" model checker) for real code.
//
// A scenario is a function that builds fresh objects, asks choose(n) for every
// nondeterministic decision (operation, argument, environment answer, schedule),
// drives the real implementation, and compares it against a reference model.
// The explorer enumerates EVERY sequence of answers by depth-first search with
// replay.  Work is shared between forked workers; a crash, sanitizer report or
// hang of the code under test kills only the worker, is attributed to the exact
// choice sequence that was running, and exploration resumes after it.
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <string>
#include <vector>

namespace mc {

struct Violation {
    std::string msg;
};
struct Skip {};   // prefix belongs to another worker
struct Prune {};  // execution is outside the model (not counted as a trace)

// ---- choices -------------------------------------------------------------
int choose(int n);
inline bool flip() { return choose(2) == 1; }
template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + choose((int)l.size())); }
template <class T> const T& pick(const std::vector<T>& l) { return l[choose((int)l.size())]; }
inline int range(int lo, int hi) { return lo + choose(hi - lo + 1); }  // inclusive
[[noreturn]] inline void prune() { throw Prune{}; }

bool thorough();

// ---- observation ---------------------------------------------------------
void step(uint64_t n = 1);       // a transition of the implementation was taken
void state(uint64_t h);          // canonical observed state reached
void outcome(uint64_t h);        // distinct final observation (anti-vacuity)
// Identity of the case being run, e.g. "mixup ch=2 n=3": stable over refactorings,
// used to match known findings.  Appended text becomes part of it.
void label(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void addlabel(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
// Free text trace of what was done (replay files), not part of the identity.
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define MC_CHECK(cond, ...)              \
    do {                                 \
        if (!(cond)) ::mc::fail(__VA_ARGS__); \
    } while (0)

// Tell the watchdog that this execution is legitimately making progress.
void heartbeat();
// Current choice string (for in-process diagnostics)
std::string choices_string();

// ---- hashing -------------------------------------------------------------
struct Hash {
    uint64_t h = 1469598103934665603ull;
    void bytes(const void* p, size_t n) {
        auto* b = static_cast<const unsigned char*>(p);
        for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    }
    template <class T> Hash& operator<<(const T& v) {
        static_assert(std::is_arithmetic_v<T> || std::is_enum_v<T>);
        bytes(&v, sizeof v);
        return *this;
    }
    Hash& operator<<(const std::string& s) { bytes(s.data(), s.size()); return *this << s.size(); }
    Hash& operator<<(const char* s) { return *this << std::string(s); }
    template <class T> Hash& operator<<(const std::vector<T>& v) {
        *this << v.size();
        for (auto const& x : v) *this << x;
        return *this;
    }
    uint64_t get() const { uint64_t x = h; x ^= x >> 31; x *= 0x9E3779B97F4A7C15ull; x ^= x >> 29; return x ? x : 1; }
};

// ---- scenarios -----------------------------------------------------------
struct Scenario {
    std::string name;
    std::function<void()> body;
    int split = 2;        // leading choices forming units of work for the workers
    double hang_s = 20;   // watchdog: one execution may take at most this long
};
std::vector<Scenario>& scenarios();
struct Reg {
    Reg(const char* name, std::function<void()> f, int split = 2, double hang = 20) {
        scenarios().push_back({name, std::move(f), split, hang});
    }
};
#define MC_SCENARIO(id, ...)                                  \
    static void id();                                         \
    static ::mc::Reg reg_##id(#id, id, ##__VA_ARGS__);        \
    static void id()

// number of leading choices a scenario may still re-declare at run time
}  // namespace mc
