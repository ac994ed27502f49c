// H01: integer sample formats <-> floating point.
#include "mc.hpp"
#include "audio_buffer.hpp"
#include <algorithm>
#include <cmath>
#include <limits>
using namespace mc;

template <class T> struct Fmt {
    const char* name;
    double (*to)(T);
    T (*from)(double);
};

// Largest error allowed: one step of the format on the [-1,1] scale
template <class T> double step_of() { return 2.0 / (std::ldexp(1.0, 8 * sizeof(T)) - 2); }

template <class T> void all_values(const Fmt<T>& f) {
    constexpr long lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    int page = choose((hi - lo + 1) / 256);
    label("%s", f.name);
    double prev = page == 0 ? -2 : f.to(T(lo + page * 256L - 1));
    for (long k = 0; k < 256; ++k) {
        long v = lo + page * 256L + k;
        double d = f.to(T(v));
        step(2);
        MC_CHECK(d >= -1.0 && d <= 1.0, "%s %ld maps to %.17g, outside [-1,1]", f.name, v, d);
        MC_CHECK(d > prev || page + k == 0, "%s not increasing at %ld: %.17g then %.17g", f.name, v, prev, d);
        prev = d;
        T b = f.from(d);
        MC_CHECK(long(b) == v, "%s %ld -> %.17g -> %ld", f.name, v, d, long(b));
        MC_CHECK(v != lo || d == -1.0, "%s minimum maps to %.17g", f.name, d);
        MC_CHECK(v != hi || d == 1.0, "%s maximum maps to %.17g", f.name, d);
        // the value denoted by v on a linear scale
        double lin = 2.0 * double(v - lo) / double(hi - lo) - 1.0;
        MC_CHECK(std::fabs(d - lin) <= step_of<T>(), "%s %ld maps to %.17g, linear value %.17g", f.name, v, d, lin);
        state((Hash() << f.name << v).get());
    }
    outcome((Hash() << f.name << page).get());
}

// floating point -> integer on a grid that contains every exact step, the points
// just beside it, and `sub` points between neighbouring steps
template <class T> void all_floats(const Fmt<T>& f) {
    constexpr long lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    int page = choose((hi - lo + 1) / 256);
    const int sub = thorough() ? 16 : 4;
    label("%s", f.name);
    T prev{};
    bool have = false;
    for (long k = 0; k < 256; ++k) {
        long v = lo + page * 256L + k;
        double a = 2.0 * double(v - lo) / double(hi - lo) - 1.0, b = v == hi ? 1.0 : 2.0 * double(v + 1 - lo) / double(hi - lo) - 1.0;
        std::vector<double> pts;
        for (int s = 0; s < sub; ++s) {
            double x = a + (b - a) * s / sub;
            if (s && v == hi) break;
            pts.push_back(std::nextafter(x, -2.0)); pts.push_back(x); pts.push_back(std::nextafter(x, 2.0));
        }
        std::sort(pts.begin(), pts.end());
        for (double x : pts) {
            if (x < -1) x = -1;
            if (x > 1) x = 1;
            T r = f.from(x);
            step();
            MC_CHECK(!have || r >= prev, "%s: float to int decreases at %.17g (%ld after %ld)", f.name, x, long(r), long(prev));
            prev = r; have = true;
            MC_CHECK(std::fabs(f.to(r) - x) <= step_of<T>() * (1 + 1e-9), "%s: %.17g -> %ld -> %.17g, off by more than one step", f.name, x, long(r), f.to(r));
        }
    }
    MC_CHECK(long(f.from(-1.0)) == lo && long(f.from(1.0)) == hi, "%s extremes: -1 -> %ld, 1 -> %ld", f.name, long(f.from(-1.0)), long(f.from(1.0)));
    MC_CHECK(std::labs(long(f.from(0.0)) - (lo + hi + 1) / 2) <= 0, "%s: silence maps to %ld", f.name, long(f.from(0.0)));
    state((Hash() << f.name << page << "f").get());
    outcome((Hash() << f.name << page << long(prev)).get());
}

static_assert(std::numeric_limits<char>::is_signed);
static const Fmt<int16_t> I16{"int16", int16_mf, mf_int16};
static const Fmt<uint16_t> U16{"uint16", uint16_mf, mf_uint16};
static const Fmt<char> I8{"char", char_mf, mf_char};
static const Fmt<unsigned char> U8{"uchar", uchar_mf, mf_uchar};

MC_SCENARIO(int_values, 2) {
    switch (choose(4)) {
    case 0: all_values(I16); break;
    case 1: all_values(U16); break;
    case 2: all_values(I8); break;
    default: all_values(U8);
    }
}
MC_SCENARIO(float_values, 2) {
    switch (choose(4)) {
    case 0: all_floats(I16); break;
    case 1: all_floats(U16); break;
    case 2: all_floats(I8); break;
    default: all_floats(U8);
    }
}
// null and float conversions keep the value
MC_SCENARIO(identity, 1) {
    int a = choose(257);
    label("identity");
    for (int b = -128; b <= 128; ++b) {
        double x = (a - 128) / 128.0 + b / 128.0 / 257.0;
        step(2);
        MC_CHECK(mf_null(x) == x, "mf_null(%.17g)=%.17g", x, mf_null(x));
        MC_CHECK(mf_float(x) == float(x), "mf_float(%.17g)=%.9g", x, mf_float(x));
    }
    state((Hash() << a).get());
    outcome(a);
}
