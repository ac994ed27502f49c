// Reference waveforms for the oscillator checks.
#pragma once
#include "mc.hpp"
#include "fund_oscillator.hpp"
#include <cmath>
#include <memory>
namespace osc {
enum Shape { Sine, Square, Saw, Tri };
static const char* const NAME[] = {"sine", "square", "sawtooth", "triangle"};
// position in cycles -> value; near a jump (within eps cycles) both sides are accepted unless exact
inline void expect(Shape sh, long double x, double got, bool exact, const char* what, int n) {
    MC_CHECK(got >= -1 - 1e-12 && got <= 1 + 1e-12, "%s: sample %d is %.17g, outside [-1, 1]", what, n, got);
    long double eps = exact ? 0 : 1e-12L + std::fabs(x) * (1e-14L + n * 2.3e-16L), tol = 1e-12L + std::fabs(x) * (1e-14L + n * 2.3e-16L);
    auto val = [&](long double y) -> long double {
        long double f = y - std::floor(y);
        switch (sh) {
        case Sine: return std::sin(2 * 3.14159265358979323846264338327950288L * f);
        case Square: return f < 0.5L ? 1 : -1;
        case Saw: { long double g = (y + 0.5L) - std::floor(y + 0.5L); return 2 * g - 1; }
        default: return f < 0.25L ? 4 * f : f > 0.75L ? 4 * (f - 1) : 4 * (0.5L - f);
        }
    };
    bool ok = std::fabs((double)(val(x) - got)) <= (double)tol;
    if (!ok && !exact) ok = std::fabs((double)(val(x - eps) - got)) <= 1e-9 + 4 * (double)eps || std::fabs((double)(val(x + eps) - got)) <= 1e-9 + 4 * (double)eps;
    MC_CHECK(ok, "%s: sample %d (cycle position %.12Lg) is %.12g, the waveform is %.12Lg", what, n, x, got, val(x));
}
}  // namespace osc
