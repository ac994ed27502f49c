// L05: windows and sinc kernels are complete, symmetric and correctly normalised.
#include <cmath>
#include <complex>
#include "mc.hpp"
#include "dsp/kernel.hpp"
#include "dsp/window.hpp"
using namespace mc;
using V = std::vector<double>;
static const long double PI = 3.141592653589793238462643383279502884L;
static double hannw(int i, int n) { return dsp::win::window_hann(i, n); }
static double hammw(int i, int n) { return dsp::win::window_hamming(i, n); }
static double blkcw(int i, int n) { return dsp::win::window_blackmanc(i, n); }
using Fn = double (*)(int, int);
static const Fn FN[] = {dsp::win::window_rectangle, hannw, hammw, dsp::win::window_blackman, blkcw};
static const char* NAME[] = {"rectangle", "hann", "hamming", "blackman", "blackmanc"};
// generalised cosine windows a0 - a1 cos + a2 cos; a single point is the whole window
static long double win(int w, int i, int n, long double par = -1) {
    if (w == 0 || n == 1) return 1;
    long double c = 2 * PI * i / (n - 1);
    if (w == 1 || w == 2) { long double a0 = par >= 0 ? par : w == 1 ? 0.5L : 0.54L; return a0 - (1 - a0) * std::cos(c); }
    long double al = par >= 0 ? par : 0.16L;
    return (1 - al) / 2 - 0.5L * std::cos(c) + al / 2 * std::cos(2 * c);
}
MC_SCENARIO(windows, 2) {
    int w = choose(5), n = range(1, thorough() ? 1200 : 400);
    label("%s of %d", NAME[w], n);
    V v(n); Hash h;
    for (int i = 0; i < n; ++i) {
        v[i] = FN[w](i, n); step();
        long double e = win(w, i, n);
        MC_CHECK(std::fabs(v[i] - e) <= 1e-12L, "%g at %d of %d, expected %g", v[i], i, n, (double)e);
        h << v[i];
    }
    for (int i = 0; i < n; ++i) MC_CHECK(std::fabs(v[i] - v[n - 1 - i]) <= 1e-12, "not symmetric at %d of %d: %g and %g", i, n, v[i], v[n - 1 - i]);
    state((Hash() << w << n).get()); outcome(h.get());
}
MC_SCENARIO(parameters, 2) {
    int w = range(1, 4); if (w == 3) prune();
    double par = choose(21) / 20.0; int n = range(1, thorough() ? 300 : 100);
    label("%s(%g) of %d", NAME[w], par, n);
    for (int i = 0; i < n; ++i) {
        double v = w == 1 ? dsp::win::window_hann(i, n, par) : w == 2 ? dsp::win::window_hamming(i, n, par) : dsp::win::window_blackmanc(i, n, par); step();
        MC_CHECK(std::fabs(v - win(w, i, n, par)) <= 1e-12L, "%g at %d of %d, expected %g", v, i, n, (double)win(w, i, n, par));
    }
    outcome((Hash() << w << par << n).get());
}
// a range with guards: [2, n + 2)
static V guarded(int n) { V v(n + 4, 0); v[0] = v[1] = v[n + 2] = v[n + 3] = 1234; return v; }
static void guards(const V& v, const char* what) { size_t n = v.size() - 4; MC_CHECK(v[0] == 1234 && v[1] == 1234 && v[n + 2] == 1234 && v[n + 3] == 1234, "%s wrote outside its range of %zu", what, n); }
static std::complex<double> response(const V& k, double f) {
    std::complex<double> s = 0;
    for (size_t i = 0; i < k.size(); ++i) s += k[i] * std::polar(1.0, -2 * (double)PI * f * i);
    return s;
}
static V kernel(double f, int n, int w) {
    V v = guarded(n);
    for (int i = 0; i < n; ++i) v[i + 2] = 55;   // every sample must be written
    if (w < 0) dsp::kern::sinc_kernel(f, n, v.begin() + 2); else dsp::kern::sinc_kernel(f, n, v.data() + 2, FN[w]);
    guards(v, "sinc_kernel");
    return V(v.begin() + 2, v.begin() + 2 + n);
}
static V expected(double f, int n, int w) {
    V e(n); long double sum = 0; int c = (n - 1) / 2;
    std::vector<long double> t(n);
    for (int i = 0; i < n; ++i) {
        long double x = 2 * PI * f * (i - c);
        t[i] = (x == 0 ? 1 : std::sin(x) / x) * win(w < 0 ? 3 : w, i, n); sum += t[i];
    }
    for (int i = 0; i < n; ++i) e[i] = t[i] / sum;
    return e;
}
MC_SCENARIO(sinc, 3) {
    int w = choose(6) - 1;
    int n = 2 * choose(thorough() ? 100 : 40) + 1;
    double f = choose(thorough() ? 101 : 41) / (thorough() ? 200.0 : 80.0);
    label("sinc %g of %d, %s", f, n, w < 0 ? "default window" : NAME[w]);
    V k = kernel(f, n, w), e = expected(f, n, w); step();
    double sum = 0; Hash h;
    for (int i = 0; i < n; ++i) {
        MC_CHECK(std::isfinite(k[i]), "%g at %d of %d", k[i], i, n);
        MC_CHECK(std::fabs(k[i] - e[i]) <= 1e-11, "%g at %d of %d, expected %g", k[i], i, n, e[i]);
        MC_CHECK(std::fabs(k[i] - k[n - 1 - i]) <= 1e-12, "not symmetric at %d of %d", i, n);
        sum += k[i]; h << k[i];
    }
    MC_CHECK(std::fabs(sum - 1) <= 1e-11, "gain at zero %g", sum);
    state((Hash() << w << n << f).get());
    // inversion and reversal of the kernel
    V inv = guarded(n), rev = guarded(n);
    std::copy(k.begin(), k.end(), inv.begin() + 2); std::copy(k.begin(), k.end(), rev.begin() + 2);
    dsp::kern::spectral_inversion(inv.begin() + 2, n); guards(inv, "spectral_inversion"); step();
    dsp::kern::spectral_reversal(rev.data() + 2, n); guards(rev, "spectral_reversal"); step();
    inv = V(inv.begin() + 2, inv.end() - 2); rev = V(rev.begin() + 2, rev.end() - 2);
    int c = (n - 1) / 2;
    for (int i = 0; i < 9; ++i) {
        double q = i / 16.0;
        auto a = response(k, q) + response(inv, q), d = std::polar(1.0, -2 * (double)PI * q * c);
        MC_CHECK(std::abs(a - d) <= 1e-10, "inverted kernel does not complement at %g", q);
        MC_CHECK(std::fabs(std::abs(response(rev, q)) - std::abs(response(k, 0.5 - q))) <= 1e-10, "reversed kernel has gain %g at %g, expected %g", std::abs(response(rev, q)), q, std::abs(response(k, 0.5 - q)));
    }
    outcome(h.get());
}
// inversion and reversal of every impulse (complete by linearity)
MC_SCENARIO(transforms, 2) {
    int n = 2 * choose(thorough() ? 60 : 30) + 1, p = choose(n + 1);
    label("impulse %d of %d", p, n);
    V k(n); if (p < n) k[p] = 2.5; else for (int i = 0; i < n; ++i) k[i] = i + 1;
    V a = guarded(n), b = guarded(n);
    std::copy(k.begin(), k.end(), a.begin() + 2); std::copy(k.begin(), k.end(), b.begin() + 2);
    dsp::kern::spectral_inversion(a.begin() + 2, n); guards(a, "spectral_inversion"); step();
    dsp::kern::spectral_reversal(b.begin() + 2, n); guards(b, "spectral_reversal"); step();
    double sign = 0;
    for (int i = 0; i < n; ++i) {
        double e = (i == (n - 1) / 2) - k[i];
        MC_CHECK(a[i + 2] == e, "inversion: %g at %d of %d, expected %g", a[i + 2], i, n, e);
        MC_CHECK(std::fabs(b[i + 2]) == std::fabs(k[i]), "reversal: %g at %d of %d, was %g", b[i + 2], i, n, k[i]);
        if (k[i]) { double s = b[i + 2] / k[i] * (i % 2 ? -1 : 1); if (!sign) sign = s; MC_CHECK(s == sign, "reversal: signs do not alternate at %d of %d", i, n); }
    }
    outcome((Hash() << n << p).get());
}
// even lengths: reversal is defined for them too, and nothing may be written beyond the range
MC_SCENARIO(even, 2) {
    int n = 2 * (1 + choose(thorough() ? 100 : 40)), p = choose(n + 1);
    label("impulse %d of even %d", p, n);
    V k(n); if (p < n) k[p] = -1.5; else for (int i = 0; i < n; ++i) k[i] = i + 1;
    V a = guarded(n), b = guarded(n);
    std::copy(k.begin(), k.end(), a.begin() + 2); std::copy(k.begin(), k.end(), b.begin() + 2);
    dsp::kern::spectral_inversion(a.begin() + 2, n); guards(a, "spectral_inversion"); step();
    dsp::kern::spectral_reversal(b.begin() + 2, n); guards(b, "spectral_reversal"); step();
    double sign = 0;
    for (int i = 0; i < n; ++i) {
        MC_CHECK(std::fabs(b[i + 2]) == std::fabs(k[i]), "reversal: %g at %d of %d, was %g", b[i + 2], i, n, k[i]);
        if (k[i]) { double s = b[i + 2] / k[i] * (i % 2 ? -1 : 1); if (!sign) sign = s; MC_CHECK(s == sign, "reversal: signs do not alternate at %d of %d", i, n); }
    }
    if (p <= 5) for (double f : {0.0, 0.1, 0.25, 0.5}) kernel(f, n, p - 1);
    outcome((Hash() << n << p).get());
}
