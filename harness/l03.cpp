// L03: fast Fourier transforms equal the defining sum and invert exactly.
#include <cmath>
#include "mc.hpp"
#include "dsp/ft.hpp"
#include "dsp/util.hpp"
#include <vector>
using namespace mc;
using namespace dsp::ft;
using C = std::complex<double>;
using V = std::vector<C>;
using R = std::vector<double>;
static const long double PI = 3.141592653589793238462643383279502884L;
static C unit(long long k, int n) { k %= n; long double a = 2 * PI * k / n; return {(double)std::cos(a), (double)std::sin(a)}; }
// sum of x[p] e^(sign j 2 pi k p / n), by the definition
static V defining(const V& x, int sign) {
    int n = x.size(); V y(n);
    for (int p = 0; p < n; ++p) if (x[p] != C(0)) for (int k = 0; k < n; ++k) { C u = unit((long long)k * p, n); y[k] += x[p] * (sign < 0 ? std::conj(u) : u); }
    return y;
}
static int reversed(int i, int n) { int r = 0; for (int b = 1; b < n; b <<= 1) { r = r << 1 | (i & 1); i >>= 1; } return r; }
static const C G(1234, -4321);
template <class T> static std::vector<T> guarded(int n, T g) { std::vector<T> v(n + 4, T(99)); v[0] = v[1] = v[n + 2] = v[n + 3] = g; return v; }
template <class T> static std::vector<T> inner(const std::vector<T>& v, T g, const char* what) {
    size_t n = v.size() - 4;
    MC_CHECK(v[0] == g && v[1] == g && v[n + 2] == g && v[n + 3] == g, "%s wrote outside its result of %zu", what, n);
    return std::vector<T>(v.begin() + 2, v.end() - 2);
}
template <class A> static void same(const A& got, const A& want, double tol, const char* what) {
    MC_CHECK(got.size() == want.size(), "%s: size %zu", what, got.size());
    for (size_t i = 0; i < want.size(); ++i) MC_CHECK(std::abs(C(got[i]) - C(want[i])) <= tol, "%s: (%g, %g) at %zu of %zu, expected (%g, %g)", what, C(got[i]).real(), C(got[i]).imag(), i, want.size(), C(want[i]).real(), C(want[i]).imag());
    step();
}
static void complex_all(const V& x) {
    const int n = x.size();
    double tol = 1e-13; for (auto& v : x) tol += std::abs(v) * 4e-15 * n;
    V f = defining(x, -1), b = defining(x, 1);
    for (auto& v : b) v /= n;
    V in = x;
    V o = guarded<C>(n, G); fft_c_radix2(in.begin(), n, o.begin() + 2); same(inner(o, G, "forward"), f, tol, "forward out of place");
    MC_CHECK(in == x, "forward transform changed its input");
    o = guarded<C>(n, G); ifft_c_radix2(in.data(), n, o.data() + 2); same(inner(o, G, "inverse"), b, tol, "inverse out of place");
    MC_CHECK(in == x, "inverse transform changed its input");
    // in place results are in bit-reversed order
    V fr(n), br(n);
    for (int i = 0; i < n; ++i) { fr[reversed(i, n)] = f[i]; br[reversed(i, n)] = b[i]; }
    o = guarded<C>(n, G); std::copy(x.begin(), x.end(), o.begin() + 2);
    fft_c_radix2(o.begin() + 2, n); same(inner(o, G, "forward in place"), fr, tol, "forward in place");
    dsp::util::bit_reverse(n, o.begin() + 2); same(inner(o, G, "bit_reverse"), f, tol, "bit_reverse");
    ifft_c_radix2(o.begin() + 2, n); dsp::util::bit_reverse(n, o.data() + 2); same(inner(o, G, "round trip in place"), x, tol, "round trip in place");
    o = guarded<C>(n, G); std::copy(x.begin(), x.end(), o.begin() + 2);
    ifft_c_radix2(o.data() + 2, n); same(inner(o, G, "inverse in place"), br, tol, "inverse in place");
    V y(n), z(n); fft_c_radix2(in.data(), n, y.begin()); ifft_c_radix2(y.begin(), n, z.data()); same(z, x, tol, "round trip");
    Hash h; for (auto& v : x) h << v.real() << v.imag(); h << n; state(h.get()); outcome(h.get());
}
static void real_all(const R& x, bool slow) {
    const int n = x.size(), m = n / 2 + 1;
    double tol = 1e-13; for (auto& v : x) tol += std::abs(v) * 1e-14 * n;
    V f = defining(V(x.begin(), x.end()), -1); f.resize(m);
    MC_CHECK((int)length_ft(n) == m && (int)length_ift(m) == 2 * (m - 1), "lengths for %d", n);
    R in = x;
    bool pow2 = (n & (n - 1)) == 0;
    if (pow2) {
        V o = guarded<C>(m, G); fft_r_radix2(in.begin(), n, o.begin() + 2); same(inner(o, G, "real forward"), f, tol, "real forward");
        MC_CHECK(in == x, "real forward transform changed its input");
        if (n > 1) {
            V fi = f; R r = guarded<double>(n, 555.0);
            ifft_r_radix2(fi.begin(), m, r.begin() + 2); same(inner(r, 555.0, "real inverse"), x, tol, "real inverse");
            MC_CHECK(fi == f, "real inverse transform changed its input");
            V t(m); R u(n); fft_r_radix2(in.data(), n, t.data()); ifft_r_radix2(t.data(), m, u.data()); same(u, x, tol, "real round trip");
        }
    }
    if (slow) {
        V o = guarded<C>(m, G); std::fill(o.begin() + 2, o.end() - 2, C(0)); dft(in.begin(), n, o.begin() + 2); same(inner(o, G, "dft"), f, tol * 8, "dft");
        MC_CHECK(in == x, "dft changed its input");
        if (n > 1 && n % 2 == 0) {
            V fi = f; R r = guarded<double>(n, 555.0); std::fill(r.begin() + 2, r.end() - 2, 0.0);
            inv_dft(fi.begin(), m, r.begin() + 2); same(inner(r, 555.0, "inv_dft"), x, tol * 8, "inv_dft");
            MC_CHECK(fi == f, "inv_dft changed its input");
        }
    }
    Hash h; h << n; for (auto& v : x) h << v; state(h.get()); outcome(h.get());
}
// all unit impulses, complete by linearity
MC_SCENARIO(impulses, 2) {
    int n = 1 << choose(thorough() ? 11 : 9), p = choose(n);
    label("%d points", n);
    V x(n); x[p] = pick({C(1), C(0, 1), C(-3, 2)}); note("impulse at %d", p);
    complex_all(x);
}
MC_SCENARIO(real_impulses, 2) {
    int n = 1 << choose(thorough() ? 12 : 10), p = choose(n);
    label("%d points", n);
    R x(n); x[p] = pick({1.0, -2.5}); note("impulse at %d", p);
    real_all(x, n <= 64);
}
MC_SCENARIO(slow_impulses, 2) {
    int n = range(1, thorough() ? 70 : 40), p = choose(n);
    label("%d points", n);
    R x(n); x[p] = 1;
    real_all(x, true);
}
// all small signals
MC_SCENARIO(signals, 3) {
    int n = pick({1, 2, 4});
    label("%d points", n);
    V x(n); for (auto& v : x) v = pick({C(0), C(1), C(-1), C(0, 1), C(0.5, -2), C(1e6, 0)});
    complex_all(x);
}
MC_SCENARIO(real_signals, 3) {
    int n = pick({1, 2, 3, 4, 6, 8});
    label("%d points", n);
    R x(n); for (auto& v : x) { if (n == 8 && !thorough()) v = pick({0.0, 1.0, -2.0}); else v = pick({0.0, 1.0, -2.0, 0.5}); }
    real_all(x, true);
}
// dense signals of every size
MC_SCENARIO(dense, 2) {
    int n = 1 << choose(thorough() ? 12 : 10), kind = choose(4);
    label("%d points kind %d", n, kind);
    V x(n); R r(n);
    for (int i = 0; i < n; ++i) {
        double a = kind == 0 ? 1 : kind == 1 ? i % 2 * 2 - 1 : kind == 2 ? std::sin(0.37 * i * i) : (double)((i * 7919LL) % 1009) / 504 - 1;
        r[i] = a; x[i] = C(a, kind >= 2 ? std::cos(0.11 * i * i) : 0);
    }
    if (n <= 2048) complex_all(x);
    real_all(r, n <= 64);
}
