// L06: spectrum, matrix and packing helpers compute their defining formulas.
#include <cmath>
#include <deque>
#include "mc.hpp"
#include "scale.hpp"
#include "audio_buffer.hpp"
#include "dsp/ft.hpp"
#include "dsp/iir.hpp"
#include "dsp/matrix.hpp"
#include "dsp/util.hpp"
using namespace mc;
using C = std::complex<double>;
using R = std::vector<double>;
template <class T> using Buf = dsp::buff::Buffer<T>;
static const double PI = std::acos(-1.0);

// the response reported for a set of coefficients is what the filter does to a stationary oscillation
MC_SCENARIO(response, 4) {
    int K = thorough() ? 4 : 3, D = thorough() ? 16 : 8;
    int na = range(0, K), nb = range(0, K);
    R a(na), b(nb);
    for (auto& v : a) v = pick({-0.5, 0.25, 1.0});
    for (auto& v : b) v = pick({0.0, 0.2, -0.15});
    std::string s; for (double v : a) s += " " + std::to_string(v); s += " |"; for (double v : b) s += " " + std::to_string(v);
    label("coefficients%s", s.c_str());
    for (int k = -D; k <= D; ++k) {
        double w = PI * k / D + (k % 3 == 0 ? 0.01 : 0);
        dsp::iir::IIRFilter<C> f(na, nb);
        for (int i = 0; i < na; ++i) f.set_a(i, a[i]);
        for (int i = 0; i < nb; ++i) f.set_b(i, b[i]);
        const int N = nb ? nb * 220 : 8;
        std::vector<C> x(N), y(N);
        for (int n = 0; n < N; ++n) x[n] = std::polar(1.0, w * n);
        f.process(x.begin(), N, y.begin());
        C want = y[N - 1] / x[N - 1], got = dsp::iir::freq_response(w, a, b);
        step();
        MC_CHECK(std::abs(got - want) < 1e-9, "response (%g, %g) at %g, the filter shows (%g, %g)", got.real(), got.imag(), w, want.real(), want.imag());
        std::deque<double> da(a.begin(), a.end()), db(b.begin(), b.end());
        MC_CHECK(dsp::iir::freq_response(w, da, db) == got, "depends on the container");
        Hash h; h << a << b << k; state(h.get()); outcome((Hash() << got.real() << got.imag()).get());
    }
}
MC_SCENARIO(frequencies, 1) {
    double sra = pick({1.0, 8.0, 8000.0, 44100.0, 192000.0}); int n = pick({1, 2, 3, 8, 1024});
    label("rate %g, size %d", sra, n);
    for (int k = 0; k <= n && k <= 64; ++k) {
        double want = k * sra / n, got = dsp::ft::index_freq(k, n, sra); step();
        MC_CHECK(std::fabs(got - want) <= 1e-12 * (1 + want), "bin %d is %g, expected %g", k, got, want);
        double rad = dsp::iir::freq_map(want, sra);
        MC_CHECK(std::fabs(rad - 2 * PI * k / n) < 1e-9, "%g Hz is %g radians, expected %g", want, rad, 2 * PI * k / n);
        state((Hash() << sra << n << k).get());
    }
    outcome((Hash() << sra << n).get());
}
// all matrices up to a size over a small set of entries (dense ones with distinct entries as well)
template <class T> static void product(int rows, int inner, int cols, const std::vector<T>& ea, const std::vector<T>& eb, int dirty) {
    Buf<T> a(ea, rows), b(eb, inner), o;
    if (dirty) { o.resize(dirty); o.set_channels(1 + dirty % 3); for (int i = 0; i < dirty; ++i) o.at(i) = T(77); }
    dsp::mat::matrix_mult(a, b, o); step();
    MC_CHECK((int)o.channels() == rows && (int)o.size() == rows * cols && (int)o.channel_capacity() == cols, "product of %dx%d and %dx%d has %zu rows and %zu values", rows, inner, inner, cols, o.channels(), o.size());
    for (int r = 0; r < rows; ++r) for (int c = 0; c < cols; ++c) {
        T want = 0; for (int k = 0; k < inner; ++k) want += a.at(r, k) * b.at(k, c);
        MC_CHECK(std::fabs(double(o.at(r, c)) - double(want)) < 1e-9, "%g at <%d, %d> of a %dx%d by %dx%d product, expected %g", double(o.at(r, c)), r, c, rows, inner, inner, cols, double(want));
    }
    for (size_t i = 0; i < ea.size(); ++i) MC_CHECK(a.at((int)i) == ea[i], "left factor changed");
    for (size_t i = 0; i < eb.size(); ++i) MC_CHECK(b.at((int)i) == eb[i], "right factor changed");
    Hash h; h << rows << inner << cols; for (auto v : ea) h << double(v); for (auto v : eb) h << double(v); state(h.get());
    Hash g; for (size_t i = 0; i < o.size(); ++i) g << double(o.at((int)i)); outcome(g.get());
}
MC_SCENARIO(matrices, 4) {
    int M = thorough() ? 5 : 4;
    int rows = range(1, M), inner = range(1, M), cols = range(1, M), dirty = pick({0, 1, 7});
    bool units = flip();
    label("%dx%d by %dx%d", rows, inner, inner, cols);
    R ea(rows * inner), eb(inner * cols);
    if (units) {   // one entry on each side: decides where every product goes
        int i = choose(ea.size()), j = choose(eb.size());
        ea[i] = 0.75; eb[j] = -2.5; product(rows, inner, cols, ea, eb, dirty);
    } else {
        for (size_t i = 0; i < ea.size(); ++i) ea[i] = 0.5 + i * 1.25;
        for (size_t i = 0; i < eb.size(); ++i) eb[i] = 3.125 - i * 0.375;
        product(rows, inner, cols, ea, eb, dirty);
        std::vector<int> ia, ib; for (double v : ea) ia.push_back(int(v * 4)); for (double v : eb) ib.push_back(int(v * 8));
        product(rows, inner, cols, ia, ib, dirty);
    }
}
MC_SCENARIO(small_matrices, 3) {   // every 2x2 by 2x2 product over four values
    R ea(4), eb(4);
    for (auto& v : ea) v = pick({0.0, 1.0, -0.5, 2.25});
    for (auto& v : eb) v = pick({0.0, 1.0, -0.5, 2.25});
    product(2, 2, 2, ea, eb, 0);
}
MC_SCENARIO(dots, 3) {
    int n = range(0, thorough() ? 6 : 5); R x(n), y(n);
    for (auto& v : x) v = pick({0.0, 0.5, -1.25});
    for (auto& v : y) v = pick({1.0, 0.3, -2.0});
    label("%d values", n);
    double want = 0; for (int i = 0; i < n; ++i) want += x[i] * y[i];
    auto ok = [&](double got, const char* how) { step(); MC_CHECK(std::fabs(got - want) < 1e-12, "%s: %g, expected %g", how, got, want); };
    ok(dsp::mat::dot_product(x.begin(), y.begin(), n), "writable"); ok(dsp::mat::dot_product(x.cbegin(), y.cbegin(), n), "read-only");
    ok(dsp::mat::dot_product(x.data(), y.data(), n), "pointers");
    std::vector<float> xf(x.begin(), x.end()); std::vector<int> yi; double wi = 0; for (int i = 0; i < n; ++i) { yi.push_back(int(y[i])); wi += x[i] * int(y[i]); }
    MC_CHECK(std::fabs(dsp::mat::dot_product(xf.begin(), yi.begin(), n) - wi) < 1e-5, "float by int");
    if (n) { AudioBuffer a(x, 1), b(y, 1); ok(dsp::mat::dot_product(a.ibegin(), b.sbegin(), n), "buffers"); ok(dsp::mat::dot_product(a.scbegin(), b.icbegin(), n), "read-only buffers"); }
    state((Hash() << x << y).get()); outcome((Hash() << want).get());
}
static const double G = -4321;
static R guarded(int n) { R v(n + 4, 99); v[0] = v[1] = v[n + 2] = v[n + 3] = G; return v; }
template <class V> static void guards(const V& v, typename V::value_type g, const char* what) { size_t n = v.size() - 4; MC_CHECK(v[0] == g && v[1] == g && v[n + 2] == g && v[n + 3] == g, "%s wrote outside its result of %zu", what, n); }
MC_SCENARIO(elementwise, 2) {
    int n = range(0, thorough() ? 17 : 9), pat = choose(3); label("%d values", n);
    R x(n), y(n); for (int i = 0; i < n; ++i) { x[i] = pat == 0 ? i + 0.5 : pat == 1 ? (i % 2 ? -1.75 : 0) : 1e6 / (i + 1); y[i] = 3 - 0.25 * i; }
    R o = guarded(n), x0 = x, y0 = y;
    dsp::util::multiply_signals(n, x.begin(), y.begin(), o.begin() + 2); step(); guards(o, G, "product");
    for (int i = 0; i < n; ++i) MC_CHECK(o[i + 2] == x[i] * y[i], "product %g at %d", o[i + 2], i);
    std::vector<C> cx(n), cy(n), co(n + 4, C(G, G)); for (int i = 0; i < n; ++i) { cx[i] = C(x[i], -y[i]); cy[i] = C(y[i], i); }
    dsp::util::multiply_signals(n, cx.begin(), cy.begin(), co.begin() + 2); step(); guards(co, C(G, G), "complex product");
    for (int i = 0; i < n; ++i) { C w(x[i] * y[i] + y[i] * i, x[i] * i - y[i] * y[i]); MC_CHECK(std::abs(co[i + 2] - w) <= 1e-12 * (1 + std::abs(w)), "complex product at %d", i); }
    R p = x; dsp::util::multiply_signals(n, p.begin(), y.begin(), p.begin()); for (int i = 0; i < n; ++i) MC_CHECK(p[i] == x[i] * y[i], "product in place at %d", i);
    std::vector<C> ro(n + 4, C(G, G)); dsp::util::real_complex_naive(x.begin(), n, ro.begin() + 2); step(); guards(ro, C(G, G), "naive packing");
    for (int i = 0; i < n; ++i) MC_CHECK(ro[i + 2] == C(x[i], 0), "naive packing at %d", i);
    if (n % 2 == 0) {
        std::vector<C> eo(n / 2 + 4, C(G, G)); dsp::util::real_eop_complex(x.begin(), n, eo.begin() + 2); step(); guards(eo, C(G, G), "even-odd packing");
        for (int i = 0; i < n / 2; ++i) MC_CHECK(eo[i + 2] == C(x[2 * i], x[2 * i + 1]), "even-odd packing at %d", i);
    }
    MC_CHECK(x == x0 && y == y0, "inputs changed");
    state((Hash() << n << pat).get()); outcome((Hash() << o).get());
}
MC_SCENARIO(reversal, 1) {
    int e = range(0, thorough() ? 14 : 11), n = 1 << e; label("%d values", n);
    R v = guarded(n); for (int i = 0; i < n; ++i) v[i + 2] = i;
    dsp::util::bit_reverse(n, v.begin() + 2); step(); guards(v, G, "bit reversal");
    for (int i = 0; i < n; ++i) { int r = 0; for (int b = 0; b < e; ++b) if (i >> b & 1) r |= 1 << (e - 1 - b); MC_CHECK(v[i + 2] == r, "%g at %d of %d, expected %d", v[i + 2], i, n, r); }
    dsp::util::bit_reverse(n, v.data() + 2); guards(v, G, "bit reversal");
    for (int i = 0; i < n; ++i) MC_CHECK(v[i + 2] == i, "reversing twice leaves %g at %d", v[i + 2], i);
    state((Hash() << n).get()); outcome((Hash() << v).get());
}
MC_SCENARIO(sinc, 1) {
    int k = range(-400, 400); double x = k / 32.0, want = k ? std::sin(x) / x : 1; step();
    MC_CHECK(std::fabs(dsp::util::sinc(x) - want) < 1e-15, "sinc %g", x);
    for (double t : {1e-3, 1e-9, 1e-300, 5e-324}) MC_CHECK(std::fabs(dsp::util::sinc(t) - 1) < 1e-6 && std::fabs(dsp::util::sinc(-t) - 1) < 1e-6, "sinc near zero");
    state((Hash() << k).get()); outcome((Hash() << want).get());
}
MC_SCENARIO(scale_matrices, 3) {   // large and lopsided shapes
    static const int D[] = {1, 2, 7, 8, 9, 16, 17, 31, 33, 64, 65, 130, 257};
    int rows = D[choose(13)], inner = D[choose(13)], cols = D[choose(13)];
    if ((double)rows * inner * cols > (thorough() ? 1e7 : 6e5)) prune();
    label("%dx%d by %dx%d", rows, inner, inner, cols);
    R ea(rows * inner), eb(inner * cols);
    for (size_t i = 0; i < ea.size(); ++i) ea[i] = double(i * 37 % 101) / 8 - 5;
    for (size_t i = 0; i < eb.size(); ++i) eb[i] = 3 - double(i * 53 % 97) / 16;
    product(rows, inner, cols, ea, eb, 0);
}
MC_SCENARIO(scale_vectors, 2) {   // every length
    int n = thorough() ? range(1, 3000) : range(1, 700);
    label("%d values", n);
    R x(n), y(n), o = guarded(n); double want = 0;
    for (int i = 0; i < n; ++i) { x[i] = double(i * 37 % 101) / 8 - 5; y[i] = 3 - double(i * 53 % 97) / 16; want += x[i] * y[i]; }
    double got = dsp::mat::dot_product(x.begin(), y.begin(), n); step();
    MC_CHECK(std::fabs(got - want) < 1e-9 * (1 + std::fabs(want)), "dot product of %d values is %g, expected %g", n, got, want);
    dsp::util::multiply_signals(n, x.begin(), y.begin(), o.begin() + 2); guards(o, G, "product");
    for (int i = 0; i < n; ++i) MC_CHECK(o[i + 2] == x[i] * y[i], "product %g at %d of %d", o[i + 2], i, n);
    std::vector<C> ro(n + 4, C(G, G)); dsp::util::real_complex_naive(x.begin(), n, ro.begin() + 2); guards(ro, C(G, G), "naive packing");
    for (int i = 0; i < n; ++i) MC_CHECK(ro[i + 2] == C(x[i], 0), "naive packing at %d of %d", i, n);
    if (n % 2 == 0) {
        std::vector<C> eo(n / 2 + 4, C(G, G)); dsp::util::real_eop_complex(x.begin(), n, eo.begin() + 2); guards(eo, C(G, G), "even-odd packing");
        for (int i = 0; i < n / 2; ++i) MC_CHECK(eo[i + 2] == C(x[2 * i], x[2 * i + 1]), "even-odd packing at %d of %d", i, n);
    }
    state((Hash() << n).get()); outcome((Hash() << want).get());
}
MC_SCENARIO(scale_response, 2) {   // many coefficients
    int na = pick({1, 5, 8, 9, 16, 17, 33, 64, 65}), nb = pick({0, 1, 2, 5, 8, 9, 16, 17, 33}), k = range(-4, 4);
    R a(na), b(nb); for (int i = 0; i < na; ++i) a[i] = ((i * 7 + 3) % 11 - 5) / 8.0; for (int i = 0; i < nb; ++i) b[i] = ((i * 5 + 2) % 7 - 3) / (8.0 * nb);
    double w = PI * k / 4 + 0.01; C z = std::polar(1.0, -w), num = 0, den = 1, p = 1;
    label("%d forward, %d feedback coefficients at %g", na, nb, w);
    for (int i = 0; i < na; ++i, p *= z) num += a[i] * p;
    p = z; for (int i = 0; i < nb; ++i, p *= z) den += b[i] * p;
    // the sign of the feedback is the one the running filter uses
    dsp::iir::IIRFilter<C> f(na, nb);
    for (int i = 0; i < na; ++i) f.set_a(i, a[i]);
    for (int i = 0; i < nb; ++i) f.set_b(i, b[i]);
    const int N = 4000; std::vector<C> x(N), y(N); for (int n = 0; n < N; ++n) x[n] = std::polar(1.0, w * n);
    f.process(x.begin(), N, y.begin());
    C want = y[N - 1] / x[N - 1], got = dsp::iir::freq_response(w, a, b); step();
    MC_CHECK(std::abs(got - want) < 1e-6 * (1 + std::abs(want)), "response (%g, %g), the filter shows (%g, %g)", got.real(), got.imag(), want.real(), want.imag());
    state((Hash() << na << nb << k).get()); outcome((Hash() << got.real() << got.imag()).get());
}
