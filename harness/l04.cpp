// L04: recursive filters implement their difference equation over whole streams.
#include <cmath>
#include <cstring>
#include <deque>
#include <memory>
#include "mc.hpp"
#include "dsp/iir.hpp"
using namespace mc;
using namespace dsp::iir;
using V = std::vector<double>;
static V reference(const V& a, const V& b, const V& x) {
    V y(x.size());
    for (size_t n = 0; n < x.size(); ++n) {
        for (size_t i = 0; i < a.size() && i <= n; ++i) y[n] += a[i] * x[n - i];
        for (size_t i = 0; i < b.size() && i < n; ++i) y[n] += b[i] * y[n - 1 - i];
    }
    return y;
}
static bool near(double g, double w, double scale = 1) { return g == w || std::fabs(g - w) <= 1e-10 * (scale + std::fabs(w)); }
// one of the ways to build a filter with given coefficients
static std::unique_ptr<IIRFilter<double>> build(int how, const V& a, const V& b) {
    std::unique_ptr<IIRFilter<double>> f;
    switch (how) {
    case 0: f = std::make_unique<IIRFilter<double>>((int)a.size(), (int)b.size()); break;
    case 1: f = std::make_unique<IIRFilter<double>>(); f->set_asize(a.size()); f->set_bsize(b.size()); f->reserve(); break;
    default: f = std::make_unique<IIRFilter<double>>(); f->set_bsize(b.size()); f->set_asize(a.size()); break;
    }
    if (how == 1) { std::copy(a.begin(), a.end(), f->abegin()); std::copy(b.begin(), b.end(), f->bbegin()); MC_CHECK(f->aend() - f->abegin() == (long)a.size() && f->bend() - f->bbegin() == (long)b.size(), "coefficient ranges"); }
    else { for (size_t i = 0; i < a.size(); ++i) f->set_a(i, a[i]); for (size_t i = 0; i < b.size(); ++i) f->set_b(i, b[i]); }
    MC_CHECK(f->get_asize() == (int)a.size() && f->get_bsize() == (int)b.size(), "sizes");
    for (size_t i = 0; i < a.size(); ++i) MC_CHECK(f->get_a(i) == a[i], "a%zu", i);
    for (size_t i = 0; i < b.size(); ++i) MC_CHECK(f->get_b(i) == b[i], "b%zu", i);
    return f;
}
static void stream(IIRFilter<double>& f, const V& a, const V& b, const V& x, int maxblk) {
    V y = reference(a, b, x);
    for (size_t n = 0; n < x.size();) {
        int blk = range(0, std::min<int>(maxblk, x.size() - n));
        if (!blk) { blk = x.size() - n; }   // the rest in one block
        bool inplace = flip(); note("%s %d", inplace ? "in place" : "out of place", blk);
        V buf(blk + 2, -7), out(blk + 2, -7);
        std::copy_n(x.begin() + n, blk, buf.begin() + 1);
        V in = buf;
        if (inplace) { f.process(buf.begin() + 1, blk); out = buf; }
        else { f.process(buf.data() + 1, blk, out.begin() + 1); MC_CHECK(buf == in, "out of place filtering changed its input"); }
        step();
        MC_CHECK(out[0] == -7 && out[blk + 1] == -7, "wrote outside the block");
        for (int i = 0; i < blk; ++i) MC_CHECK(near(out[i + 1], y[n + i]), "%g at %zu, expected %g", out[i + 1], n + i, y[n + i]);
        n += blk;
        Hash h; h << a << b << x << n; state(h.get());
    }
    outcome((Hash() << y).get());
}
static V coefs(int n, int mode, double s) {   // an impulse at `mode`, or a dense set
    V v(n);
    for (int i = 0; i < n; ++i) v[i] = mode >= n ? s * (i % 2 ? -0.5 : 1) / (i + 1) : i == mode ? s : 0;
    return v;
}
MC_SCENARIO(streams, 4) {
    int K = thorough() ? 5 : 4, N = thorough() ? 8 : 6;
    int na = range(0, K), nb = range(0, K);
    V a = coefs(na, choose(na + 1), 1.5), b = coefs(nb, choose(nb + 1), -0.75);
    V x(N); int p = choose(4);
    if (p < 3) x[p] = 1; else for (int i = 0; i < N; ++i) x[i] = i % 3 - 0.75;
    std::string s; for (double v : a) s += " " + std::to_string(v); s += " |"; for (double v : b) s += " " + std::to_string(v);
    label("coefficients%s", s.c_str());
    auto f = build(choose(3), a, b);
    stream(*f, a, b, x, thorough() ? 3 : 2);
}
MC_SCENARIO(single, 3) {
    int K = thorough() ? 5 : 4, N = 10;
    int na = range(0, K), nb = range(0, K);
    V a = coefs(na, choose(na + 1), 1.5), b = coefs(nb, choose(nb + 1), -0.75);
    V x(N); int p = choose(5); if (p < 4) x[p] = 2; else for (int i = 0; i < N; ++i) x[i] = i % 3 - 0.75;
    label("%d forward, %d feedback", na, nb);
    V y = reference(a, b, x);
    std::deque<double> in(na), out(nb);
    for (int n = 0; n < N; ++n) {
        double g = iir_recursive_single(x[n], in, out, a, b, na, nb); step();
        MC_CHECK(near(g, y[n]), "%g at %d, expected %g", g, n, y[n]);
        MC_CHECK((int)in.size() == na && (int)out.size() == nb, "history of %zu and %zu", in.size(), out.size());
        state((Hash() << a << b << p << n).get());
    }
    outcome((Hash() << y).get());
}
// long streams: no drift, no wrap-around artefacts
MC_SCENARIO(longrun, 2) {
    int na = range(0, 5), nb = range(0, 5);
    label("%d forward, %d feedback", na, nb);
    V a = coefs(na, na, 1), b = coefs(nb, nb, 0.3);
    int N = thorough() ? 400000 : 70000;
    V x(N); for (int i = 0; i < N; ++i) x[i] = (i * 7919LL % 1009) / 504.0 - 1;
    V y = reference(a, b, x);
    auto f = build(choose(3), a, b);
    int blk = pick({1, 480, 70000});
    for (int n = 0; n < N; n += blk) {
        int m = std::min(blk, N - n);
        f->process(x.begin() + n, m); if (!(n & 4095)) step();
        for (int i = 0; i < m; ++i) MC_CHECK(near(x[n + i], y[n + i]), "%g at %d, expected %g", x[n + i], n + i, y[n + i]);
    }
    heartbeat();
    state((Hash() << na << nb << blk).get()); outcome((Hash() << y.back() << na << nb).get());
}
// single pole designs
MC_SCENARIO(singlepole, 3) {
    using dsp::consts::FilterType;
    bool high = flip(), hertz = flip(), again = flip();
    int rate = pick({8000, 44100, 48000}); double frac = choose(thorough() ? 51 : 26) / (thorough() ? 100.0 : 50.0);
    label("%s pass at %g of %d Hz", high ? "high" : "low", frac, rate);
    SinglePole<double> f; f.set_sample_rate(rate); f.set_type(high ? FilterType::HighPass : FilterType::LowPass);
    auto configure = [&](double fr) {
        if (hertz) { if (high) f.set_freq_low(fr * rate); else f.set_freq_high(fr * rate); }
        else { if (high) f.set_frac_low(fr); else f.set_frac_high(fr); }
        MC_CHECK(near(high ? f.get_frac_low() : f.get_frac_high(), fr) && near(high ? f.get_freq_low() : f.get_freq_high(), fr * rate), "cut-off read back");
        BaseIIRImplementation<double>& g = f; g.generate_coefficients();
    };
    if (again) { f.set_type(high ? FilterType::LowPass : FilterType::HighPass); f.set_frac_low(0.3); f.set_frac_high(0.3); f.generate_coefficients(); f.set_type(high ? FilterType::HighPass : FilterType::LowPass); }
    configure(frac);
    double xv = std::exp(-2 * 3.14159265358979323846 * frac);
    V a = high ? V{(1 + xv) / 2, -(1 + xv) / 2} : V{1 - xv}, b = {xv};
    MC_CHECK(f.get_asize() == (int)a.size() && f.get_bsize() == 1, "%d forward and %d feedback coefficients", f.get_asize(), f.get_bsize());
    for (size_t i = 0; i < a.size(); ++i) MC_CHECK(near(f.get_a(i), a[i]), "a%zu is %g, expected %g", i, f.get_a(i), a[i]);
    MC_CHECK(near(f.get_b(0), xv), "b0 is %g, expected %g", f.get_b(0), xv);
    V x(5); int p = choose(3); if (p < 2) x[p] = 1; else x = {1, -1, 0.5, 0, 2};
    stream(f, a, b, x, 2);
}
// (thorough) more samples than a 32 bit counter can tell apart
MC_SCENARIO(days, 1, 3000) {
    V a, b; int kind = choose(2);
    if (kind) { a = {1, 2, 4}; b = {-1}; } else { a = {1}; b = {0, 0, -1}; }   // every value stays an exact small integer
    label("very long stream, %s", kind ? "three forward coefficients" : "three feedback coefficients");
    auto f = build(0, a, b);
    const int B = 1 << 16; V x(B), y, w(B);
    for (int i = 0; i < B; ++i) x[i] = (i * 7 % 13) % 3 - 1;
    x[B - 1] = 0;
    // direct evaluation of one block from the exact state at its start
    V px(3, 0), py(3, 0); const int64_t blocks = thorough() ? (5LL << 30) / B : 64;
    for (int64_t k = 0; k < blocks; ++k) {
        y = x; f->process(y.begin(), B);
        for (int n = 0; n < B; ++n) {
            double v = kind ? x[n] + 2 * (n > 0 ? x[n - 1] : px[0]) + 4 * (n > 1 ? x[n - 2] : px[1 - n]) - (n > 0 ? w[n - 1] : py[0])
                            : x[n] - (n > 2 ? w[n - 3] : py[2 - n]);
            w[n] = v;
        }
        if (std::memcmp(y.data(), w.data(), B * sizeof(double)))
            for (int n = 0; n < B; ++n) MC_CHECK(y[n] == w[n], "%g at sample %lld, expected %g", y[n], (long long)(k * B + n), w[n]);
        for (int i = 0; i < 3; ++i) { px[i] = x[B - 1 - i]; py[i] = w[B - 1 - i]; }
        if (!(k & 1023)) { heartbeat(); step(); }
    }
    outcome((Hash() << kind << w).get());
}
