// L01: every convolution routine computes the mathematical convolution.
#include <cmath>
#include <numeric>
#include "mc.hpp"
#include "scale.hpp"
#include "dsp/conv.hpp"
using namespace mc;
using V = std::vector<double>;
static V reference(const V& x, const V& h) {
    V y(x.size() + h.size() - 1);
    for (size_t n = 0; n < y.size(); ++n) {
        long double s = 0;
        for (size_t k = 0; k < h.size(); ++k) if (n >= k && n - k < x.size()) s += (long double)h[k] * x[n - k];
        y[n] = s;
    }
    return y;
}
static const char* NAME[] = {"input_conv(sizes)", "input_conv(iterators)", "input_conv(buffers)", "output_conv(sizes)", "output_conv(iterators)", "output_conv(buffers)",
                             "input_conv(pointers)", "output_conv(pointers)", "input_conv(buffer iterators)", "output_conv(buffer iterators)", "conv_fft"};
static const int ROUTINES = 11;
static V run(int r, const V& x, const V& h) {
    using namespace dsp::conv;
    const size_t n = x.size() + h.size() - 1;
    MC_CHECK(length_conv((int)x.size(), (int)h.size()) == (int)n && length_conv(x.size(), h.size()) == (int)n, "length_conv(%zu, %zu)", x.size(), h.size());
    V xi = x, hi = h;
    V out(n + 4, 0);   // two guard samples on each side
    out[0] = out[1] = out[n + 2] = out[n + 3] = 77;
    auto o = out.begin() + 2;
    AudioBuffer bx(xi), bh(hi);
    switch (r) {
    case 0: input_conv(xi.begin(), xi.size(), hi.begin(), hi.size(), o); break;
    case 1: input_conv(xi.begin(), xi.end(), hi.begin(), hi.end(), o); break;
    case 3: output_conv(xi.begin(), xi.size(), hi.begin(), hi.size(), o); break;
    case 4: output_conv(xi.begin(), xi.end(), hi.begin(), hi.end(), o); break;
    case 2: case 5: {
        auto p = r == 2 ? input_conv(std::make_unique<AudioBuffer>(xi), std::make_unique<AudioBuffer>(hi)) : output_conv(std::make_unique<AudioBuffer>(xi), std::make_unique<AudioBuffer>(hi));
        MC_CHECK(p && p->size() == n, "%s: %zu samples, expected %zu", NAME[r], p ? p->size() : 0, n);
        V y; for (size_t i = 0; i < n; ++i) y.push_back(p->at(i));
        return y; }
    case 6: input_conv((const double*)xi.data(), xi.size(), (const double*)hi.data(), hi.size(), out.data() + 2); break;
    case 7: output_conv((const double*)xi.data(), xi.size(), (const double*)hi.data(), hi.size(), out.data() + 2); break;
    case 8: input_conv(bx.ibegin(), bx.size(), bh.sbegin(), bh.size(), o); break;
    case 9: output_conv(bx.sbegin(), bx.size(), bh.ibegin(), bh.size(), o); break;
    case 10: conv_fft(xi.begin(), (int)xi.size(), hi.begin(), (int)hi.size(), o); break;
    }
    MC_CHECK(xi == x && hi == h, "%s modified its input", NAME[r]);
    for (size_t i = 0; i < x.size(); ++i) MC_CHECK(bx.at(i) == x[i], "%s modified its input", NAME[r]);
    for (size_t i = 0; i < h.size(); ++i) MC_CHECK(bh.at(i) == h[i], "%s modified its input", NAME[r]);
    MC_CHECK(out[0] == 77 && out[1] == 77 && out[n + 2] == 77 && out[n + 3] == 77, "%s wrote outside its result", NAME[r]);
    return V(out.begin() + 2, out.begin() + 2 + n);
}
static void compare(const V& x, const V& h, bool swap) {
    V want = reference(x, h);
    double scale = 1;
    for (double a : x) scale += std::fabs(a);
    double hs = 1; for (double a : h) hs += std::fabs(a);
    scale *= hs;
    for (int r = 0; r < ROUTINES; ++r) for (int s = 0; s <= swap; ++s) {
        V y = s ? run(r, h, x) : run(r, x, h); step();
        for (size_t i = 0; i < want.size(); ++i)
            MC_CHECK(std::fabs(y[i] - want[i]) <= scale * 1e-13, "%s%s: %g at %zu of %zu*%zu samples, expected %g", NAME[r], s ? " exchanged" : "", y[i], i, x.size(), h.size(), want[i]);
    }
    Hash hh; hh << want.size(); for (double w : want) hh << w;
    state((Hash() << x << h).get()); outcome(hh.get());
}
// complete by bilinearity: every pair of unit impulses
MC_SCENARIO(impulses, 3) {
    int N = thorough() ? 20 : 10;
    V x(range(1, N)), h(range(1, N));
    label("%zu samples, kernel of %zu", x.size(), h.size());
    x[choose(x.size())] = pick({1.0, -2.5}); h[choose(h.size())] = 3;
    compare(x, h, true);
}
// all contents over {-1, 0, 2}
MC_SCENARIO(contents, 4) {
    int N = thorough() ? 5 : 4;
    V x(range(1, N)), h(range(1, std::min(N, 4)));
    label("%zu samples, kernel of %zu", x.size(), h.size());
    for (auto& v : x) v = pick({0.0, 2.0, -1.0});
    for (auto& v : h) v = pick({0.0, 2.0, -1.0});
    compare(x, h, false);
}
// every pair of lengths, dense contents
MC_SCENARIO(lengths, 2) {
    int N = thorough() ? 150 : 70;
    V x(range(1, N)), h(range(1, N));
    label("%zu samples, kernel of %zu", x.size(), h.size());
    for (size_t i = 0; i < x.size(); ++i) x[i] = double((i * 7919 + 13) % 101) / 10 - 5;
    for (size_t i = 0; i < h.size(); ++i) h[i] = double((i * 104729 + 7) % 97) / 8 - 6;
    compare(x, h, true);
}
// lengths beyond the dense square, including very unequal ones
MC_SCENARIO(scale_lengths, 2) {
    int a = scale::frames(), b = pick({1, 2, 3, 7, 8, 16, 33, 64, 100, 129, 256, 513, 1000, 1024});
    if ((long)a * b > (thorough() ? 300000 : 40000) || a > (thorough() ? 140000 : 10000)) prune();
    V x(a), h(b);
    label("%d samples, kernel of %d", a, b);
    for (size_t i = 0; i < x.size(); ++i) x[i] = double((i * 7919 + 13) % 101) / 10 - 5;
    for (size_t i = 0; i < h.size(); ++i) h[i] = double((i * 104729 + 7) % 97) / 8 - 6;
    compare(x, h, true);
}
