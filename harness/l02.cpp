// L02: block-wise filtering equals filtering the whole stream at once.
#include <cmath>
#include <memory>
#include "mc.hpp"
#include "scale.hpp"
#include "filter_module.hpp"
#include "sink_module.hpp"
#include "source_module.hpp"
using namespace mc;
using V = std::vector<double>;
using dsp::consts::FilterType;
static const double PI = 3.141592653589793238462643383279502884;
struct Feed : SourceModule {
    AudioBuffer next;
    void process() override { this->set_buffer(AudioBuffer(next)); }
};
// a user's filters: a kernel set by hand, a kernel generated at start
template <maecm B = BaseModule*> struct Plain : BaseConvFilter<Plain<B>, B> {};
struct Made : BaseConvFilter<> {
    V want; int made = 0;
    void generate_kernel() override { ++made; set_kernel(std::make_unique<AudioBuffer>(want)); }
};
static V conv(const V& x, const V& h) {    // leading part
    V y(x.size());
    for (size_t n = 0; n < x.size(); ++n) for (size_t k = 0; k < h.size() && k <= n; ++k) y[n] += h[k] * x[n - k];
    return y;
}
static bool near(double g, double w) { return std::fabs(g - w) <= 1e-9 * (1 + std::fabs(w)); }
static V content(int L, int mode, int salt) {    // an impulse, or a dense signal
    V v(L);
    if (mode < L) v[mode] = 1.5 + salt; else for (int i = 0; i < L; ++i) v[i] = (i * 5 + 3 * salt) % 7 - 2.75;
    return v;
}
// feeds x (per channel) through the chain in every division into blocks; compares with y
template <class S, class F> static void feed(S& sink, F& src, const std::vector<V>& x, const std::vector<V>& y, int minblk, int maxblk, double rate, const char* what) {
    const int C = x.size(), L = x[0].size(); int n = 0, empties = 0;
    while (n < L) {
        int blk = range(minblk, std::min(maxblk, L - n));
        if (!blk && ++empties > 1) prune();
        note("%s: %d frames", what, blk);
        AudioBuffer b(blk, C); b.set_samplerate(rate);
        for (int i = 0; i < blk; ++i) for (int c = 0; c < C; ++c) b.at(c, i) = x[c][n + i];
        src.next = b;
        sink.meta_process(); step();
        AudioBuffer o = sink.get_buffer();
        MC_CHECK((int)o.size() == blk * C, "%s: %zu samples for %d frames of %d channels", what, o.size(), blk, C);
        if (blk) {
            MC_CHECK((int)o.channels() == C, "%s: %zu channels, fed %d", what, o.channels(), C);
            MC_CHECK(o.get_samplerate() == rate, "%s: sample rate %g, fed %g", what, o.get_samplerate(), rate);
        }
        for (int i = 0; i < blk; ++i) for (int c = 0; c < C; ++c)
            MC_CHECK(near(o.at(c, i), y[c][n + i]), "%s: %g at frame %d channel %d, expected %g", what, o.at(c, i), n + i, c, y[c][n + i]);
        n += blk;
    }
}
static void configure(SinkModule<>& sink, int ch, int frames, double rate) {
    auto* ci = sink.get_chain_info(); ci->channels = ch; ci->buffer_size = frames; ci->sample_rate = rate;
    sink.meta_info_sync();
}
MC_SCENARIO(partitions, 4) {
    const int K = thorough() ? 6 : 5, L = thorough() ? 8 : 6;
    int ch = range(1, 2), kn = range(1, K);
    V k = content(kn, choose(kn + 1), 0);
    std::vector<V> x, y;
    int mode = choose(L + 1);
    for (int c = 0; c < ch; ++c) { x.push_back(content(L, c && mode < L ? (mode + 1) % L : mode, c)); y.push_back(conv(x[c], k)); }
    label("kernel of %d, %d channels, mode %d", kn, ch, mode);
    SinkModule<> sink; Feed src; Plain<> fl; Made mk;
    int how = choose(2);
    if (how) { mk.want = k; sink.link(&mk)->link(&src); } else { sink.link(&fl)->link(&src); fl.set_kernel(std::make_unique<AudioBuffer>(k)); }
    configure(sink, ch, 4, 8000);
    sink.meta_start();
    feed(sink, src, x, y, 0, thorough() ? L : 4, 22050, "stream");
    state((Hash() << x[0] << k << ch).get());
    outcome((Hash() << y[0] << ch).get());
}
// a session started again begins with cleared state, in whatever format
MC_SCENARIO(sessions, 4) {
    const bool three = thorough() && flip(); const int L = three ? 3 : thorough() ? 6 : 4;
    int kn = range(2, thorough() ? 5 : 4);
    V k = content(kn, kn, 0);
    SinkModule<> sink; Feed src; Plain<> fl; Made mk;
    int how = choose(2);
    if (how) { mk.want = k; sink.link(&mk)->link(&src); } else { sink.link(&fl)->link(&src); fl.set_kernel(std::make_unique<AudioBuffer>(k)); }
    configure(sink, 1, 4, 8000);
    int S = three ? 3 : 2;
    for (int s = 0; s < S; ++s) {
        int ch = range(1, 2); int mode = pick({L, 0, L - 1});
        if (s) { switch (choose(3)) { case 0: sink.meta_stop(); break; case 1: break; case 2: sink.meta_stop(); configure(sink, ch, 3, 16000); } }
        if (how) { mk.want = k = content(range(1, 3), 5, s); }    // another kernel is generated
        sink.meta_start();
        std::vector<V> x, y; for (int c = 0; c < ch; ++c) { x.push_back(content(L, mode, c + s)); y.push_back(conv(x[c], k)); }
        char t[32]; snprintf(t, 32, "session %d", s);
        feed(sink, src, x, y, 1, L, 8000 + s, t);
        state((Hash() << s << ch << mode << k).get());
        outcome((Hash() << y[0] << ch).get());
    }
}
// the kernel or the format changes while the stream runs: what has gone in rings out with the kernel it met,
// a change of the channel count starts from silence
MC_SCENARIO(changes, 4) {
    SinkModule<> sink; Feed src; Plain<> fl; sink.link(&fl)->link(&src);
    configure(sink, 1, 4, 8000);
    const int N = thorough() ? 5 : 4, T = 64; int ch = 1; V k; std::vector<V> out(2, V(T)); int n = 0;
    for (int b = 0; b < N; ++b) {
        int kn = b && flip() ? 0 : pick({1, 2, 5}); if (kn) { k = content(kn, kn, b); fl.set_kernel(std::make_unique<AudioBuffer>(k)); }
        if (!b) sink.meta_start();
        int nc = b && flip() ? 3 - ch : ch, blk = pick({0, 1, 2, 4});
        note("block %d: %d frames, %d channels, kernel of %d", b, blk, nc, (int)k.size());
        if (blk && nc != ch) { for (auto& o : out) std::fill(o.begin(), o.end(), 0); }
        if (blk) ch = nc;
        AudioBuffer in(blk, nc);
        for (int i = 0; i < blk; ++i) for (int c = 0; c < nc; ++c) { double v = (n + i) * 5 % 7 - 2.5 + c; in.at(c, i) = v; for (size_t j = 0; j < k.size(); ++j) out[c][n + i + j] += k[j] * v; }
        src.next = in; sink.meta_process(); step();
        AudioBuffer o = sink.get_buffer();
        MC_CHECK((int)o.size() == blk * nc, "%zu samples for %d frames of %d channels", o.size(), blk, nc);
        for (int i = 0; i < blk; ++i) for (int c = 0; c < nc; ++c) MC_CHECK(near(o.at(c, i), out[c][n + i]), "%g at frame %d channel %d, expected %g", o.at(c, i), n + i, c, out[c][n + i]);
        n += blk;
        state((Hash() << b << n << ch << k << out[0] << out[1]).get());
    }
    outcome((Hash() << out[0] << n << ch).get());
}
// two filters in series, static dispatch with the source embedded
MC_SCENARIO(series, 3) {
    const int L = thorough() ? 8 : 6;
    int a = range(1, 4), b = range(1, 4), ch = range(1, 2);
    V ka = content(a, choose(a + 1), 0), kb = content(b, b, 1);
    label("kernels of %d and %d", a, b);
    SinkModule<> sink; Plain<> second; Plain<Feed> first;
    first.set_kernel(std::make_unique<AudioBuffer>(ka)); second.set_kernel(std::make_unique<AudioBuffer>(kb));
    sink.link(&second)->link(&first);
    configure(sink, ch, 4, 8000); sink.meta_start();
    std::vector<V> x, y; for (int c = 0; c < ch; ++c) { x.push_back(content(L, L, c)); y.push_back(conv(conv(x[c], ka), kb)); }
    feed(sink, first.backward(), x, y, 0, L, 48000, "stream");
    state((Hash() << ka << kb << ch).get()); outcome((Hash() << y[0]).get());
}
// sinc kernels as configured
static V lowpass(double f, int n) {
    V k(n); double sum = 0; int c = (n - 1) / 2;
    for (int i = 0; i < n; ++i) {
        double x = 2 * PI * f * (i - c), w = n == 1 ? 1 : 0.42 - 0.5 * std::cos(2 * PI * i / (n - 1)) + 0.08 * std::cos(4 * PI * i / (n - 1));
        k[i] = (x == 0 ? 1 : std::sin(x) / x) * w; sum += k[i];
    }
    for (double& v : k) v /= sum;
    return k;
}
static V inverted(V k) { for (double& v : k) v = -v; k[k.size() / 2] += 1; return k; }
static V design(FilterType t, double f0, double f1, int n) {
    V a = lowpass(f0, n);
    if (t == FilterType::LowPass) return a;
    if (t == FilterType::HighPass) return inverted(a);
    V h = inverted(lowpass(f1, n));
    for (int i = 0; i < n; ++i) a[i] += h[i];
    return t == FilterType::BandReject ? a : inverted(a);
}
static const char* const TN[] = {"low pass", "high pass", "band pass", "band reject"};
template <class Fl> static void setup(Fl& f, int t, double f0, double f1, int n) {
    f.set_type((FilterType)t); f.set_start_freq(f0); f.set_stop_freq(f1); if (f.get_size() != n || flip()) f.set_size(n);
    MC_CHECK(f.get_type() == (FilterType)t && f.get_start_freq() == f0 && f.get_stop_freq() == f1 && f.get_size() == n, "settings read back");
}
template <class S, class Fl, class Src> static void sinc_run(S& sink, Fl& f, Src& src, bool deflt) {
    int t = choose(4), n = pick({51, 1, 3, 21}); double rate = pick({44100., 8000.});
    double f0 = rate * pick({0.1003, 0.0, 0.05, 0.25}), f1 = rate * pick({0.3, 0.5});
    if (t < 2 && f1 != rate * 0.3) prune();
    if (deflt) { t = 0; f0 = f1 = 0; n = 51; MC_CHECK(f.get_type() == FilterType::LowPass && f.get_size() == 51 && f.get_start_freq() == 0, "default settings"); }
    bool again = !deflt && flip(), early = flip();
    label("%s %g..%g Hz, %d points at %g Hz%s", TN[t], f0, f1, n, rate, again ? ", configured twice" : "");
    if (again) {    // an earlier session with other settings leaves no trace
        setup(f, (t + 1 + choose(3)) % 4, f1, f0, 5); configure(sink, 1, 4, 16000); sink.meta_start();
        V x = content(7, 7, 0); auto y = conv(x, design(f.get_type(), f1 / 16000, f0 / 16000, 5));
        feed(sink, src, {x}, {y}, 7, 7, 16000, "first session"); sink.meta_stop();
    }
    if (early && !deflt) setup(f, t, f0, f1, n);
    configure(sink, 1, 4, rate);
    if (!early && !deflt) setup(f, t, f0, f1, n);
    sink.meta_start();
    V k = design((FilterType)t, f0 / rate, f1 / rate, n);
    V x(n + 6); x[0] = 1; x[2] = -2; V y = conv(x, k);
    int b = pick({9, n + 6});
    for (int pos = 0; pos < (int)x.size(); pos += b) {
        int m = std::min(b, (int)x.size() - pos);
        src.next = AudioBuffer(V(x.begin() + pos, x.begin() + pos + m)); src.next.set_samplerate(rate);
        sink.meta_process(); step(); AudioBuffer o = sink.get_buffer();
        MC_CHECK((int)o.size() == m, "%zu samples of %d", o.size(), m);
        for (int i = 0; i < m; ++i) MC_CHECK(near(o.at(i), y[pos + i]), "response %g at %d, expected %g", o.at(i), pos + i, y[pos + i]);
    }
    sink.meta_stop();
    auto kp = f.get_kernel();
    MC_CHECK(kp && (int)kp->size() == n, "kernel of %zu points", kp ? kp->size() : 0);
    for (int i = 0; i < n; ++i) MC_CHECK(near(kp->at(i), k[i]), "kernel %g at %d, expected %g", kp->at(i), i, k[i]);
    state((Hash() << t << n << rate << f0 << f1).get()); outcome((Hash() << k).get());
}
MC_SCENARIO(sinc, 3) { SinkModule<> sink; SincFilter<> f; Feed src; sink.link(&f)->link(&src); sinc_run(sink, f, src, false); }
MC_SCENARIO(sinc_embedded, 3) { SinkModule<> sink; SincFilter<Feed> f; sink.link(&f); sinc_run(sink, f, f.backward(), false); }
MC_SCENARIO(sinc_default, 2) { SinkModule<> sink; SincFilter<> f; Feed src; sink.link(&f)->link(&src); sinc_run(sink, f, src, true); }
struct Built : BaseFilter<> { using BaseFilter<>::BaseFilter; };
MC_SCENARIO(settings, 2) {
    int t = choose(4); double a = pick({0., 50.3, 1e4}), b = pick({0., 77.7});
    BaseFilter<> f((FilterType)t, a, b);
    MC_CHECK(f.get_type() == (FilterType)t && f.get_start_freq() == a && f.get_stop_freq() == b, "constructed settings");
    outcome((Hash() << t << a << b).get()); step();
}
// kernels and blocks of any size
MC_SCENARIO(scale_blocks, 3) {
    int kn = pick({1, 2, 7, 8, 9, 16, 33, 51, 64, 100, 129, 256, 300, 513}), blk = scale::frames(), ch = pick({1, 2, 3, 8});
    if ((long)kn * blk * ch > (thorough() ? 4000000 : 300000) && !(kn == 7 && ch == 1)) prune();
    V k(kn); for (int i = 0; i < kn; ++i) k[i] = ((i * 37 + 5) % 19 - 9) / 8.0 + 0.1;
    label("kernel of %d, blocks of %d, %d channels", kn, blk, ch);
    SinkModule<> sink; Feed src; Plain<> fl; Made mk;
    int how = choose(2);
    if (how) { mk.want = k; sink.link(&mk)->link(&src); } else { sink.link(&fl)->link(&src); fl.set_kernel(std::make_unique<AudioBuffer>(k)); }
    configure(sink, ch, blk, 48000);
    std::vector<int> B{blk, 1, blk, kn, 3};
    long L = 0; for (int b : B) L += b;
    std::vector<V> x(ch), y(ch);
    for (int c = 0; c < ch; ++c) { for (long i = 0; i < L; ++i) x[c].push_back(((i * 7919 + c * 31) % 101) / 16.0 - 3); y[c] = conv(x[c], k); }
    double tol = 0; for (double v : k) tol += std::fabs(v); tol = 1e-11 * (1 + tol * 4);
    for (int s = 0; s < 2; ++s) {
        if (s && blk > 2000) break;
        sink.meta_start();
        long n = 0;
        for (int b : B) {
            AudioBuffer in(b, ch); in.set_samplerate(48000);
            for (int i = 0; i < b; ++i) for (int c = 0; c < ch; ++c) in.at(c, i) = x[c][n + i];
            src.next = in;
            sink.meta_process(); step();
            AudioBuffer o = sink.get_buffer();
            MC_CHECK((long)o.size() == (long)b * ch && (int)o.channels() == ch, "%zu samples for %d frames", o.size(), b);
            for (int i = 0; i < b; ++i) for (int c = 0; c < ch; ++c) MC_CHECK(std::fabs(o.at(c, i) - y[c][n + i]) <= tol, "%.12g at frame %ld channel %d, expected %.12g", o.at(c, i), n + i, c, y[c][n + i]);
            n += b;
        }
        sink.meta_stop();
    }
    outcome((Hash() << kn << blk << ch << how).get());
}
MC_SCENARIO(scale_sinc, 3) {
    SinkModule<> sink; SincFilter<> f; Feed src; sink.link(&f)->link(&src);
    int t = choose(4), n = pick({5, 9, 31, 63, 65, 101, 127, 129, 255, 257, 501, 1001}); double rate = pick({44100., 192000.});
    double f0 = rate * pick({0.0113, 0.2007}), f1 = rate * 0.3999;
    label("%s %g..%g Hz, %d points at %g Hz", TN[t], f0, f1, n, rate);
    f.set_type((FilterType)t); f.set_start_freq(f0); f.set_stop_freq(f1); f.set_size(n);
    configure(sink, 1, 4, rate); sink.meta_start();
    V k = design((FilterType)t, f0 / rate, f1 / rate, n), x(n + 6); x[0] = 1; x[2] = -2; V y = conv(x, k);
    int b = pick({64, n + 6});
    for (int pos = 0; pos < (int)x.size(); pos += b) {
        int m = std::min(b, (int)x.size() - pos);
        src.next = AudioBuffer(V(x.begin() + pos, x.begin() + pos + m)); src.next.set_samplerate(rate);
        sink.meta_process(); step(); AudioBuffer o = sink.get_buffer();
        MC_CHECK((int)o.size() == m, "%zu samples of %d", o.size(), m);
        for (int i = 0; i < m; ++i) MC_CHECK(near(o.at(i), y[pos + i]), "response %g at %d, expected %g", o.at(i), pos + i, y[pos + i]);
    }
    outcome((Hash() << k).get());
}
