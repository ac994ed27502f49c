// A04: what a chain renders does not depend on the block size, nor on transparent stages.
#include <cmath>
#include <memory>
#include "mc.hpp"
#include "scale.hpp"
#include "kwav.hpp"
#include "amp_module.hpp"
#include "envelope.hpp"
#include "filter_module.hpp"
#include "fund_oscillator.hpp"
#include "io/wav.hpp"
#include "meta_audio.hpp"
#include "module_mixer.hpp"
#include "sink_module.hpp"
using namespace mc;
using V = std::vector<double>;    // one channel
static const double PI = 3.141592653589793238462643383279502884, RATE = 8000;
struct Sink : SinkModule<> { AudioBuffer got; void process() override { got = buff; } };
struct Kernel : BaseConvFilter<> { V want; void generate_kernel() override { set_kernel(std::make_unique<AudioBuffer>(want)); } };
// a source of the user's own: frame n of channel c is fixed
struct Ticks : SourceModule { int n = 0; void process() override { reserve(); for (size_t i = 0; i < buff.size(); ++i) { int c = i % buff.channels(); buff.at(i) = tick(n, c); if (c + 1 == (int)buff.channels()) ++n; } } static double tick(int n, int c) { return (n * 7 + c * 3) % 5 - 1.5; } };
// the same source, asking for its block in terms of frames and channels
struct Sized : SourceModule { int n = 0; void process() override { auto* i = get_info(); reserve(i->out_buffer, i->channels); buff.set_samplerate(i->sample_rate); for (auto& s : buff) s = 0; for (int k = 0; k < i->out_buffer; ++k, ++n) for (int c = 0; c < i->channels; ++c) buff.at(c, k) = Ticks::tick(n, c); } };
struct Graph {    // owns everything
    std::vector<std::unique_ptr<BaseModule>> own; std::vector<std::unique_ptr<CharIStream>> st;
    template <class T, class... A> T* make(A&&... a) { auto p = new T(std::forward<A>(a)...); own.emplace_back(p); return p; }
};
using Sig = std::vector<V>;
static const char* const SRC[] = {"constant", "sine", "square", "saw", "triangle", "ramp", "envelope chain", "wave file", "FM oscillator", "user source", "sized source"};
enum { NSRC = 11 };
static void timer(ChainTimer* t, int ch) { t->set_samplerate(8000); t->set_channels(ch); }
static BaseModule* source(Graph& g, int kind, int ch, int N, Sig& y) {
    y.assign(ch, V(N));
    auto all = [&](auto f) { for (int c = 0; c < ch; ++c) for (int n = 0; n < N; ++n) y[c][n] = f(n); };
    const int64_t npf = 125000;
    switch (kind) {
    case 0: all([](int) { return 0.75; }); return g.make<ConstModule>(0.75);
    case 1: all([](int n) { return std::sin(2 * PI * n / 8); }); return g.make<SineOscillator>(1000);
    case 2: all([](int n) { return n % 8 < 4 ? 1. : -1.; }); return g.make<SquareOscillator>(1000);
    case 3: all([](int n) { double x = n / 8. + .5; return 2 * (x - std::floor(x)) - 1; }); return g.make<SawtoothOscillator>(1000);
    case 4: all([](int n) { double f = n / 8. - n / 8; return f < .25 ? 4 * f : f > .75 ? 4 * (f - 1) : 4 * (.5 - f); }); return g.make<TriangleOscillator>(1000);
    case 5: {
        auto e = g.make<LinearRamp>(); e->set_start_value(-1); e->set_stop_value(3); e->set_start_time(0); e->set_stop_time(100 * npf); timer(e->get_timer(), ch);
        all([](int n) { return -1 + 4 * n / 100.; }); return e;
    }
    case 6: {
        auto e = g.make<ChainEnvelope>(); timer(e->get_timer(), ch);
        auto ramp = new LinearRamp; ramp->set_start_value(0); ramp->set_stop_value(1); ramp->set_start_time(0); ramp->set_stop_time(4 * npf);
        auto hold = new ConstantEnvelope; hold->set_start_value(0.5); hold->set_stop_value(0.5); hold->set_start_time(4 * npf); hold->set_stop_time(64 * npf);
        e->add_envelope(ramp); e->add_envelope(hold); g.own.emplace_back(ramp); g.own.emplace_back(hold);
        all([](int n) { return n < 4 ? n / 4. : .5; }); return e;
    }
    case 7: {
        kwav::Spec s; s.channels = ch; s.rate = 8000; s.frames = N; auto w = kwav::build(s);
        auto st = std::make_unique<CharIStream>(); st->get_array() = w.b;
        auto m = g.make<WaveSource>(); m->set_stream(st.get()); g.st.push_back(std::move(st));
        for (int c = 0; c < ch; ++c) for (int n = 0; n < N; ++n) y[c][n] = kwav::decode(w.raw[n * ch + c], 16);
        return m;
    }
    case 8: {
        auto o = g.make<ModSineOscillator>(); auto f = g.make<SineOscillator>(2000); auto sc = g.make<AmplitudeScale<>>(100.); auto ad = g.make<AmplitudeAdd<>>(500.);
        ad->link(sc); sc->link(f); o->get_frequency()->link(ad);
        double x = 0; V v(N);
        for (int n = 0; n < N; ++n) { v[n] = std::sin(2 * PI * x); x += (500 + 100 * std::sin(2 * PI * n / 4)) / RATE; }
        all([&](int n) { return v[n]; }); return o;
    }
    default: for (int c = 0; c < ch; ++c) for (int n = 0; n < N; ++n) y[c][n] = Ticks::tick(n, c); if (kind == 10) return g.make<Sized>(); return g.make<Ticks>();
    }
}
static V conv(const V& x, const V& h) { V y(x.size()); for (size_t n = 0; n < x.size(); ++n) for (size_t k = 0; k < h.size() && k <= n; ++k) y[n] += h[k] * x[n - k]; return y; }
static V sinc(double f, int n, bool high) {
    V k(n); double s = 0; int c = (n - 1) / 2;
    for (int i = 0; i < n; ++i) { double x = 2 * PI * f * (i - c), w = .42 - .5 * std::cos(2 * PI * i / (n - 1)) + .08 * std::cos(4 * PI * i / (n - 1)); s += k[i] = (x == 0 ? 1 : std::sin(x) / x) * w; }
    for (double& v : k) v /= s;
    if (high) { for (double& v : k) v = -v; k[n / 2] += 1; }
    return k;
}
static const char* const STG[] = {"scale", "offset", "low pass", "high pass", "kernel", "counter", "latency", "re-blocker", "mixer of one", "mixer of two", "fan-out", "multi mixer", "mixer of three"};
enum { NSTG = 13 };
// a stage in front of `back`; y becomes its output
static BaseModule* stage(Graph& g, int kind, BaseModule* back, int ch, int N, Sig& y, std::vector<Counter*>& counters) {
    auto each = [&](auto f) { for (auto& v : y) for (double& s : v) s = f(s); };
    auto filt = [&](const V& k) { for (auto& v : y) v = conv(v, k); };
    auto in = [&](auto* m) { m->link(back); return m; };
    switch (kind) {
    case 0: each([](double s) { return s * -2.5; }); return in(g.make<AmplitudeScale<>>(-2.5));
    case 1: each([](double s) { return s + .25; }); return in(g.make<AmplitudeAdd<>>(.25));
    case 2: case 3: {
        auto f = in(g.make<SincFilter<>>()); f->set_type(kind == 2 ? dsp::consts::FilterType::LowPass : dsp::consts::FilterType::HighPass);
        f->set_start_freq(800); f->set_size(kind == 2 ? 5 : 3); filt(sinc(.1, kind == 2 ? 5 : 3, kind == 3)); return f;
    }
    case 4: { auto f = in(g.make<Kernel>()); f->want = {.5, 0, -2}; filt(f->want); return f; }
    case 5: { auto c = in(g.make<Counter>()); counters.push_back(c); return c; }
    case 6: return in(g.make<LatencyModule>());
    case 7: return in(g.make<UniformBuffer>());
    case 8: return in(g.make<ModuleMixDown>());
    case 9: { auto m = in(g.make<ModuleMixDown>()); auto o = g.make<SineOscillator>(1000); m->link(o); for (auto& v : y) for (int n = 0; n < N; ++n) v[n] += std::sin(2 * PI * n / 8); return m; }
    case 10: return in(g.make<ModuleMixUp>());
    case 11: return in(g.make<MultiMix>());
    default: {    // the first input is another branch with a stage of its own
        auto m = g.make<ModuleMixDown>(); auto a = g.make<AmplitudeScale<>>(3.); auto t = g.make<Ticks>(); auto k = g.make<ConstModule>(-.125);
        a->link(t); m->link(a); m->link(back); m->link(k);
        for (int c = 0; c < ch; ++c) for (int n = 0; n < N; ++n) y[c][n] += 3 * Ticks::tick(n, c) - .125;
        return m;
    }
    }
}
static void render(Sink& s, int ch, const Sig& y, const std::vector<int>& blocks, std::vector<Counter*>& counters) {
    auto* ci = s.get_chain_info(); ci->channels = ch; ci->sample_rate = RATE;
    int n = 0, p = 0, last = -1; const int N = y[0].size();
    for (int b : blocks) {
        if (b != last) { ci->buffer_size = b; s.meta_info_sync(); last = b; }
        if (!p) s.meta_start();
        s.meta_process(); step(); ++p;
        MC_CHECK((int)s.got.size() == b * ch, "block of %zu samples at frame %d, configured for %d frames of %d channels", s.got.size(), n, b, ch);
        MC_CHECK((int)s.got.channels() == ch && s.got.get_samplerate() == RATE, "block carries %d channels at %g", (int)s.got.channels(), s.got.get_samplerate());
        for (int i = 0; i < b && n + i < N; ++i) for (int c = 0; c < ch; ++c) {
            double w = y[c][n + i], g = s.got.at(c, i), h = s.got.at(i * ch + c);
            MC_CHECK(std::fabs(g - w) <= 1e-9 * (1 + std::fabs(w)) && g == h, "frame %d channel %d (frame %d of a block of %d) is %.12g, the signal is %.12g", n + i, c, i, b, g, w);
        }
        n += b;
        for (auto* k : counters) MC_CHECK(k->processed() == p && k->samples() == n * ch, "counter saw %d blocks, %d samples after %d blocks of %d samples in total", k->processed(), k->samples(), p, n * ch);
    }
    s.meta_stop();
}
static std::vector<int> blocks(int N, std::initializer_list<int> sizes) {
    std::vector<int> v; int n = 0;
    while (n < N) { std::vector<int> ok; for (int b : sizes) if (n + b <= N) ok.push_back(b); int b = ok[choose(ok.size())]; v.push_back(b); n += b; }
    std::string t; for (int b : v) t += " " + std::to_string(b); addlabel(" blocks%s", t.c_str());
    return v;
}
static void run(int src, const std::vector<int>& st, int ch, int N, const std::vector<int>& bl) {
    Graph g; Sink s; Sig y; std::vector<Counter*> counters;
    BaseModule* m = source(g, src, ch, N, y);
    for (int k : st) m = stage(g, k, m, ch, N, y, counters);
    s.link(m);
    render(s, ch, y, bl, counters);
    Hash h; for (auto& v : y) h << v; state((h << src << st << bl << ch).get());
    Hash o; for (auto& v : y) o << v; outcome(o.get());
}
static std::string name(int src, const std::vector<int>& st, int ch) { std::string t = SRC[src]; for (int k : st) t += std::string(" > ") + STG[k]; return t + (ch == 1 ? ", mono" : ch == 2 ? ", stereo" : ", 3 channels"); }
// every chain of up to two stages under every division of 6 frames
MC_SCENARIO(divisions, 3) {
    int src = choose(NSRC), len = choose(thorough() ? 4 : 3), ch = range(1, thorough() && len < 3 ? 3 : 2); std::vector<int> st;
    for (int i = 0; i < len; ++i) st.push_back(choose(NSTG));
    label("%s", name(src, st, ch).c_str());
    const int N = thorough() && len < 3 ? 8 : 6;
    run(src, st, ch, N, blocks(N, {1, 2, 3, 4, 7}));
}
static const std::vector<int> PATTERNS[] = {{1, 1, 1, 1, 1, 1, 1, 1}, {3, 3, 2}, {1, 5, 2}, {8}, {4, 1, 3}};
// every chain of three stages under constant and alternating block sizes
MC_SCENARIO(long_chains, 3) {
    int src = choose(NSRC), ch = range(1, 2), len = thorough() ? range(3, 4) : 3; std::vector<int> st;
    for (int i = 0; i < len; ++i) st.push_back(choose(NSTG));
    auto& bl = PATTERNS[choose(thorough() ? 5 : 3)];
    label("%s in %zu blocks", name(src, st, ch).c_str(), bl.size());
    run(src, st, ch, 8, bl);
}
// every pair of branches (source and stage each) merged, with a stage behind the merge
MC_SCENARIO(merges, 3) {
    int s1 = choose(NSRC), a1 = choose(NSTG), s2 = choose(NSRC), a2 = choose(NSTG), ch = range(1, 2), kind = choose(2), tail = thorough() ? choose(NSTG) : pick({0, 4});
    auto& bl = PATTERNS[choose(thorough() ? 5 : 2) + (thorough() ? 0 : 1)];
    label("merge of (%s) and (%s) > %s, %d channels, %zu blocks", name(s1, {a1}, ch).c_str(), name(s2, {a2}, ch).c_str(), STG[tail], ch, bl.size());
    Graph g; Sink s; Sig y, z; std::vector<Counter*> counters; const int N = 8;
    BaseModule* l = stage(g, a1, source(g, s1, ch, N, y), ch, N, y, counters);
    BaseModule* r = stage(g, a2, source(g, s2, ch, N, z), ch, N, z, counters);
    ModuleMixDown* m; if (kind) m = g.make<MultiMix>(); else m = g.make<ModuleMixDown>();
    m->link(l); m->link(r);
    for (int c = 0; c < ch; ++c) for (int n = 0; n < N; ++n) y[c][n] += z[c][n];
    s.link(stage(g, tail, m, ch, N, y, counters));
    render(s, ch, y, bl, counters);
    Hash h; for (auto& v : y) h << v; outcome(h.get()); state((h << s1 << s2 << a1 << a2 << tail << bl << ch << kind).get());
}
// realistic sizes: every source and stage under long blocks and short ones in turn
MC_SCENARIO(scale_blocks, 3) {
    int blk = scale::frames(), ch = pick({1, 2, 6}), src = choose(NSRC); std::vector<int> st;
    if (blk > (thorough() ? 50000 : 2100)) prune();
    int k = choose(NSTG + 1); if (k < NSTG) st.push_back(k);
    if (thorough() && blk < 3000 && flip()) st.push_back(choose(NSTG));
    label("%s (%d channels), blocks around %d", name(src, st, ch).c_str(), ch, blk);
    std::vector<int> bl = {blk, 3, blk, 1, blk + 2};
    int N = 0; for (int b : bl) N += b;
    run(src, st, ch, N, bl);
}
// deep chains
MC_SCENARIO(scale_depth, 3) {
    int depth = pick({5, 8, 16, 40}), first = choose(NSTG), pat = choose(3), ch = range(1, 2), src = choose(NSRC); std::vector<int> st;
    for (int i = 0; i < depth; ++i) { int k = pat == 0 ? first : pat == 1 ? (i % 2 ? first : 5) : (first + i) % NSTG; if (k == 0) k = i % 2 ? 0 : 1; st.push_back(k); }
    label("%d stages from %s (pattern %d), %d channels", depth, STG[first], pat, ch);
    run(src, st, ch, 8, PATTERNS[1]);
}
