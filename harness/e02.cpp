// E02: modulated oscillators follow their frequency input sample by sample.
#include "osc.hpp"
#include "scale.hpp"
#include "sink_module.hpp"
using namespace mc;
using namespace osc;
struct Sink : SinkModule<> { AudioBuffer got; void process() override { got = buff; } };
// emits a fixed sequence of frequencies regardless of block boundaries
struct FSrc : SourceModule {
    std::vector<double> seq; size_t pos = 0; int passes = 0; int starts = 0, stops = 0;
    void process() override { ++passes; reserve(); int c = buff.channels(); for (size_t i = 0; i < buff.size(); ++i) buff.at(i) = seq.at(pos + i / c); pos += buff.size() / c; }
    void start() override { ++starts; } void stop() override { ++stops; }
};
struct FMid : AudioModule<> { void process() override {} };
static std::unique_ptr<BaseModulatedOscillator> make(Shape s, int how, double f, double ph) {
    std::unique_ptr<BaseModulatedOscillator> o;
    auto mk = [&](auto* p) { o.reset(p); };
    switch (s) {
    case Sine: if (how == 0) mk(new ModSineOscillator); else if (how == 1) mk(new ModSineOscillator(f)); else mk(new ModSineOscillator(f, ph)); break;
    case Square: if (how == 0) mk(new ModSquareOscillator); else if (how == 1) mk(new ModSquareOscillator(f)); else mk(new ModSquareOscillator(f, ph)); break;
    case Saw: if (how == 0) mk(new ModSawtoothOscillator); else if (how == 1) mk(new ModSawtoothOscillator(f)); else mk(new ModSawtoothOscillator(f, ph)); break;
    default: if (how == 0) mk(new ModTriangleOscillator); else if (how == 1) mk(new ModTriangleOscillator(f)); else mk(new ModTriangleOscillator(f, ph)); break;
    }
    if (how < 2) {
        MC_CHECK(o->get_phase() == 0, "a new oscillator has phase %g", o->get_phase());
        if (how == 0) o->set_phase(ph); else if (ph != 0) { o->inc_phase(ph / 2); o->inc_phase(ph / 2); }
    }
    return o;
}
// all frequency sequences, all partitions
MC_SCENARIO(sequences, 4) {
    Shape sh = (Shape)choose(4);
    int chans = range(1, 2), via = choose(2);
    double rate = pick({8.0, 11025.0});
    double ph = pick({0.0, 0.125, -0.3});
    label("%s rate=%g phase=%g channels=%d via=%d", NAME[sh], rate, ph, chans, via);
    auto o = make(sh, 0, 0, ph);
    FSrc src; FMid mid; mid.link(&src);
    o->get_frequency()->link(via ? (BaseModule*)&mid : &src);
    Sink s; s.link(o.get());
    auto* ci = s.get_chain_info(); ci->channels = chans; ci->sample_rate = rate;
    int total = thorough() ? 6 : 5;
    bool exact = false;
    long double x = ph;
    int n = 0, blocks = 0;
    // the whole sequence is chosen first
    for (int i = 0; i < total; ++i) src.seq.push_back(pick({0.0, 1.0, 3.1, -2.0, 6.5}));
    while (n < total) {
        int b = range(1, std::min(3, total - n));
        ci->buffer_size = b; s.meta_info_sync();
        if (n == 0) { s.meta_start(); MC_CHECK(src.starts == 1, "frequency source started %d times", src.starts); }
        s.meta_process(); ++blocks; step();
        MC_CHECK(src.passes == blocks && (int)src.pos == n + b, "frequency source advanced %d blocks (%zu frames) for %d output blocks (%d frames)", src.passes, src.pos, blocks, n + b);
        MC_CHECK((int)s.got.size() == b * chans && s.got.channels() == chans && s.got.get_samplerate() == rate, "block of %zu samples", s.got.size());
        for (int i = 0; i < b; ++i) {
            for (int c = 0; c < chans; ++c) expect(sh, x, s.got.at(i * chans + c), exact, NAME[sh], n + i);
            x += (long double)src.seq[n + i] / rate;
        }
        n += b;
        state((Hash() << sh << (double)x << n << chans << via).get());
    }
    s.meta_stop(); MC_CHECK(src.stops == 1, "frequency source stopped %d times", src.stops);
    outcome((Hash() << sh << (double)x).get());
}
// constant frequency: the same waveform as the unmodulated shape
MC_SCENARIO(constant, 4) {
    Shape sh = (Shape)choose(4);
    int how = choose(3), chans = range(1, 2);
    double rate = pick({8.0, 48000.0});
    double f = pick({0.0, 1.0, 440.1, -1.0, 2.5, 4.7});
    double ph = pick({0.0, 0.25, -1.6});
    label("constant %s f=%g rate=%g phase=%g channels=%d", NAME[sh], f, rate, ph, chans);
    auto o = make(sh, how, f, ph);
    if (how == 0) o->get_frequency()->set_constant(f);
    MC_CHECK(o->get_phase() == ph, "get_phase");
    Sink s; s.link(o.get());
    auto* ci = s.get_chain_info(); ci->channels = chans; ci->sample_rate = rate;
    int total = thorough() ? 9 : 7, n = 0;
    double cf = f; long double x = ph;
    while (n < total) {
        int b = range(1, std::min(4, total - n));
        ci->buffer_size = b; s.meta_info_sync();
        if (n && flip()) { cf = cf == f ? 2 * f + 1 : f; o->get_frequency()->set_constant(cf); }
        s.meta_process(); step();
        for (int i = 0; i < b; ++i) { for (int c = 0; c < chans; ++c) expect(sh, x, s.got.at(i * chans + c), rate == 8 && f == std::floor(f * 2) / 2 && ph != -1.6, NAME[sh], n + i); x += (long double)cf / rate; }
        n += b;
        state((Hash() << sh << cf << rate << n << chans).get());
    }
    outcome((Hash() << sh << f << (double)x).get());
}
// any block size and channel count
MC_SCENARIO(scale_blocks, 3) {
    Shape sh = (Shape)choose(4);
    auto g = scale::shape(thorough() ? 70000 : 3000, 1);
    bool mod = flip(); double rate = 44100;
    label("%s %d frames, %d channels, %s", NAME[sh], g.frames, g.chans, mod ? "modulated" : "constant");
    auto o = make(sh, 0, 0, 0);
    FSrc src; FMid mid; mid.link(&src);
    long total = 2l * g.frames + 6;
    for (long i = 0; i < total; ++i) src.seq.push_back(mod ? 440 + (i % 1000) * 0.5 - (i % 7) * 100 : 440.5);
    if (mod) o->get_frequency()->link(&mid); else o->get_frequency()->set_constant(440.5);
    Sink s; s.link(o.get());
    auto* ci = s.get_chain_info(); ci->channels = g.chans; ci->sample_rate = rate;
    long n = 0; long double x = 0;
    for (int b : {3, g.frames, 2, g.frames, 1}) {
        ci->buffer_size = b; s.meta_info_sync();
        s.meta_process(); step();
        MC_CHECK((long)s.got.size() == (long)b * g.chans && s.got.channels() == g.chans, "block of %zu samples", s.got.size());
        for (int i = 0; i < b; ++i) {
            expect(sh, x, s.got.at((long)i * g.chans), false, NAME[sh], n + i);
            for (int c = 1; c < g.chans; ++c) MC_CHECK(s.got.at((long)i * g.chans + c) == s.got.at((long)i * g.chans), "channel %d differs at frame %d", c, i);
            x += (long double)src.seq[n + i] / rate;
        }
        n += b;
        if (mod) MC_CHECK((long)src.pos == n, "frequency source at frame %zu after %ld frames", src.pos, n);
    }
    outcome((Hash() << sh << g.frames << g.chans << mod).get());
}
