// E01: oscillators emit one continuous waveform however it is cut into blocks.
#include "osc.hpp"
#include "scale.hpp"
#include "sink_module.hpp"
using namespace mc;
using namespace osc;
struct Sink : SinkModule<> { AudioBuffer got; void process() override { got = buff; } };
static std::unique_ptr<BaseOscillator> make(Shape s, double f, int how, double ph) {
    auto mk = [&](auto* p) -> std::unique_ptr<BaseOscillator> { return std::unique_ptr<BaseOscillator>(p); };
    if (how == 0) {
        std::unique_ptr<BaseOscillator> o;
        switch (s) { case Sine: o = mk(new SineOscillator); break; case Square: o = mk(new SquareOscillator); break; case Saw: o = mk(new SawtoothOscillator); break; default: o = mk(new TriangleOscillator); }
        MC_CHECK(o->get_frequency() == 0 && o->get_phase() == 0, "a new oscillator has frequency %g phase %g", o->get_frequency(), o->get_phase());
        o->set_frequency(f); o->set_phase(ph); return o;
    }
    if (how == 2) {
        std::unique_ptr<BaseOscillator> o;
        switch (s) { case Sine: o = mk(new SineOscillator(f)); break; case Square: o = mk(new SquareOscillator(f)); break; case Saw: o = mk(new SawtoothOscillator(f)); break; default: o = mk(new TriangleOscillator(f)); }
        MC_CHECK(o->get_frequency() == f && o->get_phase() == 0, "constructed with frequency %.17g: frequency %.17g phase %g", f, o->get_frequency(), o->get_phase());
        if (ph != 0) { o->inc_phase(ph / 2); o->inc_phase(ph / 2); }
        return o;
    }
    switch (s) {
    case Sine: return mk(new SineOscillator(f, ph)); case Square: return mk(new SquareOscillator(f, ph));
    case Saw: return mk(new SawtoothOscillator(f, ph)); default: return mk(new TriangleOscillator(f, ph));
    }
}
static void wave(Shape sh, double f, double rate, double ph, int chans, int total, int maxblk, bool changes) {
    auto o = make(sh, f, choose(3), ph);
    MC_CHECK(o->get_frequency() == f && o->get_phase() == ph, "constructed with frequency %g phase %g", o->get_frequency(), o->get_phase());
    bool exact = rate == 8 && f == std::floor(f) && ph * 4 == std::floor(ph * 4);
    Sink s; s.link(o.get());
    auto* ci = s.get_chain_info(); ci->channels = chans; ci->sample_rate = rate;
    int n = 0;
    double cf = f;
    std::string part;
    while (n < total) {
        int b = maxblk ? range(0, std::min(maxblk, total - n)) : total;
        if (b == 0 && part.find('0') != std::string::npos) prune();   // at most one empty block
        part += char('0' + b % 10);
        ci->buffer_size = b; s.meta_info_sync();
        if (changes && n && flip()) { cf = cf == f ? f * 2 + 1 : f; o->set_frequency(cf); part += 'f'; MC_CHECK(o->get_frequency() == cf, "get_frequency"); }
        s.meta_process(); step();
        MC_CHECK((int)s.got.size() == b * chans && s.got.channels() == chans && s.got.get_samplerate() == rate, "block of %zu samples, %d channels at %g", s.got.size(), s.got.channels(), s.got.get_samplerate());
        for (int i = 0; i < b; ++i) for (int c = 0; c < chans; ++c)
            expect(sh, (long double)cf * (ph + n + i) / rate, s.got.at(i * chans + c), exact, NAME[sh], n + i);
        n += b;
        state((Hash() << sh << cf << rate << ph << chans << n).get());
    }
    outcome((Hash() << sh << f << rate << ph << chans).get());
}
MC_SCENARIO(partitions, 4) {
    Shape sh = (Shape)choose(4);
    double rate = pick({8.0, 44100.0});
    double f = pick({0.0, 1.0, 3.0, 440.1, -1.0, 2.7});
    double ph = pick({0.0, 3.0, -2.0, 0.1});
    int chans = range(1, thorough() ? 4 : 3);
    label("%s f=%g rate=%g phase=%g channels=%d", NAME[sh], f, rate, ph, chans);
    wave(sh, f, rate, ph, chans, thorough() ? 8 : 6, thorough() ? 4 : 3, thorough() || chans < 3);
}
// whole periods and long runs: every frequency up to the sampling rate
MC_SCENARIO(periods, 3) {
    Shape sh = (Shape)choose(4);
    int m = choose(thorough() ? 129 : 65);
    double rate = pick({8.0, 16.0, 100.0, 48000.0});
    double f = rate * (m - 16) / 32.0 + (rate > 50 ? 0.01 : 0);
    double ph = pick({0.0, 1e6, -12345.678});
    label("%s f=%g rate=%g phase=%g", NAME[sh], f, rate, ph);
    wave(sh, f, rate, ph, 1 + m % 2, 70, 0, false);
}
// any block size and channel count, long streams in blocks of one size
MC_SCENARIO(scale_blocks, 3) {
    Shape sh = (Shape)choose(4);
    auto g = scale::shape(thorough() ? 70000 : 3000, 1);
    int chg = g.chans > 2 ? 0 : flip();
    double rate = 44100, f = pick({440.0, 19999.5});
    if (f > 440 && (chg || g.chans > 2)) prune();
    label("%s f=%g %d frames, %d channels", NAME[sh], f, g.frames, g.chans);
    auto o = make(sh, f, 0, 0.0);
    Sink s; s.link(o.get());
    auto* ci = s.get_chain_info(); ci->channels = g.chans; ci->sample_rate = rate;
    long n = 0;
    for (int b : {3, g.frames, 2, g.frames, 1}) {
        ci->buffer_size = b; s.meta_info_sync();
        if (chg && b == 2) { f = 1001; o->set_frequency(f); }
        s.meta_process(); step();
        MC_CHECK((long)s.got.size() == (long)b * g.chans && s.got.channels() == g.chans, "block of %zu samples", s.got.size());
        for (int i = 0; i < b; ++i) {
            if (b < 5000 || i < 40 || i > b - 40 || i % 509 == 0 || (i & (i + 1)) == 0 || (i & (i - 1)) == 0) expect(sh, (long double)f * (n + i) / rate, s.got.at((long)i * g.chans), false, NAME[sh], n + i);
            for (int c = 1; c < g.chans; ++c) MC_CHECK(s.got.at((long)i * g.chans + c) == s.got.at((long)i * g.chans), "channel %d differs at frame %d", c, i);
            if (i) MC_CHECK(std::fabs(s.got.at((long)i * g.chans)) <= 1, "outside [-1, 1]");
        }
        n += b;
    }
    outcome((Hash() << sh << f << g.frames << g.chans).get());
}
// hours of sound: one small block after a very long block history
MC_SCENARIO(scale_stream, 3) {
    Shape sh = (Shape)choose(4);
    int b = pick({64, 441, 512, 1000, 4096});
    double f = pick({440.0, 0.5, 12345.5});
    label("%s f=%g blocks of %d", NAME[sh], f, b);
    auto o = make(sh, f, 0, 0.0);
    Sink s; s.link(o.get());
    auto* ci = s.get_chain_info(); ci->channels = 1; ci->sample_rate = 44100; ci->buffer_size = b; s.meta_info_sync();
    long n = 0, total = thorough() ? 20000000 : 1000000;
    while (n < total) {
        s.meta_process(); step();
        for (int i = 0; i < b; i += 1 + b / 7) expect(sh, (long double)f * (n + i) / 44100, s.got.at(i), false, NAME[sh], n + i);
        expect(sh, (long double)f * (n + b - 1) / 44100, s.got.at(b - 1), false, NAME[sh], n + b - 1);
        n += b;
        heartbeat();
    }
    outcome((Hash() << sh << f << b).get());
}
