// F04: the attack-decay-sustain-release envelope follows its four stages.
#include <cmath>
#include <memory>
#include "mc.hpp"
#include "scale.hpp"
#include "envelope.hpp"
#include "sink_module.hpp"
using namespace mc;
using St = BaseModule::State;
struct Sink : SinkModule<> { AudioBuffer got; void process() override { got = buff; } };
struct Rig {
    int64_t npf, a, d, r; double s; int ch; int64_t f;
    std::unique_ptr<ADSREnvelope> e; Sink k;
    int64_t t0 = 0, tr = -1; double lr = 0; int base = 0;
    Rig(int64_t npf_, int A, int D, double S, int R, int ch_, int64_t f_, bool ctor) : npf(npf_), a(A * npf / 2), d(D * npf / 2), r(R * npf / 2), s(S), ch(ch_), f(f_) {
        label("attack %d/2 decay %d/2 sustain %g release %d/2 frames npf %lld channels %d from %lld", A, D, S, R, (long long)npf, ch, (long long)f);
        if (ctor) e = std::make_unique<ADSREnvelope>(a, d, s, r);
        else { e = std::make_unique<ADSREnvelope>(); e->set_attack(a); e->set_decay(d); e->set_sustain(s); e->set_release(r); }
        MC_CHECK(e->get_attack() == a && e->get_decay() == d && e->get_sustain() == s && e->get_release() == r, "settings");
        e->get_timer()->set_npf(npf); e->get_timer()->set_channels(ch); e->get_timer()->set_sample(f * ch);
        k.link(e.get());
        auto* ci = k.get_chain_info(); ci->channels = ch; ci->sample_rate = 1e9 / npf;
        k.meta_info_sync();
    }
    void start() { note("start"); k.meta_start(); t0 = f * npf; tr = -1; MC_CHECK(e->get_state() == St::Started, "state %d after start", (int)e->get_state()); }
    double held(int64_t t) const {
        int64_t x = t - t0;
        return x < a ? (double)x / a : x < a + d ? 1 + (s - 1) * (double)(x - a) / d : s;
    }
    double want(int64_t t) const { return tr < 0 ? held(t) : t - tr < r ? lr * (1 - (double)(t - tr) / r) : 0; }
    void finish() {
        note("finish");
        if (tr >= 0) {   // a repeated request does not restart the release
            int n = k.get_chain_info()->module_finish; k.meta_finish(); n = k.get_chain_info()->module_finish - n;
            MC_CHECK(n <= 1, "%d modules completed at a repeated request", n); base += n;
            if (f * npf < tr + r) state_check();
            return;
        }
        base = k.get_chain_info()->module_finish;
        k.meta_finish();
        base += k.get_chain_info()->module_finish > base;   // the sink completes at once
        lr = held(f * npf); tr = f * npf;
        if (r) state_check();
    }
    void state_check() {
        bool over = tr >= 0 && f * npf >= tr + r;
        St w = tr < 0 ? St::Started : over ? St::Finished : St::Finishing;
        MC_CHECK(e->get_state() == w, "state %d at %lld ns, expected %d (released at %lld for %lld)", (int)e->get_state(), (long long)(f * npf), (int)w, (long long)tr, (long long)r);
        if (tr >= 0) MC_CHECK(k.get_chain_info()->module_finish == base + (over ? 1 : 0), "%d modules reported finished, expected %d", k.get_chain_info()->module_finish, base + (over ? 1 : 0));
    }
    void block(int b) {
        note("block %d", b);
        k.get_chain_info()->buffer_size = b; k.meta_info_sync(); k.meta_process(); step();
        MC_CHECK((int)k.got.size() == b * ch && k.got.channels() == ch, "block of %zu samples, %d channels for %d frames", k.got.size(), k.got.channels(), b);
        for (int i = 0; i < b; ++i) {
            double w = want((f + i) * npf);
            for (int c = 0; c < ch; ++c) {
                double g = k.got.at(i * ch + c);
                MC_CHECK(std::fabs(g - w) <= 1e-9, "%g at frame %lld (started at %lld ns, released at %lld) channel %d, expected %g", g, (long long)(f + i), (long long)t0, (long long)tr, c, w);
            }
        }
        f += b;
        state_check();
        state((Hash() << npf << a << d << r << s << ch << f << t0 << tr).get());
    }
    void run(int n, int maxb) { for (int64_t end = f + n; f < end;) block(range(1, std::min<int64_t>(maxb, end - f))); }
};
MC_SCENARIO(stages, 4) {
    int G = thorough() ? 6 : 4;
    int A = range(0, G), D = range(0, G), R = range(0, G); double S = pick({0.0, 0.3, 1.0});
    Rig g(1000000, A, D, S, R, 1, pick<int64_t>({0, 3}), true);
    g.start();
    int total = thorough() ? 7 : 5;
    int at = range(0, total);
    g.run(at, 3);
    g.finish();
    g.run((R + 1) / 2 + 1, 2);
    outcome((Hash() << A << D << R << S << at << g.t0).get());
}
// settings, channels, repeated requests, notes played again
MC_SCENARIO(notes, 4) {
    int A = choose(4), D = choose(4), R = choose(4);
    Rig g(pick<int64_t>({333333333, 22675}), A, D, pick({0.0, 0.5}), R, range(1, 2), pick<int64_t>({0, 2}), flip());
    int left = thorough() ? 7 : 6;
    bool on = false, fin = false;
    for (int ops = thorough() ? 7 : 5; ops-- && left;) {
        switch (on ? choose(fin && g.f * g.npf >= g.tr + g.r ? 4 : 5) : 0) {
        case 0: g.start(); on = true; fin = false; break;
        case 1: case 2: { int b = choose(2) + 1; g.block(b); left = std::max(0, left - b); break; }
        case 3: if (!fin) { g.finish(); fin = true; } else { note("stop"); g.k.meta_stop(); MC_CHECK(g.e->get_state() == St::Stopped, "state after stop"); on = false; } break;
        case 4: if (fin) { g.finish(); break; }
            note("stop"); g.k.meta_stop(); MC_CHECK(g.e->get_state() == St::Stopped, "state after stop"); on = false; break;
        }
    }
    outcome((Hash() << A << D << R << g.f << g.t0 << g.tr << g.ch).get());
}
// realistic durations in realistic blocks
MC_SCENARIO(longnotes, 3) {
    double ms[] = {0, 1.7, 250, 3000};
    int a = choose(4), d = choose(4), r = choose(4);
    int rate = pick({8000, 44100}); int blk = pick({440, 4096});
    int64_t npf = 1000000000 / rate;
    Rig g(npf, 0, 0, 0.7, 0, 2, 0, false);
    label("attack %g decay %g release %g ms rate %d", ms[a], ms[d], ms[r], rate);
    g.a = ms[a] * 1e6; g.d = ms[d] * 1e6; g.r = ms[r] * 1e6;
    g.e->set_attack(g.a); g.e->set_decay(g.d); g.e->set_release(g.r);
    int64_t stop = pick<int64_t>({100000000, 1500000000, 6500000000});
    g.start();
    while (g.f * npf < stop) { g.block(blk); heartbeat(); }
    g.finish();
    int64_t end = g.f * npf + g.r + blk * npf;
    while (g.f * npf <= end) { g.block(blk); heartbeat(); }
    outcome((Hash() << a << d << r << rate << blk << stop).get());
}
// a finish request before any start must not do damage
MC_SCENARIO(unstarted, 2) {
    Rig g(1000000, choose(2), choose(2), 0.5, choose(2), 1, 0, true);
    bool fin = flip(); if (fin) { g.k.meta_finish(); }
    if (flip()) {
        g.k.get_chain_info()->buffer_size = 2; g.k.meta_info_sync(); g.k.meta_process(); step(); MC_CHECK(g.k.got.size() == 2, "block of %zu", g.k.got.size());
        if (fin) for (double v : g.k.got) MC_CHECK(v == 0, "%g after a release that was never started", v);
    }
    g.start(); g.run(2, 2); g.finish(); g.run(2, 2);
    outcome((Hash() << g.a << g.d << g.r).get());
}
// any block size and channel count, stages around the block boundaries
MC_SCENARIO(scale_blocks, 3) {
    auto s = scale::shape(thorough() ? 70000 : 6000, 1);
    int64_t F = s.frames;
    int fin = choose(4), st = choose(3);
    int64_t A = st == 0 ? 3 : st == 1 ? 2 * F : F * 2 + 1, D = st == 0 ? F : st == 1 ? 1 : F + 3, R = st == 0 ? 2 * F - 1 : st == 1 ? F : 5;
    Rig g(22675, (int)A, (int)D, 0.25, (int)R, s.chans, fin == 1 ? 7 : 0, true);
    g.start();
    if (fin == 0) g.finish();
    g.block(2); if (fin == 1) g.finish();
    g.block(s.frames); if (fin == 2) g.finish();
    g.block(3); g.block(s.frames); if (fin == 3) g.finish();
    g.block(s.frames); g.block(1);
    if (fin == 3) { g.block(s.frames); g.block(5); }
    MC_CHECK(g.e->get_state() == St::Finished, "not finished");
    outcome((Hash() << s.frames << s.chans << fin << st).get());
}
