// F02: an envelope's value depends only on chain time, not on block boundaries.
#include <cmath>
#include <memory>
#include "mc.hpp"
#include "scale.hpp"
#include "envelope.hpp"
#include "sink_module.hpp"
using namespace mc;
enum Kind { Const, Jump, Lin, Exp };
static const char* NAME[] = {"constant", "jump", "linear", "exponential"};
struct Par { Kind k; double v0, v1; int64_t t0, t1, npf; int ch; };
static std::unique_ptr<BaseEnvelope> make(const Par& p) {
    std::unique_ptr<BaseEnvelope> e;
    switch (p.k) { case Const: e = std::make_unique<ConstantEnvelope>(); break; case Jump: e = std::make_unique<SetValue>(); break;
        case Lin: e = std::make_unique<LinearRamp>(); break; default: e = std::make_unique<ExponentialRamp>(); }
    e->set_start_value(p.v0); e->set_stop_value(p.v1); e->set_start_time(p.t0); e->set_stop_time(p.t1);
    e->get_timer()->set_npf(p.npf); e->get_timer()->set_channels(p.ch);
    return e;
}
// value at absolute frame f; ramps are only defined between their end points
static bool defined(const Par& p, int64_t f) { return p.k == Const || p.k == Jump || (f * p.npf >= p.t0 && f * p.npf <= p.t1); }
static double value(const Par& p, int64_t f) {
    long double x = p.t1 == p.t0 ? 0 : (long double)(f * p.npf - p.t0) / (p.t1 - p.t0);
    switch (p.k) {
    case Const: return p.v0;
    case Jump: return f < p.t1 / p.npf ? p.v0 : p.v1;   // the frame containing the stop time already has the stop value
    case Lin: return p.v0 + (p.v1 - p.v0) * x;
    default: return p.v0 * std::pow((long double)p.v1 / p.v0, x);
    }
}
static double reference(const Par& p, int64_t f) {
    if (defined(p, f)) return value(p, f);
    auto e = make(p); e->get_timer()->set_sample(f * p.ch);   // one frame on its own
    e->get_info()->out_buffer = 1; e->get_info()->channels = p.ch;
    e->meta_process();
    auto b = e->get_buffer();
    return b.at(0);
}
static void compare(const Par& p, AudioBuffer& b, int n, int64_t f, const char* what) {
    MC_CHECK((int)b.size() == n * p.ch && b.channels() == p.ch, "%s: block of %zu samples and %d channels instead of %d frames of %d", what, b.size(), b.channels(), n, p.ch);
    for (int i = 0; i < n; ++i) {
        double w = reference(p, f + i);
        for (int c = 0; c < p.ch; ++c) {
            double g = b.at(i * p.ch + c);
            MC_CHECK(g == w || (g != g && w != w) || std::fabs(g - w) <= 1e-9 * (1 + std::fabs(w)), "%s: %g at frame %lld channel %d (%lld ns; from %g at %lld to %g at %lld), expected %g", what, g, (long long)(f + i), c, (long long)((f + i) * p.npf), p.v0, (long long)p.t0, p.v1, (long long)p.t1, w);
        }
    }
}
struct Sink : SinkModule<> { AudioBuffer got; void process() override { got = buff; } };
static Par params() {
    Par p;
    p.k = (Kind)choose(4);
    p.npf = pick<int64_t>({1000000, 333333333});
    int v = choose(4);
    double V0[] = {0.25, -1, 0, 3}, V1[] = {1, -0.125, 2, 3}, X0[] = {0.25, -1, 1e-6, 3};
    p.v0 = p.k == Exp ? X0[v] : V0[v]; p.v1 = V1[v];
    int64_t a = choose(4), d = choose(5);
    p.t0 = (int64_t[]){0, p.npf, 2 * p.npf, 2 * p.npf + p.npf / 2}[a];
    p.t1 = p.t0 + (int64_t[]){1, p.npf / 2, 2 * p.npf, 3 * p.npf + p.npf / 4, 100000 * p.npf}[d];
    if (p.k == Const && (v != 1 || d > 1)) prune();
    return p;
}
MC_SCENARIO(partitions, 4) {
    Par p = params();
    p.ch = range(1, thorough() ? 3 : 2);
    int64_t f = pick<int64_t>({0, 1, 4});
    label("%s values %g..%g times %lld..%lld npf %lld channels %d", NAME[p.k], p.v0, p.v1, (long long)p.t0, (long long)p.t1, (long long)p.npf, p.ch);
    auto e = make(p);
    e->get_timer()->set_sample(f * p.ch);
    Sink s; s.link(e.get());
    auto* ci = s.get_chain_info(); ci->channels = p.ch; ci->sample_rate = 1e9 / p.npf;
    bool sync = flip();
    int total = thorough() ? 8 : 6, maxb = thorough() ? 4 : 3;
    bool empty = false, jumped = false;
    for (int n = 0; n < total;) {
        int b = range(empty ? 1 : 0, std::min(maxb, total - n));
        if (!b) empty = true;
        if (n && !jumped && flip()) {   // the chain is moved to another position
            jumped = true; f = pick<int64_t>({0, 3, 50000}); note("to %lld", (long long)f);
            e->get_timer()->set_sample(f * p.ch);
        }
        note("block %d", b);
        if (sync) { ci->buffer_size = b; s.meta_info_sync(); s.meta_process(); }
        else { e->get_info()->out_buffer = b; e->get_info()->channels = p.ch; e->meta_process(); s.got = e->get_buffer(); }
        step();
        compare(p, s.got, b, f, NAME[p.k]);
        n += b; f += b;
        MC_CHECK(e->get_time() == f * p.npf, "time %lld after frame %lld", (long long)e->get_time(), (long long)f);
        state((Hash() << p.k << p.v0 << p.v1 << p.t0 << p.t1 << p.ch << f).get());
    }
    outcome((Hash() << p.k << p.v0 << p.v1 << p.t0 << p.t1 << p.ch << f).get());
}
// long blocks over the whole envelope, crossing 32-bit nanoseconds
MC_SCENARIO(longrun, 3) {
    Par p;
    p.k = (Kind)choose(4); p.npf = pick<int64_t>({22675, 10000000}); p.ch = 1;
    p.v0 = 0.5; p.v1 = pick({2.0, 0.125});
    p.t0 = pick<int64_t>({0, 1000000007}); p.t1 = p.t0 + pick<int64_t>({3000000000LL, 7000000001LL, 50000});
    int blk = pick({441, 4096, 100000});
    label("%s to %g times %lld..%lld npf %lld", NAME[p.k], p.v1, (long long)p.t0, (long long)p.t1, (long long)p.npf);
    auto e = make(p);
    e->get_info()->out_buffer = blk; e->get_info()->channels = 1;
    int64_t f = 0, end = p.t1 / p.npf + 2 * blk;
    while (f < end) {
        e->meta_process(); step();
        auto b = e->get_buffer();
        MC_CHECK((int)b.size() == blk, "block of %zu", b.size());
        for (int i = 0; i < blk; i += std::max(1, blk / 64)) if (defined(p, f + i)) {
            double w = value(p, f + i), g = b.at(i);
            MC_CHECK(std::fabs(g - w) <= 1e-9, "%g at frame %lld, expected %g", g, (long long)(f + i), w);
        }
        f += blk;
        state((Hash() << p.k << p.v1 << p.t0 << p.t1 << p.npf << f).get());
        heartbeat();
    }
    outcome((Hash() << p.k << p.v1 << p.t0 << p.t1 << p.npf << blk).get());
}
// a duration envelope places the wrapped one wherever it is started
MC_SCENARIO(duration, 4) {
    Par p = {};
    p.k = (Kind)choose(4); p.npf = pick<int64_t>({1000000, 333333333}); p.ch = range(1, 2);
    p.v0 = 0.5; p.v1 = 2;
    int64_t d = pick<int64_t>({1, p.npf, 2 * p.npf, 2 * p.npf + p.npf / 2, 20 * p.npf});
    int64_t f = pick<int64_t>({0, 3});
    label("duration %s of %lld npf %lld channels %d", NAME[p.k], (long long)d, (long long)p.npf, p.ch);
    auto e = make(p);
    DurationEnvelope dur; dur.set_duration(d); dur.set_envelope(e.get());
    MC_CHECK(dur.get_duration() == d && dur.get_envelope() == e.get(), "setters");
    for (BaseEnvelope* x : {(BaseEnvelope*)&dur, e.get()}) { x->get_timer()->set_npf(p.npf); x->get_timer()->set_channels(p.ch); x->get_timer()->set_sample(f * p.ch); }
    Sink s; s.link(&dur);
    auto* ci = s.get_chain_info(); ci->channels = p.ch; ci->sample_rate = 1e9 / p.npf;
    int total = thorough() ? 8 : 6;
    bool chain = flip();
    auto begin = [&] {
        if (chain) s.meta_start(); else dur.start();
        p.t0 = f * p.npf; p.t1 = p.t0 + d; note("start at frame %lld", (long long)f);
        MC_CHECK(e->get_start_time() == p.t0 && e->get_stop_time() == p.t1, "placed at %lld..%lld, expected %lld..%lld", (long long)e->get_start_time(), (long long)e->get_stop_time(), (long long)p.t0, (long long)p.t1);
    };
    begin();
    for (int n = 0; n < total;) {
        if (n && flip()) begin();
        int b = range(1, std::min(3, total - n)); note("block %d", b);
        ci->buffer_size = b; s.meta_info_sync();
        e->get_info()->out_buffer = b; e->get_info()->channels = p.ch;
        s.meta_process(); step();
        compare(p, s.got, b, f, "duration");
        n += b; f += b;
        state((Hash() << p.k << p.t0 << p.t1 << p.ch << f).get());
    }
    outcome((Hash() << p.k << p.t0 << p.t1 << p.ch << f).get());
}
// a duration envelope starts the envelope it wraps: another duration envelope, an
// attack-decay-sustain-release envelope, a chain, a user's own
struct Own : BaseEnvelope {
    int starts = 0; int64_t st0 = -1, st1 = -1;
    void start() override { ++starts; st0 = get_start_time(); st1 = get_stop_time(); }
    void process() override { reserve(); for (auto& x : buff) { x = get_time() >= st0 && get_time() < st1 ? 7 : -7; } get_time_inc(); }
};
MC_SCENARIO(wrapped, 3) {
    int kind = choose(4), ch = range(1, 2);
    int64_t npf = 1000000, f = pick<int64_t>({0, 3}), d = pick<int64_t>({2 * npf, 3 * npf + npf / 2, 100 * npf});
    label("duration of %lld around kind %d, channels %d", (long long)d, kind, ch);
    LinearRamp ramp; ramp.set_start_value(1); ramp.set_stop_value(3);
    DurationEnvelope in; in.set_duration(npf * 2); in.set_envelope(&ramp);
    ADSREnvelope adsr(npf * 2, npf * 2, 0.5, npf * 2), twin(npf * 2, npf * 2, 0.5, npf * 2);
    Own own; LinearRamp r2; r2.set_start_value(1); r2.set_stop_value(3);
    BaseEnvelope* w[] = {&in, &adsr, &own, &r2};
    DurationEnvelope dur; dur.set_duration(d); dur.set_envelope(w[kind]);
    for (BaseEnvelope* x : {(BaseEnvelope*)&dur, w[kind], (BaseEnvelope*)&ramp, (BaseEnvelope*)&twin}) { x->get_timer()->set_npf(npf); x->get_timer()->set_channels(ch); x->get_timer()->set_sample(f * ch); }
    Sink s; s.link(&dur);
    auto* ci = s.get_chain_info(); ci->channels = ch; ci->sample_rate = 1000;
    int total = 5, starts = 0; int64_t t0 = 0;
    auto begin = [&] {
        note("start at %lld", (long long)f); t0 = f * npf; ++starts;
        s.meta_start(); twin.start();
        if (kind == 0) MC_CHECK(ramp.get_start_time() == t0 && ramp.get_stop_time() == t0 + 2 * npf, "the envelope two levels down was placed at %lld..%lld", (long long)ramp.get_start_time(), (long long)ramp.get_stop_time());
        if (kind == 2) MC_CHECK(own.starts == starts && own.st0 == t0 && own.st1 == t0 + d, "wrapped envelope started %d times, saw %lld..%lld", own.starts, (long long)own.st0, (long long)own.st1);
    };
    begin();
    for (int n = 0; n < total;) {
        if (n && flip()) { if (starts == 3) prune(); begin(); }
        int b = range(1, std::min(2, total - n)); note("block %d", b);
        ci->buffer_size = b; s.meta_info_sync();
        for (BaseEnvelope* x : {w[kind], (BaseEnvelope*)&ramp, (BaseEnvelope*)&twin}) { x->get_info()->out_buffer = b; x->get_info()->channels = ch; }
        s.meta_process(); twin.meta_process(); step();
        auto tb = twin.get_buffer();
        MC_CHECK((int)s.got.size() == b * ch, "block of %zu", s.got.size());
        for (int i = 0; i < b * ch; ++i) {
            int64_t t = (f + i / ch) * npf; double g = s.got.at(i), want;
            if (kind == 1) want = tb.at(i);
            else if (kind == 2) want = f * npf >= t0 && f * npf < t0 + d ? 7 : -7;
            else { int64_t len = kind == 0 ? 2 * npf : d; if (t > t0 + len) continue; want = 1 + 2 * (double)(t - t0) / len; }
            MC_CHECK(std::fabs(g - want) <= 1e-9, "%g at %lld ns, expected %g", g, (long long)t, want);
        }
        if (kind == 2) own.get_timer()->set_sample((f + b) * ch);
        n += b; f += b;
        state((Hash() << kind << t0 << ch << f << d).get());
    }
    outcome((Hash() << kind << t0 << d << ch << starts).get());
}
// any block size and channel count
MC_SCENARIO(scale_blocks, 3) {
    auto g = scale::shape(thorough() ? 70000 : 4000, 1);
    Par p; p.k = (Kind)choose(4); p.ch = g.chans; p.npf = pick<int64_t>({22675, 1000000});
    p.v0 = 0.5; p.v1 = 2; p.t0 = flip() ? 0 : 2 * p.npf + 1; p.t1 = p.npf * (g.frames + 2) + 5;
    label("%s npf %lld %d frames, %d channels", NAME[p.k], (long long)p.npf, g.frames, g.chans);
    auto e = make(p); e->get_timer()->set_sample(0);
    Sink s; s.link(e.get());
    auto* ci = s.get_chain_info(); ci->channels = p.ch; ci->sample_rate = 1e9 / p.npf;
    int64_t f = 0;
    for (int b : {2, g.frames, 3, g.frames, 1}) {
        ci->buffer_size = b; s.meta_info_sync(); s.meta_process(); step();
        MC_CHECK((long)s.got.size() == (long)b * p.ch && s.got.channels() == p.ch, "block of %zu samples", s.got.size());
        for (int i = 0; i < b; ++i) {
            bool def = defined(p, f + i);
            for (int c = 0; c < p.ch; ++c) {
                double x = s.got.at((long)i * p.ch + c);
                if (def) { double w = value(p, f + i); MC_CHECK(std::fabs(x - w) <= 1e-9, "%g at frame %lld channel %d, expected %g", x, (long long)(f + i), c, w); }
                else if (i % 97 == 0) { double w = reference(p, f + i); MC_CHECK(x == w || (x != x && w != w) || std::fabs(x - w) <= 1e-9 * (1 + std::fabs(w)), "%g at frame %lld channel %d, a block of its own gives %g", x, (long long)(f + i), c, w); }
                if (p.k != Exp && p.k != Lin) MC_CHECK(x == value(p, f + i), "%g at frame %lld", x, (long long)(f + i));
            }
        }
        f += b;
        MC_CHECK(e->get_time() == f * p.npf, "time %lld after frame %lld", (long long)e->get_time(), (long long)f);
    }
    outcome((Hash() << p.k << g.frames << g.chans << p.npf << p.t0).get());
}
