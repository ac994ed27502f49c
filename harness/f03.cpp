// F03: an envelope chain plays its segments in order and holds values across gaps.
#include <cmath>
#include <memory>
#include "mc.hpp"
#include "scale.hpp"
#include "envelope.hpp"
#include "sink_module.hpp"
using namespace mc;
enum Kind { Const, Jump, Lin, Exp };
static const char* NAME = "CJLE";
struct Seg { Kind k; double v0, v1; int64_t t0, t1; };
static int64_t NPF;
static std::unique_ptr<BaseEnvelope> make(const Seg& p) {
    std::unique_ptr<BaseEnvelope> e;
    switch (p.k) { case Const: e = std::make_unique<ConstantEnvelope>(); break; case Jump: e = std::make_unique<SetValue>(); break;
        case Lin: e = std::make_unique<LinearRamp>(); break; default: e = std::make_unique<ExponentialRamp>(); }
    e->set_start_value(p.v0); e->set_stop_value(p.v1); e->set_start_time(p.t0); e->set_stop_time(p.t1);
    return e;
}
static double value(const Seg& p, int64_t f) {
    double x = double(f * NPF - p.t0) / double(p.t1 - p.t0);
    switch (p.k) {
    case Const: return p.v0;
    case Jump: return p.t1 >= 0 && f >= p.t1 / NPF ? p.v1 : p.v0;
    case Lin: return p.v0 + (p.v1 - p.v0) * x;
    default: return p.v0 * std::pow(p.v1 / p.v0, x);
    }
}
struct Model {
    double start; std::vector<Seg> l; size_t i = 0; bool forced = false;
    double at(int64_t f) {
        int64_t t = f * NPF;
        while (i < l.size() && l[i].t1 >= 0 && t >= l[i].t1) ++i;
        double hold = i ? l[i - 1].v1 : start;
        return i < l.size() && t >= l[i].t0 ? value(l[i], f) : hold;
    }
};
struct Sink : SinkModule<> { AudioBuffer got; void process() override { got = buff; } };
struct Rig {
    ChainEnvelope chain; Sink s; Model m; std::vector<std::unique_ptr<BaseEnvelope>> own; int ch; int64_t f;
    Rig(int channels, int64_t frame, double start) : ch(channels), f(frame) {
        chain.get_timer()->set_npf(NPF); chain.get_timer()->set_channels(ch); chain.get_timer()->set_sample(f * ch);
        chain.set_start_value(start); m.start = start;
        s.link(&chain);
        auto* ci = s.get_chain_info(); ci->channels = ch; ci->sample_rate = 1e9 / NPF;
    }
    void add(const Seg& g) { own.push_back(make(g)); chain.add_envelope(own.back().get()); m.l.push_back(g); note("add %c %g..%g at %lld..%lld", NAME[g.k], g.v0, g.v1, (long long)g.t0, (long long)g.t1); }
    void block(int b) {
        note("block %d", b);
        s.get_chain_info()->buffer_size = b; s.meta_info_sync(); s.meta_process(); step();
        MC_CHECK((int)s.got.size() == b * ch && s.got.channels() == ch, "block of %zu samples, %d channels for %d frames", s.got.size(), s.got.channels(), b);
        for (int i = 0; i < b; ++i) {
            double w = m.at(f + i);
            for (int c = 0; c < ch; ++c) {
                double g = s.got.at(i * ch + c);
                MC_CHECK(std::fabs(g - w) <= 1e-9 * (1 + std::fabs(w)), "%g at frame %lld (%lld ns) channel %d, expected %g", g, (long long)(f + i), (long long)((f + i) * NPF), c, w);
            }
        }
        f += b;
        MC_CHECK(chain.get_time() == f * NPF, "chain time %lld after frame %lld", (long long)chain.get_time(), (long long)f);
        Hash h; h << f << ch << m.start; for (auto& g : m.l) h << g.k << g.t0 << g.t1; state(h.get());
    }
};
static Seg seg(int j, Kind k, int h0, int h1) { return {k, j * 10 + 1.0, j * 10 + 5.0, h0 * NPF / 2, h1 * NPF / 2}; }
// plays `total` frames in all divisions; segments are added at any boundary, in order
static void play(Rig& r, std::vector<Seg> todo, int total, int maxb, bool restarts) {
    size_t k = 0;
    while (k < todo.size() && flip()) r.add(todo[k++]);
    note("start"); r.s.meta_start();
    bool again = false;
    int64_t end = r.f + total;
    while (r.f < end) {
        while (k < todo.size() && flip()) r.add(todo[k++]);
        if (restarts && !again && flip()) { again = true; note("start"); r.s.meta_start(); }
        r.block(range(1, std::min<int64_t>(maxb, end - r.f)));
    }
    Hash h; h << r.ch << k; for (auto& g : todo) h << g.k << g.t0 << g.t1; outcome(h.get());
}
MC_SCENARIO(pairs, 4) {
    NPF = 1000000;
    int G = 8;
    std::vector<Seg> v;
    std::string id;
    int n = range(0, 2);
    for (int j = 0; j < n; ++j) {
        Kind k = (Kind)choose(thorough() ? 4 : 3); int a = range(0, G), b = range(a, G);
        v.push_back(seg(j, k, a, b)); id += NAME[k] + std::to_string(a) + "-" + std::to_string(b) + " ";
    }
    label("%schannels 1", id.c_str());
    Rig r(1, 0, 0.5);
    play(r, v, 4, 3, n < 2);
}
MC_SCENARIO(triples, 4) {
    NPF = 333333333;
    std::vector<Seg> v;
    std::string id;
    static const int T[] = {0, 1, 2, 4, 5, 7};
    for (int j = 0; j < 3; ++j) {
        Kind k = (Kind)((j + 2) % 3); int nt = thorough() ? 6 : 5; int a = choose(nt), b = a + choose(nt - a);
        v.push_back(seg(j, k, T[a], T[b])); id += NAME[k] + std::to_string(T[a]) + "-" + std::to_string(T[b]) + " ";
    }
    label("%s", id.c_str());
    Rig r(1, 0, -2);
    play(r, v, 4, 2, false);
}
// several channels, late starts, restarts
MC_SCENARIO(shapes, 4) {
    NPF = pick<int64_t>({1000000, 22675});
    std::vector<Seg> v;
    std::string id;
    for (int j = 0; j < 2; ++j) {
        Kind k = (Kind)choose(4); int a = 2 * choose(3), b = a + pick({1, 3, 6});
        v.push_back(seg(j, k, a, b)); id += NAME[k] + std::to_string(a) + "-" + std::to_string(b) + " ";
    }
    int ch = range(1, thorough() ? 4 : 2); int64_t f = pick<int64_t>({0, 2});
    label("%schannels %d from %lld npf %lld", id.c_str(), ch, (long long)f, (long long)NPF);
    Rig r(ch, f, 0);
    play(r, v, thorough() ? 5 : 4, thorough() ? 4 : 3, true);
}
// a segment without an end plays until the user moves on
MC_SCENARIO(endless, 4) {
    NPF = 1000000;
    int n = range(0, 1), G = thorough() ? 8 : 4;
    Rig r(range(1, 2), 0, 0.5);
    std::string id;
    if (n) { Kind k = (Kind)choose(3); int a = range(0, 3), b = range(a, 4); r.add(seg(0, k, a, b)); id += NAME[k] + std::to_string(a) + "-" + std::to_string(b) + " "; }
    int a = range(0, 4);
    Seg e = seg(n, Const, a, 0); e.t1 = -1;
    r.add(e); id += "endless" + std::to_string(a) + " ";
    Kind k2 = (Kind)choose(3); int a2 = range(0, G), b2 = range(a2, G);
    Seg last = seg(n + 1, k2, a2, b2); id += NAME[k2] + std::to_string(a2) + "-" + std::to_string(b2);
    label("%s channels %d", id.c_str(), r.ch);
    bool early = flip(); if (early) r.add(last);
    r.s.meta_start();
    int64_t at = range(2, 5);   // the endless segment is left at this frame, once it is playing
    while (r.f < at) r.block(range(1, std::min<int64_t>(3, at - r.f)));
    if (r.m.i != (size_t)n || (r.f - 1) * NPF < e.t0) prune();
    if (!early) r.add(last);
    note("next"); r.chain.next_envelope();
    r.m.i = n + 1;
    for (int64_t end = at + 3; r.f < end;) r.block(range(1, std::min<int64_t>(2, end - r.f)));
    outcome((Hash() << id << at << r.ch).get());
}
// moving on when nothing is left keeps the last value, and segments added later still play
MC_SCENARIO(beyond, 3) {
    NPF = 1000000;
    Rig r(range(1, 2), 0, 0.5); int n = range(0, 2), t = 0; std::string id;
    for (int j = 0; j < n; ++j) { Kind k = (Kind)choose(3); int a = t + choose(2), b = a + range(1, 3); t = b; r.add(seg(j, k, a, b)); id += NAME[k] + std::to_string(a) + "-" + std::to_string(b) + " "; }
    label("%s channels %d", id.c_str(), r.ch);
    if (flip()) r.s.meta_start();
    int step = range(1, 2); while (r.f * 2 < t) r.block(step);
    r.block(1);                                        // everything is over
    for (int k = range(1, thorough() ? 3 : 2); k; --k) { note("next"); r.chain.next_envelope(); if (flip()) r.block(step); }
    int a = 2 * (int)r.f + choose(3), b = a + range(1, 3);
    Kind k = (Kind)choose(3);
    if (n && flip()) { r.add(seg(n, k, a, b)); }
    for (int i = 0; i < 3; ++i) r.block(step);
    outcome((Hash() << id << r.f << r.ch << r.m.l.size()).get());
}
// many segments, any block size and channel count
MC_SCENARIO(scale_segments, 3) {
    NPF = 22675;
    int n = pick({4, 5, 8, 9, 16, 17, 33, 64, 65, 100, 129, 257}), len = pick({0, 1, 3, 10, 50}), gap = choose(3), late = choose(3);
    int blk = scale::frames();
    int64_t total = (int64_t)(n + 1) * (len + gap + 1);
    if (blk > 8 * total && blk > 200) prune();
    int ch = pick({1, 2, 6});
    label("%d segments of %d frames, blocks of %d, channels %d", n, len, blk, ch);
    Rig r(ch, 0, 0.5);
    std::vector<Seg> v; int64_t t = 0;
    for (int j = 0; j < n; ++j) { Seg g{(Kind)(j % 4), j + 1.0, j + 3.5, t, t + len * NPF + (j % 3) * NPF / 2}; v.push_back(g); t = g.t1 + (gap == 0 ? 0 : gap == 1 ? NPF : (j % 2 ? NPF * 2 + 7 : -NPF / 2)); if (t < 0) t = 0; }
    size_t k = 0;
    size_t first = late == 0 ? n : late == 1 ? 1 : n / 2;
    while (k < first) r.add(v[k++]);
    r.s.meta_start();
    while (r.f * NPF < t + 3 * NPF || k < v.size()) {
        r.block(blk);
        for (int q = 0; q < (late == 1 ? 1 : n) && k < v.size(); ++q) r.add(v[k++]);
        if (r.f > 200000) break;
    }
    outcome((Hash() << n << len << gap << blk << ch << late).get());
}
MC_SCENARIO(scale_blocks, 3) {
    NPF = 22675;
    auto g = scale::shape(thorough() ? 70000 : 6000, 1);
    label("%d frames, %d channels", g.frames, g.chans);
    Rig r(g.chans, 0, 0.5);
    int kind = choose(4), pos = choose(3);
    int64_t F = g.frames;
    int64_t a = pos == 0 ? 2 : pos == 1 ? F / 2 : F - 1, b = pos == 0 ? F + 1 : pos == 1 ? F / 2 + F : F + 3;
    r.add({(Kind)kind, 1, 2, a * NPF, b * NPF}); r.add({Lin, 5, 6, b * NPF + NPF / 2, (b + F / 2) * NPF + 3});
    r.s.meta_start();
    for (int x : {2, g.frames, 3, g.frames}) r.block(x);
    outcome((Hash() << g.frames << g.chans << kind << pos).get());
}
// the chain is emptied at any boundary and filled again
MC_SCENARIO(refill, 4) {
    NPF = 1000000;
    std::vector<Seg> v[2];
    std::string id;
    for (int s = 0; s < 2; ++s) {
        int n = range(0, thorough() ? 2 : 2 - s), from = s ? range(0, 4) : 0;
        for (int j = 0; j < n; ++j) {
            Kind k = (Kind)((j + s + 1) % 4); int a = from + j * 2 + choose(3), b = a + (thorough() ? pick({0, 2, 3}) : pick({1, 3}));
            v[s].push_back(seg(2 * s + j, k, a, b)); id += NAME[k] + std::to_string(a) + "-" + std::to_string(b) + " ";
        }
        id += "| ";
    }
    Rig r(thorough() ? range(1, 2) : 2, 0, 0.5);
    label("%schannels %d", id.c_str(), r.ch);
    for (auto& g : v[0]) r.add(g);
    if (flip()) { note("start"); r.s.meta_start(); }
    int at = range(0, 3);
    while (r.f < at) r.block(range(1, at - r.f));
    note("clear"); r.chain.clear(); r.m.l.clear(); r.m.i = 0;
    if (flip()) r.own.clear();      // the removed segments are gone: the chain must not use them
    bool one = flip(); if (one) r.block(1);
    size_t k = 0;
    if (flip()) while (k < v[1].size()) r.add(v[1][k++]);
    if (flip()) { note("start"); r.s.meta_start(); }
    for (int64_t end = r.f + 4; r.f < end;) { r.block(range(1, std::min<int64_t>(2, end - r.f))); while (k < v[1].size()) r.add(v[1][k++]); }
    outcome((Hash() << id << at << r.ch).get());
}
// an emptied chain is filled with several segments, which must be joined like those of a new chain
MC_SCENARIO(rejoin, 3) {
    NPF = 1000000;
    int first = range(0, 3), at = range(0, 4), gap = range(0, 2), lead = range(0, 2), n = range(2, 3);
    Rig r(1, 0, 0.5);
    label("%d segments, emptied after %d, %d segments %d apart", first, at, n, gap);
    for (int j = 0; j < first; ++j) r.add(seg(j, Lin, 2 * j, 2 * j + 1));
    r.s.meta_start();
    while (r.f < at) r.block(std::min<int64_t>(2, at - r.f));
    r.chain.clear(); r.m.l.clear(); r.m.i = 0; if (flip()) r.own.clear();
    int t = at + lead, kind = choose(4);
    for (int j = 0; j < n; ++j) { r.add(seg(3 + j, (Kind)((kind + j) % 4), t, t + 1)); t += 1 + gap; }
    if (flip()) { note("start"); r.s.meta_start(); }
    for (int64_t end = t + 2; r.f < end;) r.block(range(1, std::min<int64_t>(2, end - r.f)));
    outcome((Hash() << first << at << gap << lead << n << kind).get());
}
