// A01: one pass runs every module once, in order, on its upstream's block.
#include "chain.hpp"
#include "scale.hpp"
using namespace mc;
using namespace ch;

struct LogSink : SinkModule<> {
    std::vector<Vec> got;
    void process() override { got.push_back(grab(buff)); }
};
struct LogPeriod : PeriodSink {
    std::vector<Vec> got;
    void process() override { got.push_back(grab(buff)); }
};
struct EmbSink : SinkModule<Dyn> {
    std::vector<Vec> got;
    void process() override { got.push_back(grab(buff)); }
};
static void passes(BaseModule& sink, std::vector<Vec>& got, Chain& c, int top, int len, int periods, int count) {
    for (int p = 0; p < count; ++p) {
        LOG.clear(); got.clear();
        std::vector<Ev> ev; std::vector<Vec> out;
        for (int k = 0; k < periods; ++k) out.push_back(c.eval(top, len, ev));
        sink.meta_process();
        step();
        compare_log(ev, "processing pass");
        MC_CHECK(got.size() == (size_t)periods, "the sink was run %zu times for %d periods", got.size(), periods);
        for (int k = 0; k < periods; ++k) {
            MC_CHECK(got[k].size() == out[k].size(), "sink got %zu samples, expected %zu", got[k].size(), out[k].size());
            for (size_t i = 0; i < out[k].size(); ++i)
                MC_CHECK(got[k][i] == out[k][i], "sink sample %zu of pass %d period %d is %.12g, expected %.12g", i, p, k, got[k][i], out[k][i]);
        }
        AudioBuffer b = sink.get_buffer();
        MC_CHECK(grab(b) == out.back(), "buffer left at the sink differs from what it processed");
        if (p % 2 == 0) for (auto& x : b) x = 1e9;           // what the caller does with it must not matter
        for (auto& nd : c.n) if (nd.kind == KCounter || nd.kind == KLatency) {
            auto* m = static_cast<Counter*>(nd.mod);
            MC_CHECK(m->processed() == nd.runs, "counter saw %d passes, expected %d", m->processed(), nd.runs);
        }
        Hash h; h << got.back(); state(h.get());
    }
}
static void settings(BaseModule& sink, int frames, int chans) {
    sink.get_chain_info()->buffer_size = frames;
    sink.get_chain_info()->channels = chans;
    sink.meta_info_sync();
}
MC_SCENARIO(topologies, 3) {
    int frames = range(1, 2), chans = range(1, 2);
    int len = frames * chans;
    int sk = choose(5);
    LOG.clear();
    Chain c;
    int maxlen = thorough() ? 5 : 4;
    if (sk == 4) {
        EmbSink s;
        int d = c.add(KDyn, &s.backward(), &s.backward());
        c.link(d, c.build(maxlen - 1, true));
        label("embedded sink <- %s", c.desc(d).c_str());
        settings(s, frames, chans);
        passes(s, s.got, c, d, len, 1, 3);
    } else if (sk == 0) {
        LogSink s;
        int t = c.build(maxlen, true);
        MC_CHECK(s.link(c.n[t].mod) == c.n[t].mod, "link result");
        label("sink <- %s", c.desc(t).c_str());
        settings(s, frames, chans);
        passes(s, s.got, c, t, len, 1, 3);
    } else {
        LogPeriod s;
        if (sk != 1) s.set_period(sk);     // one period is what a new sink has
        MC_CHECK(s.get_period() == sk, "get_period");
        int t = c.build(maxlen - 1, true);
        s.link(c.n[t].mod);
        label("period sink %d <- %s", sk, c.desc(t).c_str());
        settings(s, frames, chans);
        passes(s, s.got, c, t, len, sk, 2);
    }
    Hash h; for (auto& e : LOG) h << e.id; outcome(h.get());
}
// re-linking between passes
MC_SCENARIO(relinking, 3) {
    LOG.clear();
    Chain c;
    LogSink s;
    std::vector<int> mods;                 // available intermediate modules
    for (int k = 0; k < 4; ++k) {
        if (k % 2) { auto* m = c.keep(new Dyn); mods.push_back(c.add(KDyn, m, m)); }
        else { auto* m = c.keep(new Crtp<>); mods.push_back(c.add(KCrtp, m, m)); }
    }
    { auto* m = c.keep(new Emb<Crtp<Src>>); int i = c.add(KDyn, m, m); c.n[i].fixed = true; auto& in = m->backward();
      int j = c.add(KCrtp, &in, &in); c.n[j].fixed = true; c.n[i].kids = {j}; int k = c.add(KSrc, &in.backward(), &in.backward()); c.n[j].kids = {k}; mods.push_back(i); }
    std::vector<int> srcs;
    for (int k = 0; k < 2; ++k) { auto* m = c.keep(new Src); srcs.push_back(c.add(KSrc, m, m)); }
    int rounds = thorough() ? 4 : 3;
    for (int r = 0; r < rounds; ++r) {
        // choose an ordered selection of up to 2 (thorough 3) intermediates and a source
        int cnt = choose(3);
        std::vector<int> seq, pool(mods.begin(), mods.begin() + 4);
        for (int k = 0; k < cnt; ++k) { int q = choose((int)pool.size()); seq.push_back(pool[q]); pool.erase(pool.begin() + q); }
        int end = choose(3);
        int last = end == 2 ? mods[4] : srcs[end];
        BaseModule* cur = &s;
        int prev = -1;
        for (int m : seq) { if (prev < 0) cur->link(c.n[m].mod); else c.link(prev, m); prev = m; cur = c.n[m].mod; }
        if (prev < 0) s.link(c.n[last].mod); else c.link(prev, last);
        int top = seq.empty() ? last : seq[0];
        addlabel("%s;", c.desc(top).c_str());
        settings(s, 2, 1);
        passes(s, s.got, c, top, 2, 1, 2);
    }
    label("relink");
    Hash h; for (auto& e : LOG) h << e.id; outcome(h.get());
}
// an upstream embedded at compile time can be replaced
MC_SCENARIO(static_relink, 1) {
    LOG.clear();
    Chain c;
    struct S : SinkModule<Crtp<Dyn>> { std::vector<Vec> got; void process() override { got.push_back(grab(buff)); } } s;
    int n = range(0, 2), keep = choose(2);
    label("static relink");
    int a = -1, b = -1, src = -1;
    { auto* m = c.keep(new Src); src = c.add(KSrc, m, m); }
    for (int k = 0; k <= n; ++k) {
        if (k > 0) {
            Crtp<Dyn> fresh;
            auto* r = s.link_static(std::move(fresh));
            MC_CHECK(r == &s.backward(), "link_static result");
        }
        auto& x = s.backward();
        a = c.add(KCrtp, &x, &x);
        c.n[a].fixed = true;
        b = c.add(KDyn, &x.backward(), &x.backward());
        c.n[a].kids = {b};
        if (keep) { auto* m = c.keep(new Src); src = c.add(KSrc, m, m); }
        c.link(b, src);
        settings(s, 3, 1);
        passes(s, s.got, c, a, 3, 1, 2);
    }
    outcome((Hash() << n << keep).get());
}
// long chains and wide fans of every size in a ladder, large blocks
static int tall(Chain& c, int n, int pat) {
    int top = -1, cur = -1;
    auto put = [&](int i) { if (cur < 0) top = i; else c.link(cur, i); cur = i; };
    for (int k = 0; k < n; ++k) switch (pat == 4 ? k % 4 : pat) {
    case 0: { auto* m = c.keep(new Dyn); put(c.add(KDyn, m, m)); break; }
    case 1: { auto* m = c.keep(new Counter); put(c.add(KCounter, m, nullptr)); break; }
    case 2: { auto* m = c.keep(new DownH); put(c.add(KDown, m, m)); auto* q = c.keep(new Src); c.link(cur, c.add(KSrc, q, q)); break; }
    default: { auto* m = c.keep(new AmplitudeAdd<>(k + 1.0)); int i = c.add(KAdd, m, nullptr); c.n[i].val = k + 1.0; put(i); break; }
    }
    auto* q = c.keep(new Src); put(c.add(KSrc, q, q));
    return top;
}
MC_SCENARIO(scale_chain, 2) {
    LOG.clear();
    Chain c; LogSink s;
    int n = pick({6, 9, 15, 16, 17, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257});
    int t = tall(c, n, choose(5));
    label("chain of %d", n);
    s.link(c.n[t].mod);
    int passes_n = n < 20 ? 12 : 3;
    settings(s, 2, 2);
    passes(s, s.got, c, t, 4, 1, passes_n);
    outcome((Hash() << n).get());
}
MC_SCENARIO(scale_fan, 2) {
    LOG.clear();
    Chain c; LogSink s;
    int n = pick({4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 129, 257}), multi = flip();
    int i;
    if (multi) { auto* m = c.keep(new MultiMix); i = c.add(KMulti, m, nullptr); } else { auto* m = c.keep(new DownH); i = c.add(KDown, m, m); }
    for (int k = 0; k < n; ++k) { auto* q = c.keep(new Src); c.link(i, c.add(KSrc, q, q)); }
    label("fan of %d", n);
    s.link(c.n[i].mod);
    settings(s, 3, 1);
    passes(s, s.got, c, i, 3, 1, 4);
    outcome((Hash() << n << multi).get());
}
MC_SCENARIO(scale_blocks, 3) {
    LOG.clear();
    Chain c; LogPeriod s;
    auto g = scale::shape(thorough() ? 140000 : 20000);
    int per = pick({1, 2, 5, 64});
    if (per > 1 && (long)g.frames * g.chans * per > (thorough() ? 150000 : 10000)) prune();
    s.set_period(per);
    auto* m = c.keep(new Dyn); int t = c.add(KDyn, m, m);
    auto* d = c.keep(new DownH); int i = c.add(KDown, d, d); c.link(t, i);
    { auto* q = c.keep(new Src); c.link(i, c.add(KSrc, q, q)); }
    { auto* e = c.keep(new Emb<Src>); int k = c.add(KDyn, e, e); c.n[k].fixed = true; int j = c.add(KSrc, &e->backward(), &e->backward()); c.n[k].kids = {j}; c.link(i, k); }
    label("blocks of %d frames, %d channels, period %d", g.frames, g.chans, per);
    s.link(c.n[t].mod);
    settings(s, g.frames, g.chans);
    passes(s, s.got, c, t, g.frames * g.chans, per, 2);
    settings(s, 3, 2);
    passes(s, s.got, c, t, 6, per, 1);
    outcome((Hash() << g.frames << g.chans << per).get());
}
// many passes
MC_SCENARIO(scale_passes, 2) {
    LOG.clear();
    Chain c; LogSink s;
    int t = tall(c, 4, choose(5));
    label("many passes");
    s.link(c.n[t].mod);
    settings(s, range(1, 3), range(1, 2));
    passes(s, s.got, c, t, (int)(s.get_info()->out_buffer * s.get_info()->channels), 1, thorough() ? 70000 : 3000);
    outcome((Hash() << c.desc(t)).get());
}
