// A03: synchronising a chain gives every module the sink's settings.
#include "chain.hpp"
#include "scale.hpp"
using namespace mc;
using namespace ch;

template <class S> struct LogSink : S { Vec got; int ch = 0; double rate = 0; void process() override { got = grab(this->buff); ch = this->buff.channels(); rate = this->buff.get_samplerate(); } };
struct Cfg { int frames, chans; double rate; };
static const Cfg CFG[] = {{1, 1, 44100}, {3, 2, 8000}, {2, 1, 1000}, {0, 1, 44100}, {2, 3, 192000}};
static void set(BaseModule& s, const Cfg& g) { auto* ci = s.get_chain_info(); ci->buffer_size = g.frames; ci->channels = g.chans; ci->sample_rate = g.rate; }
static void verify(BaseModule& s, Chain& c, int top, const Cfg& g) {
    std::vector<int> nodes; c.order(top, nodes);
    auto one = [&](BaseModule* m, int id) {
        auto* i = m->get_info();
        MC_CHECK(i->sample_rate == g.rate && i->channels == g.chans && i->in_buffer == g.frames && i->out_buffer == g.frames,
                 "module %d of %s has rate %g channels %d in %d out %d, the sink %g %d %d", id, c.desc(top).c_str(), i->sample_rate, i->channels, i->in_buffer, i->out_buffer, g.rate, g.chans, g.frames);
        MC_CHECK(m->get_chain_info() == s.get_chain_info(), "module %d does not refer to the sink's chain record", id);
    };
    one(&s, 0);
    for (int k : nodes) one(c.n[k].mod, c.n[k].id);
    auto* ci = s.get_chain_info();
    MC_CHECK(ci->buffer_size == g.frames && ci->channels == g.chans && ci->sample_rate == g.rate, "the chain record itself changed");
    MC_CHECK(ci->module_num == (int)nodes.size() + 1, "chain record counts %d modules, there are %zu in sink <- %s", ci->module_num, nodes.size() + 1, c.desc(top).c_str());
}
template <class S> static void produce(LogSink<S>& s, Chain& c, int top, const Cfg& g) {
    s.meta_process();
    MC_CHECK((int)s.got.size() == g.frames * g.chans, "block of %zu samples, expected %d frames of %d channels from %s", s.got.size(), g.frames, g.chans, c.desc(top).c_str());
    MC_CHECK(s.ch == g.chans && s.rate == g.rate, "block has %d channels at %g, expected %d at %g from %s", s.ch, s.rate, g.chans, g.rate, c.desc(top).c_str());
}
template <class S> static void shape(int len, bool fan) {
    LogSink<S> s; Chain c; LOG.clear();
    int t;
    if constexpr (std::is_same_v<S, SinkModule<Dyn>>) { t = c.add(KDyn, &s.backward(), &s.backward()); c.link(t, c.build(len - 1, fan)); }
    else { t = c.build(len, fan); s.link(c.n[t].mod); }
    label("%s", c.desc(t).c_str());
    int rounds = 2;
    // first and second configuration with the number of synchronisations of each
    static const int V[][4] = {{0, 1, 1, 2}, {1, 2, 4, 1}, {2, 1, 3, 1}, {1, 1, 2, 1}, {0, 2, 4, 2}, {2, 2, 1, 1}, {3, 1, 1, 1}};
    const int* v = V[choose(fan && !thorough() ? 3 : 7)];
    for (int r = 0; r < rounds; ++r) {
        const Cfg& g = CFG[v[r * 2]];
        int syncs = v[r * 2 + 1];
        set(s, g);
        for (int k = 0; k < syncs; ++k) { s.meta_info_sync(); step(); verify(s, c, t, g); }
        if (r == 1) { s.meta_start(); verify(s, c, t, g); }
        produce(s, c, t, g);
        produce(s, c, t, g);
        verify(s, c, t, g);
        state((Hash() << g.frames << g.chans << syncs << (int)c.n.size()).get());
    }
    outcome((Hash() << c.desc(t)).get());
}
// every topology: configure, sync, process, reconfigure, sync, process
MC_SCENARIO(topologies, 4) {
    int k = choose(3);
    bool fan = flip();
    int len = fan ? 3 : 4;
    if (thorough() && !fan) len = 5;
    if (k == 0) shape<SinkModule<>>(len, fan);
    else if (k == 1) shape<PeriodSink>(len - 1, fan);
    else shape<SinkModule<Dyn>>(len, fan);
}
// histories of configuring, re-linking, adding inputs, partial syncs and passes
MC_SCENARIO(histories, 4) {
    LogSink<SinkModule<>> s; Chain c; LOG.clear();
    auto* d1 = c.keep(new Dyn); int a = c.add(KDyn, d1, d1);
    auto* d2 = c.keep(new Crtp<Dyn>); int b = c.add(KCrtp, d2, d2); c.n[b].fixed = true;
    int b2 = c.add(KDyn, &d2->backward(), &d2->backward()); c.n[b].kids = {b2};
    auto* mx = c.keep(new DownH); int f = c.add(KDown, mx, mx);
    auto* cn = c.keep(new Counter); int q = c.add(KCounter, cn, nullptr);
    auto mk = [&] { auto* m = c.keep(new Src); return c.add(KSrc, m, m); };
    c.link(a, mk()); c.link(b2, mk()); c.link(f, mk()); c.link(q, f);
    int tops[] = {a, b, q};
    int top = a; s.link(c.n[a].mod);
    Cfg want = CFG[0], have = CFG[0]; bool synced = false;
    set(s, want);
    label("history");
    int depth = thorough() ? 7 : 6;
    for (int i = 0; i < depth; ++i) {
        int op = choose(7);
        switch (op) {
        case 0: { want = CFG[want.frames == 1 ? 1 : want.frames == 3 ? 4 : 0]; set(s, want); break; }
        case 1: s.meta_info_sync(); have = want; synced = true; break;
        case 2: top = tops[(top == a ? 1 : top == b ? 2 : 0)]; s.link(c.n[top].mod); synced = false; break;
        case 3: if (c.n[f].kids.size() >= 3) prune(); c.link(f, mk()); if (top == q) synced = false; break;
        case 4: c.link(a, top == a && c.n[a].kids[0] != b ? (c.n[a].kids[0] == b ? mk() : mk()) : c.n[a].kids[0]); if (top == a) synced = false; break;
        case 5: { if (!synced || have.frames != want.frames) prune(); produce(s, c, top, have); break; }
        case 6: if (!synced) prune(); s.meta_start(); s.meta_stop(); break;
        }
        step();
        addlabel("%d", op);
        if (synced && have.frames == want.frames && have.chans == want.chans) verify(s, c, top, have);
        state((Hash() << have.frames << want.frames << synced << (top - a) << (int)c.n[f].kids.size()).get());
    }
    if (!synced || have.frames != want.frames) { s.meta_info_sync(); have = want; }
    verify(s, c, top, have);
    produce(s, c, top, have);
    s.meta_info_sync();
    verify(s, c, top, have);
    outcome((Hash() << have.frames << (top - a) << (int)c.n[f].kids.size() << (int)s.got.size()).get());
}
// chains and fans of every size in a ladder, any settings
MC_SCENARIO(scale_sizes, 3) {
    LogSink<SinkModule<>> s; Chain c; LOG.clear();
    int n = pick({6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257});
    int shape = choose(4), top = -1, cur = -1;
    auto put = [&](int i) { if (cur < 0) { top = i; s.link(c.n[i].mod); } else c.link(cur, i); cur = i; };
    auto src = [&] { auto* q = c.keep(new Src); return c.add(KSrc, q, q); };
    if (shape == 3) { auto* m = c.keep(new DownH); put(c.add(KDown, m, m)); for (int k = 0; k < n; ++k) c.link(cur, src()); }
    else {
        for (int k = 0; k < n; ++k) {
            if (shape == 0) { auto* m = c.keep(new Dyn); put(c.add(KDyn, m, m)); }
            else if (shape == 1) { if (k % 2) { auto* m = c.keep(new Counter); put(c.add(KCounter, m, nullptr)); } else { auto* m = c.keep(new Crtp<>); put(c.add(KCrtp, m, m)); } }
            else { auto* m = c.keep(new DownH); put(c.add(KDown, m, m)); c.link(cur, src()); }
        }
        put(src());
    }
    label("%d modules, shape %d", n, shape);
    static const Cfg G[] = {{2, 1, 44100}, {3, 2, 8000}, {1, 6, 192000}, {2, 300, 384000}};
    for (int r = 0; r < 2; ++r) {
        const Cfg& g = G[choose(4)];
        set(s, g);
        s.meta_info_sync(); step(); verify(s, c, top, g);
        produce(s, c, top, g);
    }
    outcome((Hash() << n << shape).get());
}
MC_SCENARIO(scale_settings, 3) {
    LogSink<SinkModule<>> s; Chain c; LOG.clear();
    auto g = scale::shape(thorough() ? 70000 : 20000);
    Cfg a{g.frames, g.chans, scale::rate()};
    if (a.rate != 44100 && g.frames * g.chans > 10000) prune();
    auto* d = c.keep(new Dyn); int t = c.add(KDyn, d, d); s.link(d);
    auto* m = c.keep(new DownH); int i = c.add(KDown, m, m); c.link(t, i);
    { auto* q = c.keep(new Src); c.link(i, c.add(KSrc, q, q)); }
    { auto* e = c.keep(new Emb<Src>); int k = c.add(KDyn, e, e); c.n[k].fixed = true; int j = c.add(KSrc, &e->backward(), &e->backward()); c.n[k].kids = {j}; c.link(i, k); }
    { auto* q = c.keep(new ConstModule(1)); int k = c.add(KConst, q, nullptr); auto* w = c.keep(new Counter); int j = c.add(KCounter, w, nullptr); c.link(j, k); c.link(i, j); }
    label("%d frames, %d channels at %g", a.frames, a.chans, a.rate);
    bool first = flip();
    if (first) { set(s, CFG[1]); s.meta_info_sync(); verify(s, c, t, CFG[1]); produce(s, c, t, CFG[1]); }
    set(s, a); s.meta_info_sync(); step(); verify(s, c, t, a); produce(s, c, t, a);
    LOG.clear();
    if (!first) { set(s, CFG[4]); s.meta_info_sync(); verify(s, c, t, CFG[4]); produce(s, c, t, CFG[4]); }
    outcome((Hash() << a.frames << a.chans << a.rate).get());
}
