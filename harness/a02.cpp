// A02: start, stop and finish reach every module of a chain.
#include "chain.hpp"
#include "scale.hpp"
using namespace mc;
using namespace ch;
using St = BaseModule::State;
static const char* nm(St s) { static const char* n[] = {"created", "started", "finishing", "finished", "stopped"}; return n[(int)s]; }

template <class S> struct HookSink : S, Mark {
    void process() override {}
    void start() override { LOG.push_back({'s', id, {}}); }
    void stop() override { LOG.push_back({'t', id, {}}); }
    void finish() override { LOG.push_back({'f', id, {}}); if (!lazy) this->done(); }
};
struct Model { std::vector<St> st; int finished = 0; };

static void requests(BaseModule& sink, Chain& c, std::vector<int> nodes, int depth, bool fromtop) {
    // nodes: upstream first, the sink last
    Model m; m.st.assign(c.n.size(), St::Created);
    BaseModule* front = fromtop ? c.n[nodes[nodes.size() - 2]].mod : &sink;
    if (fromtop) nodes.pop_back();
    ChainInfo* ci = sink.get_chain_info();
    for (int i = 0; i < depth; ++i) {
        std::vector<int> open;
        for (int k : nodes) if (m.st[k] == St::Finishing) open.push_back(k);
        int op = choose(4 + (open.empty() ? 0 : 1));
        LOG.clear();
        std::vector<Ev> ev;
        char hook = op == 0 ? 's' : op == 1 ? 't' : 'f';
        if (op < 3) {
            note("%s", op == 0 ? "start" : op == 1 ? "stop" : "finish");
            if (op == 0) front->meta_start(); else if (op == 1) front->meta_stop(); else front->meta_finish();
            for (int k : nodes) {
                if (c.n[k].hooks) ev.push_back({hook, c.n[k].id, {}});
                if (op == 0) m.st[k] = St::Started;
                else if (op == 1) m.st[k] = St::Stopped;
                else if (c.n[k].mark && c.n[k].mark->lazy) m.st[k] = St::Finishing;
                else { m.st[k] = St::Finished; ++m.finished; }
            }
            compare_log(ev, op == 0 ? "start request" : op == 1 ? "stop request" : "finish request");
        } else if (op == 3) {
            note("pass");
            front->meta_process();
            for (auto& e : LOG) MC_CHECK(e.what == 'p', "a processing pass called hook %c of module %d", e.what, e.id);
        } else {
            int k = open[choose((int)open.size())];
            note("done of %d", c.n[k].id);
            c.n[k].mod->done();
            m.st[k] = St::Finished; ++m.finished;
        }
        step();
        for (int k : nodes)
            MC_CHECK(c.n[k].mod->get_state() == m.st[k], "module %d of %s is %s, expected %s after request %d", c.n[k].id, c.desc(nodes.back()).c_str(), nm(c.n[k].mod->get_state()), nm(m.st[k]), op);
        MC_CHECK(ci->module_finish == m.finished, "%d modules counted as finished, expected %d", ci->module_finish, m.finished);
        Hash h; for (int k : nodes) h << m.st[k]; h << m.finished; state(h.get());
    }
    Hash h; for (int k : nodes) h << (int)m.st[k]; outcome(h.get());
}
static void lazies(Chain& c, const std::vector<int>& nodes) {
    std::vector<int> hk;
    for (int k : nodes) if (c.n[k].mark) hk.push_back(k);
    int sel = choose((int)hk.size() + 2);   // none, all, one of them
    if (sel == 1) for (int k : hk) c.n[k].mark->lazy = true;
    if (sel >= 2) c.n[hk[sel - 2]].mark->lazy = true;
}
template <class S> static void with_sink(int maxlen, bool fan, int depth) {
    HookSink<S> s;
    Chain c; LOG.clear();
    int si = c.add(KSink, &s, &s);
    int t;
    if constexpr (std::is_same_v<S, SinkModule<Dyn>>) {
        t = c.add(KDyn, &s.backward(), &s.backward());
        c.link(t, c.build(maxlen - 1, fan));
    } else { t = c.build(maxlen, fan); s.link(c.n[t].mod); }
    c.n[si].kids = {t};
    std::vector<int> nodes; c.order(si, nodes);
    label("%s", c.desc(si).c_str());
    s.get_chain_info()->buffer_size = 2;
    s.meta_info_sync();
    lazies(c, nodes);
    bool top = flip();
    addlabel("%s", top ? " front=module behind the sink" : "");
    requests(s, c, nodes, depth, top);
}
// every topology, short histories
MC_SCENARIO(topologies, 4) {
    int k = choose(3);
    bool fan = flip();
    int len = fan ? 2 : 3, d = thorough() ? 4 : 3;
    if (k == 0) with_sink<SinkModule<>>(len, fan, d);
    else if (k == 1) with_sink<PeriodSink>(len, fan, thorough() ? 3 : 2);
    else with_sink<SinkModule<Dyn>>(len + 1, fan, thorough() ? 3 : 2);
}
// longer chains, every single request (thorough: every pair)
MC_SCENARIO(longer, 4) {
    if (flip()) with_sink<SinkModule<>>(3, true, 1);
    else with_sink<SinkModule<>>(thorough() ? 5 : 4, false, thorough() ? 2 : 1);
}
// fewer topologies, long histories
MC_SCENARIO(histories, 4) {
    with_sink<SinkModule<>>(2, false, thorough() ? 7 : 5);
}
// chains and fans of every size in a ladder
MC_SCENARIO(scale_sizes, 3) {
    HookSink<SinkModule<>> s;
    Chain c; LOG.clear();
    int si = c.add(KSink, &s, &s), cur = si;
    auto put = [&](int i) { if (cur == si) s.link(c.n[i].mod); else c.link(cur, i); if (cur == si) c.n[si].kids = {i}; cur = i; };
    int n = pick({5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257});
    int shape = choose(4);
    if (shape == 3) {                                  // one wide fan
        auto* m = c.keep(new DownH); put(c.add(KDown, m, m));
        for (int k = 0; k < n; ++k) { auto* q = c.keep(new Src); c.link(cur, c.add(KSrc, q, q)); }
    } else {
        for (int k = 0; k < n; ++k) {
            if (shape == 0) { auto* m = c.keep(new Dyn); put(c.add(KDyn, m, m)); }
            else if (shape == 1) { if (k % 2) { auto* m = c.keep(new Counter); put(c.add(KCounter, m, nullptr)); } else { auto* m = c.keep(new Crtp<>); put(c.add(KCrtp, m, m)); } }
            else { auto* m = c.keep(new DownH); put(c.add(KDown, m, m)); auto* q = c.keep(new Src); c.link(cur, c.add(KSrc, q, q)); }
        }
        auto* q = c.keep(new Src); put(c.add(KSrc, q, q));
    }
    std::vector<int> nodes; c.order(si, nodes);
    label("%d modules, shape %d", n, shape);
    s.get_chain_info()->buffer_size = 2;
    s.meta_info_sync();
    int lz = choose(3);
    if (lz) for (int k : nodes) if (c.n[k].mark && (lz == 1 || c.n[k].id % 2)) c.n[k].mark->lazy = true;
    bool top = flip();
    Model m; m.st.assign(c.n.size(), St::Created);
    if (top) nodes.pop_back();
    BaseModule* front = c.n[nodes.back()].mod;
    ChainInfo* ci = s.get_chain_info();
    for (int i = 0; i < 2; ++i) {
        int op = choose(3);
        LOG.clear();
        std::vector<Ev> ev;
        for (int k : nodes) if (c.n[k].hooks) ev.push_back({op == 0 ? 's' : op == 1 ? 't' : 'f', c.n[k].id, {}});
        if (op == 0) front->meta_start(); else if (op == 1) front->meta_stop(); else front->meta_finish();
        compare_log(ev, op == 0 ? "start request" : op == 1 ? "stop request" : "finish request");
        for (int k : nodes) {
            m.st[k] = op == 0 ? St::Started : op == 1 ? St::Stopped : c.n[k].mark && c.n[k].mark->lazy ? St::Finishing : St::Finished;
            if (m.st[k] == St::Finished) ++m.finished;
        }
        auto check = [&] {
            for (int k : nodes) MC_CHECK(c.n[k].mod->get_state() == m.st[k], "module %d is %s, expected %s after request %d", c.n[k].id, nm(c.n[k].mod->get_state()), nm(m.st[k]), op);
            MC_CHECK(ci->module_finish == m.finished, "%d modules counted as finished, expected %d", ci->module_finish, m.finished);
        };
        step(); check();
        bool any = false;
        for (int k : nodes) if (m.st[k] == St::Finishing) { c.n[k].mod->done(); m.st[k] = St::Finished; ++m.finished; any = true; }
        if (any) check();
        state((Hash() << n << shape << op << m.finished).get());
    }
    outcome((Hash() << n << shape << lz << m.finished).get());
}
