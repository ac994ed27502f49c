// Chain builder shared by the A checks: builds every topology of a bounded
// grammar out of instrumented user modules and the library's own modules,
// together with a reference description of what the chain is.
#pragma once
#include "mc.hpp"
#include "amp_module.hpp"
#include "audio_module.hpp"
#include "meta_audio.hpp"
#include "module_mixer.hpp"
#include "sink_module.hpp"
#include "source_module.hpp"
#include <memory>
#include <string>
#include <vector>
namespace ch {
using Vec = std::vector<double>;
struct Ev { char what; int id; Vec in; };   // p process, s start, t stop, f finish
inline std::vector<Ev> LOG;
inline Vec grab(AudioBuffer& b) { Vec v; for (std::size_t i = 0; i < b.size(); ++i) v.push_back(b.at(i)); return v; }
inline double fk(int id) { return 1.0 + 0.5 * id; }
inline double fc(int id) { return id * 0.25 - 1; }
struct Mark { virtual ~Mark() = default; int id = 0; bool lazy = false; };

// user module, plain
struct Dyn : AudioModule<>, Mark {
    Dyn() = default;
    Dyn(Dyn&&) = default;
    Dyn& operator=(Dyn&&) = default;
    AudioBuffer& b() { return buff; }
    void process() override { LOG.push_back({'p', id, grab(buff)}); for (auto& x : buff) x = x * fk(id) + fc(id); }
    void start() override { LOG.push_back({'s', id, {}}); }            // does not call the base hook
    void stop() override { LOG.push_back({'t', id, {}}); AudioModule<>::stop(); }
    void finish() override { LOG.push_back({'f', id, {}}); if (!lazy) this->done(); }
};
// user module with static dispatch, upstream linked or embedded
template <maecm B = BaseModule*>
struct Crtp : AudioModule<Crtp<B>, B>, Mark {
    Crtp() = default;
    Crtp(Crtp&&) = default;
    Crtp& operator=(Crtp&&) = default;
    void process() override { LOG.push_back({'p', id, grab(this->buff)}); for (auto& x : this->buff) x = x * fk(id) + fc(id); }
    void start() override { LOG.push_back({'s', id, {}}); BaseModule::start(); }
    void stop() override { LOG.push_back({'t', id, {}}); }
    void finish() override { LOG.push_back({'f', id, {}}); if (!lazy) AudioModule<Crtp<B>, B>::finish(); }
};
// user module with an embedded upstream and no static dispatch
template <maecm B>
struct Emb : AudioModule<void, B>, Mark {
    Emb() = default;
    Emb(Emb&&) = default;
    Emb& operator=(Emb&&) = default;
    void process() override { LOG.push_back({'p', id, grab(this->buff)}); for (auto& x : this->buff) x = x * fk(id) + fc(id); }
    void start() override { LOG.push_back({'s', id, {}}); }
    void stop() override { LOG.push_back({'t', id, {}}); }
    void finish() override { LOG.push_back({'f', id, {}}); if (!lazy) this->done(); }
};
inline double src_val(int id, int pass, int i) { return id * 1000 + pass * 64 + i + 1; }
struct Src : SourceModule, Mark {
    Src() = default;
    Src(Src&&) = default;
    Src& operator=(Src&&) = default;
    int passes = 0;
    void process() override {
        LOG.push_back({'p', id, {}});
        this->reserve();
        int i = 0;
        for (auto& x : buff) x = src_val(id, passes, i++);
        ++passes;
    }
    void start() override { LOG.push_back({'s', id, {}}); }
    void stop() override { LOG.push_back({'t', id, {}}); }
    void finish() override { LOG.push_back({'f', id, {}}); if (!lazy) this->done(); }
};
// intermediate fan-in / fan-out with hooks of their own
struct DownH : ModuleMixDown, Mark {
    void start() override { LOG.push_back({'s', id, {}}); }
    void stop() override { LOG.push_back({'t', id, {}}); }
    void finish() override { LOG.push_back({'f', id, {}}); if (!lazy) this->done(); }
};

enum Kind { KDyn, KCrtp, KDown, KUp, KMulti, KCounter, KLatency, KScale, KAdd, KSrc, KConst, KSink, KOpaque };
struct Node {
    Kind kind; int id; BaseModule* mod; bool logs = false; bool hooks = false; Mark* mark = nullptr;
    std::vector<int> kids; bool fixed = false;   // fixed: upstream embedded, cannot be re-linked
    int runs = 0; double val = 0;
};
struct Chain {
    std::vector<std::unique_ptr<BaseModule>> own;
    std::vector<Node> n;
    int next = 1;
    template <class T> T* keep(T* p) { own.emplace_back(p); return p; }
    int add(Kind k, BaseModule* m, Mark* mk) {
        Node x; x.kind = k; x.id = next++; x.mod = m; x.mark = mk;
        if (mk) { mk->id = x.id; x.logs = k != KDown; x.hooks = true; }
        n.push_back(x);
        return (int)n.size() - 1;
    }
    std::string desc(int i) const {
        static const char* nm[] = {"dyn", "crtp", "down", "up", "multi", "counter", "latency", "scale", "add", "src", "const", "sink", "op"};
        std::string s = nm[n[i].kind];
        if (n[i].fixed) s += "!";
        if (!n[i].kids.empty()) { s += "("; for (size_t k = 0; k < n[i].kids.size(); ++k) s += (k ? "," : "") + desc(n[i].kids[k]); s += ")"; }
        return s;
    }
    // chain of at most `len` more modules (a source included); returns node index
    int build(int len, bool fan) {
        if (len <= 1) return source();
        // choice of the next module
        int c = mc::choose(fan ? 12 : 9);
        switch (c) {
        case 0: return source();
        case 1: { auto* m = keep(new Dyn); int i = add(KDyn, m, m); link(i, build(len - 1, fan)); return i; }
        case 2: { auto* m = keep(new Crtp<>); int i = add(KCrtp, m, m); link(i, build(len - 1, fan)); return i; }
        case 3: { auto* m = keep(new Crtp<Dyn>); int i = add(KCrtp, m, m); n[i].fixed = true;
                  int j = add(KDyn, &m->backward(), &m->backward()); n[i].kids = {j}; link(j, len > 2 ? build(len - 2, fan) : source()); return i; }
        case 4: { auto* m = keep(new Emb<Src>); int i = add(KDyn, m, m); n[i].fixed = true;
                  int j = add(KSrc, &m->backward(), &m->backward()); n[i].kids = {j}; return i; }
        case 5: { auto* m = keep(new Counter); int i = add(KCounter, m, nullptr); link(i, build(len - 1, fan)); return i; }
        case 6: { auto* m = keep(new LatencyModule); int i = add(KLatency, m, nullptr); link(i, build(len - 1, fan)); return i; }
        case 7: { double v = 1.5 + next; int i; if (mc::flip()) { auto* m = keep(new AmplitudeScale<>(v)); i = add(KScale, m, nullptr); }
                  else { auto* m = keep(new AmplitudeAdd<>(v)); i = add(KAdd, m, nullptr); } n[i].val = v; link(i, build(len - 1, fan)); return i; }
        case 8: { auto* m = keep(new Emb<Crtp<Src>>); int i = add(KDyn, m, m); n[i].fixed = true;
                  auto& in = m->backward(); int j = add(KCrtp, &in, &in); n[j].fixed = true; n[i].kids = {j};
                  int k = add(KSrc, &in.backward(), &in.backward()); n[j].kids = {k}; return i; }
        case 9: { auto* m = keep(new DownH); int i = add(KDown, m, m); int k = 1 + mc::choose(3); for (int q = 0; q < k; ++q) link(i, build(std::min(len - 1, 2), fan)); return i; }
        case 10: { auto* m = keep(new ModuleMixUp); int i = add(KUp, m, nullptr); link(i, build(len - 1, fan)); return i; }
        default: { auto* m = keep(new MultiMix); int i = add(KMulti, m, nullptr); int k = 1 + mc::choose(2); for (int q = 0; q < k; ++q) link(i, build(std::min(len - 1, 2), fan)); return i; }
        }
    }
    int source() {
        if (mc::flip()) { auto* m = keep(new Src); return add(KSrc, m, m); }
        auto* m = keep(new ConstModule(0.5 * next)); int i = add(KConst, m, nullptr); n[i].val = 0.5 * (next - 1); return i;
    }
    void link(int i, int j) {
        BaseModule* r = n[i].mod->link(n[j].mod);
        MC_CHECK(r == n[j].mod, "link() returned %p instead of the linked module", (void*)r);
        if (n[i].kind == KDown || n[i].kind == KMulti) n[i].kids.push_back(j); else n[i].kids = {j};
    }
    // all nodes in upstream-first order
    void order(int i, std::vector<int>& o) const { for (int k : n[i].kids) order(k, o); o.push_back(i); }
    // reference: one pass over node i; expected process events are appended to ev
    Vec eval(int i, int len, std::vector<Ev>& ev) {
        Node& x = n[i];
        std::vector<Vec> in;
        for (int k : x.kids) in.push_back(eval(k, len, ev));
        Vec v;
        switch (n[i].kind) {
        case KSrc: ev.push_back({'p', n[i].id, {}}); for (int q = 0; q < len; ++q) v.push_back(src_val(n[i].id, n[i].runs, q)); break;
        case KConst: v.assign(len, n[i].val); break;
        case KDown: case KMulti: v.assign(len, 0.0); for (auto& w : in) for (int q = 0; q < len; ++q) v[q] += w[q]; break;
        case KScale: v = in[0]; for (auto& y : v) y *= n[i].val; break;
        case KAdd: v = in[0]; for (auto& y : v) y += n[i].val; break;
        case KDyn: case KCrtp: v = in[0]; ev.push_back({'p', n[i].id, v}); for (auto& y : v) y = y * fk(n[i].id) + fc(n[i].id); break;
        default: v = in[0];
        }
        ++n[i].runs;
        return v;
    }
};
inline void compare_log(const std::vector<Ev>& e, const char* what) {
    for (size_t i = 0; i < std::max(e.size(), LOG.size()); ++i) {
        MC_CHECK(i < LOG.size(), "%s: module %d was never run (%c)", what, e[i].id, e[i].what);
        MC_CHECK(i < e.size(), "%s: extra call %c of module %d", what, LOG[i].what, LOG[i].id);
        MC_CHECK(LOG[i].id == e[i].id && LOG[i].what == e[i].what, "%s: call %zu is %c of module %d, expected %c of module %d", what, i, LOG[i].what, LOG[i].id, e[i].what, e[i].id);
        MC_CHECK(LOG[i].in == e[i].in, "%s: module %d was handed a different buffer than its upstream produced (%zu samples, expected %zu)", what, e[i].id, LOG[i].in.size(), e[i].in.size());
    }
}
}  // namespace ch
