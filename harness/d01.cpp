// D01: parameters yield their constant or their modulating chain.
#include "chain.hpp"
#include "module_param.hpp"
#include "scale.hpp"
#include <cstring>
using namespace mc;
using namespace ch;
struct Probe : SourceModule {
    int id = 0, passes = 0; Vec last; std::string log; int inruns = 0;
    void process() override { reserve(); int i = 0; for (auto& x : buff) x = id * 1000 + passes * 50 + i++; ++passes; last = grab(buff); log += 'p'; }
    void start() override { log += 's'; }
    void stop() override { log += 't'; }
    void info_sync() override { log += 'i'; SourceModule::info_sync(); }
};
struct Half : AudioModule<> { void process() override { for (auto& x : buff) x /= 2; } };
struct Sink : SinkModule<> {};
static const int NP = 3;
struct Fetch { std::vector<Vec> v; std::vector<int> ch; std::vector<double> rate; int inscale = 1; };
template <class B, int N> struct Owner : B, Fetch {
    using B::B;
    void process() override {
        v.clear(); ch.clear(); rate.clear();
        for (auto* p : *this->get_array()) { AudioBuffer b = p->get(); v.push_back(grab(b)); ch.push_back(b.channels()); rate.push_back(b.get_samplerate()); }
        if constexpr (std::is_base_of_v<SourceModule, B>) this->reserve();
    }
    void info_sync() override { B::info_sync(); this->get_info()->in_buffer *= inscale; }
};
struct Bound { int mod = -1; double val = 0; };     // mod: index of the modulating source, -1 constant
template <class B, int N> static void run(int depth, int kind) {
    ModuleParam ps[3];
    Sink sink; Src up;
    std::unique_ptr<Owner<B, N>> o;
    if constexpr (N == 1) o = std::make_unique<Owner<B, N>>(&ps[0]); else if constexpr (N == 2) o = std::make_unique<Owner<B, N>>(&ps[0], &ps[1]); else o = std::make_unique<Owner<B, N>>(&ps[0], &ps[1], &ps[2]);
    Owner<B, N>& ow = *o;
    ow.inscale = 1 + choose(2);
    for (int k = 0; k < N; ++k) MC_CHECK((*ow.get_array())[k] == &ps[k], "parameter %d of the owner", k);
    BaseModule* front = &ow;
    if (kind != 1) { sink.link(&ow); front = &sink; }
    if (kind != 2) ow.link(&up);
    Probe src[4]; Half half[4];
    for (int k = 0; k < 4; ++k) { src[k].id = k + 1; half[k].link(&src[k]); }
    Bound b[3]; int used[4] = {-1, -1, -1, -1};
    for (int k = 0; k < N; ++k) { b[k].val = k + 0.1; ps[k].set_constant(b[k].val); }
    int gen = 0; int syncgen = -1; int sgen[4] = {-1, -1, -1, -1};   // settings generation the owner / each source has
    auto frames = [](int g) { return 1 + g % 3; }; auto chans = [](int g) { return 1 + g % 2; }; auto rate = [](int g) { return 8000.0 + 100 * g; };
    std::string want[4];
    for (int d = 0; d < depth; ++d) {
        int op = choose(6);
        if (op == 0) {                                  // bind a constant: a new one or the initial one
            int k = choose(N); b[k] = {-1, flip() ? k + 0.1 : (d + 1) * 1.3e7 + 0.7}; for (int& u : used) if (u == k) u = -1;
            ps[k].set_constant(b[k].val); addlabel("c%d", k);
        } else if (op == 1) {                           // bind a module chain not used by another parameter
            int k = choose(N); int m = choose(2); int q = -1;
            for (int j = 0; j < 4; ++j) if ((used[j] < 0 || used[j] == k) && b[k].mod != j && j % 2 == m) { q = j; break; }
            if (q < 0) prune();
            for (int& u : used) if (u == k) u = -1;
            used[q] = k; b[k].mod = q; addlabel("m%d=%d", k, q);
            BaseModule* top = q % 2 ? (BaseModule*)&half[q] : &src[q];
            MC_CHECK(ps[k].link(top) == top, "link result");
        } else if (op == 2) {                           // reconfigure and synchronise
            ++gen; auto* ci = front->get_chain_info(); ci->buffer_size = frames(gen); ci->channels = chans(gen); ci->sample_rate = rate(gen);
            front->meta_info_sync(); syncgen = gen; addlabel("i");
            for (int j = 0; j < 4; ++j) if (used[j] >= 0) { want[j] += 'i'; sgen[j] = gen; }
            for (int k = 0; k < N; ++k) {
                auto* i = ps[k].get_info();
                MC_CHECK(i->in_buffer == frames(gen) * ow.inscale && i->out_buffer == frames(gen) * ow.inscale && i->channels == chans(gen) && i->sample_rate == rate(gen), "parameter %d has settings %d/%d frames %d channels %g", k, i->in_buffer, i->out_buffer, i->channels, i->sample_rate);
                MC_CHECK(ps[k].get_chain_info() != front->get_chain_info(), "parameter shares the owner's chain record");
            }
        } else if (op == 3 || op == 4) {
            if (syncgen < 0) prune();
            if (op == 3) front->meta_start(); else front->meta_stop();
            addlabel(op == 3 ? "s" : "t");
            for (int j = 0; j < 4; ++j) if (used[j] >= 0) want[j] += op == 3 ? 's' : 't';
            for (int k = 0; k < N; ++k) {
                auto st = op == 3 ? BaseModule::State::Started : BaseModule::State::Stopped;
                MC_CHECK(ps[k].get_state() == st && ps[k].backward().get_state() == st, "parameter %d did not follow the owner's request", k);
            }
            MC_CHECK(ow.get_state() == (op == 3 ? BaseModule::State::Started : BaseModule::State::Stopped), "owner state");
        } else {                                        // a pass
            if (syncgen < 0) prune();
            addlabel("p");
            int before[4]; for (int j = 0; j < 4; ++j) before[j] = src[j].passes;
            front->meta_process();
            MC_CHECK(ow.v.size() == (size_t)N, "owner ran once");
            for (int j = 0; j < 4; ++j) if (used[j] >= 0) want[j] += 'p';
            for (int k = 0; k < N; ++k) {
                int g = b[k].mod < 0 ? syncgen : sgen[b[k].mod];
                Vec& v = ow.v[k];
                if (b[k].mod >= 0) {
                    Probe& s = src[b[k].mod];
                    MC_CHECK(s.passes == before[b[k].mod] + 1, "modulating chain of parameter %d advanced %d blocks for one request", k, s.passes - before[b[k].mod]);
                    Vec e = s.last; if (b[k].mod % 2) for (auto& x : e) x /= 2;
                    MC_CHECK(v == e, "parameter %d did not yield the block of its modulating chain", k);
                } else for (auto x : v) MC_CHECK(x == b[k].val, "parameter %d yields %g, bound to the constant %g", k, x, b[k].val);
                if (g == syncgen) {
                    MC_CHECK((int)v.size() == frames(g) * ow.inscale * chans(g), "parameter %d yields %zu samples, the owner's input block has %d", k, v.size(), frames(g) * ow.inscale * chans(g));
                    MC_CHECK(ow.ch[k] == chans(g) && ow.rate[k] == rate(g), "parameter %d: %d channels at %g", k, ow.ch[k], ow.rate[k]);
                }
            }
        }
        step();
        for (int j = 0; j < 4; ++j) MC_CHECK(src[j].log == want[j], "modulating source %d received %s, expected %s", j, src[j].log.c_str(), want[j].c_str());
        Hash h; h << syncgen; for (int k = 0; k < N; ++k) h << b[k].mod << b[k].val; state(h.get());
    }
    // direct requests
    if (syncgen >= 0) for (int r = 0; r < 2; ++r) for (int k = 0; k < N; ++k) {
        AudioBuffer x = ps[k].get();
        if (b[k].mod < 0) { for (size_t i = 0; i < x.size(); ++i) MC_CHECK(x.at(i) == b[k].val, "direct request of a constant"); MC_CHECK((int)x.size() == frames(syncgen) * ow.inscale * chans(syncgen), "size of a direct request: %zu", x.size()); }
        else { Vec e = src[b[k].mod].last; if (b[k].mod % 2) for (auto& y : e) y /= 2; MC_CHECK(grab(x) == e, "direct request of a module"); }
    }
    Hash h; for (auto& s : src) h << s.log; outcome(h.get());
}
MC_SCENARIO(histories, 4) {
    LOG.clear();
    int kind = choose(3), n = range(1, 3);
    static const char* kn[] = {"module", "sink", "source"};
    label("%s params=%d ", kn[kind], n);
    int d = (n == 1 ? 6 : 5) + (thorough() ? 1 : 0);
    if (kind == 0) { if (n == 1) run<ParamModule<1>, 1>(d, kind); else if (n == 2) run<ParamModule<2>, 2>(d, kind); else run<ParamModule<3>, 3>(d, kind); }
    else if (kind == 1) { if (n == 1) run<ParamSink<1>, 1>(d, kind); else if (n == 2) run<ParamSink<2>, 2>(d, kind); else run<ParamSink<3>, 3>(d, kind); }
    else { if (n == 1) run<ParamSource<1>, 1>(d, kind); else if (n == 2) run<ParamSource<2>, 2>(d, kind); else run<ParamSource<3>, 3>(d, kind); }
}
// a parameter used on its own
MC_SCENARIO(standalone, 2) {
    int how = choose(3);
    Probe s; s.id = 3; ConstModule cm(9.3);
    label("standalone %d", how);
    std::unique_ptr<ModuleParam> p;
    if (how == 0) p = std::make_unique<ModuleParam>(4.1);
    else if (how == 1) p = std::make_unique<ModuleParam>((AudioModule<>*)&s);
    else p = std::make_unique<ModuleParam>((AudioModule<>*)&cm);
    double cur = how == 0 ? 4.1 : 9.3; bool mod = how == 1;
    for (int d = 0; d < (thorough() ? 7 : 6); ++d) {
        int op = choose(5);
        if (op == 0 || op == 4) { cur = op ? 4.1 : d * 2.0 - 3; p->set_constant(cur); mod = false; }
        else if (op == 1) { p->link(&s); mod = true; }
        else if (op == 2) { p->get_chain_info()->buffer_size = 1 + d % 3; p->meta_info_sync(); }
        else {
            AudioBuffer b = p->get();
            if (mod) MC_CHECK(grab(b) == s.last && s.last.size(), "not the module's block");
            else { MC_CHECK(b.size() > 0, "no constant block"); for (size_t i = 0; i < b.size(); ++i) MC_CHECK(b.at(i) == cur, "constant %g expected, got %g", cur, b.at(i)); }
        }
        step();
        state((Hash() << cur << mod << s.passes).get());
    }
    outcome((Hash() << cur << mod << s.passes).get());
}
// any block size, values changed between the passes
template <int N> struct Big : ParamModule<N>, Fetch {
    using ParamModule<N>::ParamModule;
    void process() override { v.clear(); ch.clear(); rate.clear(); for (auto* p : *this->get_array()) { AudioBuffer b = p->get(); v.push_back(grab(b)); ch.push_back(b.channels()); rate.push_back(b.get_samplerate()); } }
};
MC_SCENARIO(scale_blocks, 3) {
    LOG.clear();
    auto g = scale::shape(thorough() ? 60000 : 6000, 2);
    ModuleParam ps[2]; Probe src; src.id = 2; ConstModule cm(0.5); Src up; Sink sink;
    Big<2> ow(&ps[0], &ps[1]);
    ow.link(&up); sink.link(&ow);
    int mod = choose(3);
    double rate = scale::rate(); if (rate != 44100 && g.frames * g.chans > 600) prune();
    label("%d frames, %d channels, %d", g.frames, g.chans, mod);
    ps[0].set_constant(1);
    if (mod == 1) ps[1].link(&src); else if (mod == 2) ps[1].link(&cm); else ps[1].set_constant(2);
    bool small = flip();                               // after a pass with small blocks
    if (small) { sink.get_chain_info()->buffer_size = 2; sink.meta_info_sync(); ps[0].set_constant(7); sink.meta_process(); MC_CHECK(ow.v[0] == Vec(2, 7.0), "small block"); }
    sink.get_chain_info()->buffer_size = g.frames; sink.get_chain_info()->channels = g.chans; sink.get_chain_info()->sample_rate = rate;
    sink.meta_info_sync(); sink.meta_start();
    for (int p = 0; p < 3; ++p) {
        double val = p == 1 ? -3.25 : p + 1.5;
        ps[0].set_constant(val);
        if (mod == 0) ps[1].set_constant(100 + val);
        sink.meta_process(); step();
        for (int k = 0; k < 2; ++k) MC_CHECK((long)ow.v[k].size() == (long)g.frames * g.chans && ow.ch[k] == g.chans && ow.rate[k] == rate, "parameter %d yields %zu samples, %d channels at %g", k, ow.v[k].size(), ow.ch[k], ow.rate[k]);
        for (double x : ow.v[0]) MC_CHECK(x == val, "parameter yields %g, bound to the constant %g", x, val);
        if (mod == 1) MC_CHECK(ow.v[1] == src.last, "parameter did not yield the block of its modulating chain");
        else for (double x : ow.v[1]) MC_CHECK(x == (mod ? 0.5 : 100 + val), "second parameter yields %g", x);
    }
    outcome((Hash() << g.frames << g.chans << mod << rate).get());
}
// many parameters on one owner
template <int N> static void many(std::vector<ModuleParam>& ps, Big<N>& ow) {
    Src up; Sink sink; ow.link(&up); sink.link(&ow);
    std::vector<std::unique_ptr<Probe>> src;
    int every = range(1, 3);
    for (int k = 0; k < N; ++k) { src.push_back(std::make_unique<Probe>()); src[k]->id = k + 1; if (k % every == 0) ps[k].link(src[k].get()); else ps[k].set_constant(k * 0.5); }
    sink.get_chain_info()->buffer_size = 3; sink.get_chain_info()->channels = 2;
    sink.meta_info_sync(); sink.meta_start();
    for (int p = 0; p < 5; ++p) {
        sink.meta_process(); step();
        for (int k = 0; k < N; ++k) {
            if (k % every == 0) { MC_CHECK(src[k]->passes == p + 1 && ow.v[k] == src[k]->last, "parameter %d of %d: chain advanced %d times in %d passes", k, N, src[k]->passes, p + 1); }
            else MC_CHECK(ow.v[k] == Vec(6, k * 0.5), "parameter %d of %d does not yield its constant", k, N);
        }
    }
    sink.meta_stop();
    for (int k = 0; k < N; ++k) if (k % every == 0) MC_CHECK(src[k]->log == "isppppp" "t", "source %d received %s", k, src[k]->log.c_str());
    outcome((Hash() << N << every).get());
}
template <int N, std::size_t... I> static void manyN(std::index_sequence<I...>) { std::vector<ModuleParam> ps(N); Big<N> ow(&ps[I]...); many<N>(ps, ow); }
MC_SCENARIO(scale_params, 1) {
    LOG.clear();
    int w = choose(6);
    label("many parameters");
    switch (w) {
    case 0: manyN<4>(std::make_index_sequence<4>()); break; case 1: manyN<5>(std::make_index_sequence<5>()); break; case 2: manyN<8>(std::make_index_sequence<8>()); break;
    case 3: manyN<9>(std::make_index_sequence<9>()); break; case 4: manyN<17>(std::make_index_sequence<17>()); break; default: manyN<40>(std::make_index_sequence<40>());
    }
}

// any constant, however it is given
MC_SCENARIO(values, 2) {
    LOG.clear();
    static const double vals[] = {0.0, -0.0, 0.1, -1.0 / 3, 16777217, 4294967297.0, 9007199254740993.0, 1e-40, 5e-324, -1e39, 1.7976931348623157e308, 1.0000000000000002, 0.9999999999999999, 65537.0625, -2147483649.5};
    double v = vals[choose(15)], w = vals[choose(15)];
    int how = choose(3); static const int N[] = {1, 2, 7, 64, 441, 1024}; int n = N[choose(6)];
    label("constants %.17g %.17g how %d", v, w, how);
    std::unique_ptr<ModuleParam> p; ConstModule a(v);
    if (how == 0) p = std::make_unique<ModuleParam>(v);
    else if (how == 1) { p = std::make_unique<ModuleParam>(); p->set_constant(v); }
    else p = std::make_unique<ModuleParam>((AudioModule<>*)&a);
    p->get_chain_info()->buffer_size = n; p->meta_info_sync(); p->meta_start();
    auto same = [](double x, double y) { return std::memcmp(&x, &y, sizeof x) == 0; };
    for (int r = 0; r < 4; ++r) {
        if (r == 2) { if (how == 2) a.set_value(w); else p->set_constant(w); }
        AudioBuffer b = p->get(); step();
        MC_CHECK((int)b.size() == n, "%zu samples of %d", b.size(), n);
        for (size_t i = 0; i < b.size(); ++i) MC_CHECK(same(b.at(i), r < 2 ? v : w), "constant %.17g expected, got %.17g", r < 2 ? v : w, (double)b.at(i));
    }
    outcome((Hash() << v << w << how << n).get());
}
