// B01: a fan-in outputs the sum of its inputs.
#include "chain.hpp"
#include "scale.hpp"
using namespace mc;
using namespace ch;
// input delivering blocks of chosen shape and content
struct In : SourceModule {
    int id = 0, passes = 0; std::vector<Vec> plan; int chans = 1; double rate = 44100;
    std::string* log = nullptr;
    void ev(char c) { if (log) { *log += c; *log += char('0' + id); } }
    void process() override {
        ev('p');
        const Vec& v = plan[passes++];
        buff = AudioBuffer(0, chans, rate);
        buff.resize(v.size());
        for (size_t i = 0; i < v.size(); ++i) buff.at(i) = v[i];
    }
    void start() override { ev('s'); }
    void stop() override { ev('t'); }
    void finish() override { ev('f'); this->done(); }
    void info_sync() override { ev('i'); SourceModule::info_sync(); }
};
struct Sink : SinkModule<> { AudioBuffer got; void process() override { got = buff; } };
static double val(int in, int pass, int i) { return (in + 1) * 10 + pass * 100 + i * 0.5 + 1; }
template <class M> static void sums(int n, int frames, int chans, double rate, int passes) {
    std::string log;
    M mix; Sink s; s.link(&mix);
    std::vector<std::unique_ptr<In>> in;
    std::vector<std::unique_ptr<Dyn>> mid;
    LOG.clear();
    int via = n ? choose(2) : 0;          // inputs behind a pass-through module or directly linked
    struct Thru : AudioModule<> {};
    std::vector<std::unique_ptr<Thru>> thru;
    for (int k = 0; k < n; ++k) {
        in.push_back(std::make_unique<In>()); in[k]->id = k; in[k]->log = &log; in[k]->chans = chans; in[k]->rate = rate;
        BaseModule* b = in[k].get();
        if (via && k % 2 == 0) { thru.push_back(std::make_unique<Thru>()); thru.back()->link(b); b = thru.back().get(); }
        MC_CHECK(mix.link(b) == b, "link result");
        MC_CHECK(mix.num_inputs() == k + 1, "num_inputs %d after attaching %d", mix.num_inputs(), k + 1);
    }
    s.get_chain_info()->buffer_size = frames; s.get_chain_info()->channels = chans; s.get_chain_info()->sample_rate = rate;
    std::string want;
    auto each = [&](char c) { want.clear(); for (int k = 0; k < n; ++k) { want += c; want += char('0' + k); } };
    s.meta_info_sync(); each('i');
    MC_CHECK(log == want, "settings requests reached %s, expected %s", log.c_str(), want.c_str());
    log.clear(); s.meta_start(); each('s'); MC_CHECK(log == want, "start requests reached %s, expected %s", log.c_str(), want.c_str());
    int len = frames * chans;
    for (int p = 0; p < passes; ++p) {
        Vec exp(len, 0.0);
        for (int k = 0; k < n; ++k) {
            int c = choose(3);                 // as configured, shorter, longer
            if (p && c == 0) c = 0;
            int sz = c == 0 ? len : c == 1 ? (len > 0 ? choose(std::min(len, 2)) * (len - 1) / 1 : 0) : len + 1 + k;
            Vec v; for (int i = 0; i < sz; ++i) v.push_back(val(k, p, i));
            in[k]->plan.push_back(v);
            for (int i = 0; i < std::min(sz, len); ++i) exp[i] += v[i];
        }
        log.clear(); each('p');
        s.meta_process(); step();
        MC_CHECK(log == want, "pass ran inputs %s, expected %s", log.c_str(), want.c_str());
        MC_CHECK((int)s.got.size() == len, "block of %zu samples, expected %d", s.got.size(), len);
        MC_CHECK(s.got.channels() == chans && s.got.get_samplerate() == rate, "block has %d channels at %g", s.got.channels(), s.got.get_samplerate());
        for (int i = 0; i < len; ++i) MC_CHECK(s.got.at(i) == exp[i], "sample %d of pass %d is %.12g, the sum is %.12g", i, p, s.got.at(i), exp[i]);
        Hash h; h << exp; state(h.get());
    }
    log.clear(); s.meta_stop(); each('t'); MC_CHECK(log == want, "stop requests reached %s, expected %s", log.c_str(), want.c_str());
    log.clear(); s.meta_finish(); each('f'); MC_CHECK(log == want, "finish requests reached %s, expected %s", log.c_str(), want.c_str());
    log.clear(); s.meta_info_sync(); each('i'); MC_CHECK(log == want, "settings requests reached %s, expected %s", log.c_str(), want.c_str());
    MC_CHECK(mix.get_state() == BaseModule::State::Finished, "fan-in not finished");
    outcome((Hash() << n << frames << chans << passes << via).get());
}
MC_SCENARIO(sizes, 4) {
    int n = range(0, thorough() ? 4 : 3), frames = range(0, 3), chans = range(1, 3);
    int multi = choose(2);
    double rate = chans == 2 ? 8000 : 44100;
    int passes = n <= 1 ? 3 : n >= 4 ? 1 : 2;
    label("n=%d frames=%d channels=%d %s", n, frames, chans, multi ? "multi" : "down");
    if (multi) sums<MultiMix>(n, frames, chans, rate, passes); else sums<ModuleMixDown>(n, frames, chans, rate, passes);
}
// nested fan-ins, inputs attached between passes, settings changed between passes
MC_SCENARIO(histories, 3) {
    std::string log;
    ModuleMixDown top, sub; MultiMix sub2; Sink s; s.link(&top);
    std::vector<std::unique_ptr<In>> in;
    struct Att { int where; int in; };
    std::vector<int> at;                    // where every input is attached
    bool subon[2] = {false, false};
    std::vector<int> order;                 // attachments of top: >=0 input, -1 sub, -2 sub2
    int frames = 2, chans = 1;
    bool synced = false;
    label("history");
    int depth = thorough() ? 9 : 8, pass = 0;
    for (int d = 0; d < depth; ++d) {
        int op = choose(6);
        addlabel("%d", op);
        if (op <= 2) {
            if (in.size() >= 4) prune();
            if (op && !subon[op - 1]) { subon[op - 1] = true; if (op == 1) top.link(&sub); else top.link(&sub2); order.push_back(-op); }
            auto m = std::make_unique<In>(); m->id = (int)in.size(); m->log = &log;
            for (int k = 0; k < pass; ++k) m->plan.push_back({});
            m->passes = pass;
            if (op == 0) { top.link(m.get()); order.push_back(m->id); } else if (op == 1) sub.link(m.get()); else sub2.link(m.get());
            in.push_back(std::move(m)); at.push_back(op);
            synced = false;
        } else if (op == 3) { s.get_chain_info()->buffer_size = frames; s.get_chain_info()->channels = chans; s.meta_info_sync(); synced = true; }
        else if (op == 4) { frames = frames == 2 ? 3 : 2; chans = chans % 2 + 1; synced = false; }
        else {
            if (!synced) prune();
            int len = frames * chans;
            Vec exp(len, 0.0);
            std::string want;
            for (auto& m : in) { Vec v; int sz = std::max(0, len + (m->id + pass) % 3 - 1); for (int i = 0; i < sz; ++i) v.push_back(val(m->id, pass, i)); for (int i = 0; i < std::min(sz, len); ++i) exp[i] += v[i]; m->plan.push_back(v); m->chans = chans; }
            for (int o : order) if (o >= 0) { want += 'p'; want += char('0' + o); } else for (auto& m : in) if (at[m->id] == -o) { want += 'p'; want += char('0' + m->id); }
            log.clear(); s.meta_process(); ++pass; step();
            MC_CHECK(log == want, "pass ran inputs %s, expected %s", log.c_str(), want.c_str());
            MC_CHECK((int)s.got.size() == len && s.got.channels() == chans, "block of %zu samples", s.got.size());
            for (int i = 0; i < len; ++i) MC_CHECK(s.got.at(i) == exp[i], "sample %d is %.12g, the sum is %.12g", i, s.got.at(i), exp[i]);
        }
        state((Hash() << (int)in.size() << frames << chans << synced << pass << (int)order.size()).get());
    }
    outcome((Hash() << (int)in.size() << pass << (int)order.size()).get());
}
// any number of inputs, any block size
MC_SCENARIO(scale_inputs, 3) {
    int n = pick({4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257});
    int multi = flip(), pat = choose(4), frames = range(1, 3), chans = pick({1, 2, 8});
    label("%d inputs, pattern %d", n, pat);
    ModuleMixDown a; MultiMix b; Sink s;
    if (multi) s.link(&b); else s.link(&a);
    std::vector<std::unique_ptr<In>> in;
    for (int k = 0; k < n; ++k) {
        in.push_back(std::make_unique<In>()); in[k]->chans = chans;
        if (multi) b.link(in[k].get()); else a.link(in[k].get());
        MC_CHECK((multi ? b.num_inputs() : a.num_inputs()) == k + 1, "num_inputs after attaching %d", k + 1);
    }
    s.get_chain_info()->buffer_size = frames; s.get_chain_info()->channels = chans;
    s.meta_info_sync(); s.meta_start();
    int len = frames * chans;
    for (int p = 0; p < 4; ++p) {
        Vec exp(len, 0.0);
        for (int k = 0; k < n; ++k) {
            int sz = pat == 0 ? len : pat == 1 ? (k + p) % (len + 3) : pat == 2 ? (k == n - 1 ? len : 0) : len + (k % 2);
            Vec v; for (int i = 0; i < sz; ++i) v.push_back(val(k, p, i));
            in[k]->plan.push_back(v);
            for (int i = 0; i < std::min(sz, len); ++i) exp[i] += v[i];
        }
        s.meta_process(); step();
        for (int k = 0; k < n; ++k) MC_CHECK(in[k]->passes == p + 1, "input %d of %d ran %d times in %d passes", k, n, in[k]->passes, p + 1);
        MC_CHECK((int)s.got.size() == len && s.got.channels() == chans, "block of %zu samples, expected %d", s.got.size(), len);
        for (int i = 0; i < len; ++i) MC_CHECK(s.got.at(i) == exp[i], "sample %d of pass %d is %.12g, the sum of %d inputs is %.12g", i, p, s.got.at(i), n, exp[i]);
        state((Hash() << exp).get());
    }
    s.meta_finish();
    for (int k = 0; k < n; ++k) MC_CHECK(in[k]->get_state() == BaseModule::State::Finished, "input %d of %d not finished", k, n);
    outcome((Hash() << n << multi << pat << frames << chans).get());
}
MC_SCENARIO(scale_blocks, 3) {
    auto g = scale::shape(thorough() ? 100000 : 20000, 2);
    int multi = flip(), pat = choose(3);
    label("%d frames, %d channels, pattern %d", g.frames, g.chans, pat);
    ModuleMixDown a; MultiMix b; Sink s; In in[3];
    if (multi) s.link(&b); else s.link(&a);
    for (auto& x : in) { x.chans = g.chans; if (multi) b.link(&x); else a.link(&x); }
    s.get_chain_info()->buffer_size = g.frames; s.get_chain_info()->channels = g.chans;
    s.meta_info_sync(); s.meta_start();
    long len = (long)g.frames * g.chans;
    for (int p = 0; p < 2; ++p) {
        Vec exp(len, 0.0);
        for (int k = 0; k < 3; ++k) {
            long sz = pat == 0 ? len : k == pat ? len / 2 : k == 0 ? len + g.chans : len - 1;
            Vec v; for (long i = 0; i < sz; ++i) v.push_back(val(k, p, i));
            for (long i = 0; i < std::min(sz, len); ++i) exp[i] += v[i];
            in[k].plan.push_back(std::move(v));
        }
        s.meta_process(); step();
        MC_CHECK((long)s.got.size() == len && s.got.channels() == g.chans, "block of %zu samples, expected %ld", s.got.size(), len);
        for (long i = 0; i < len; ++i) MC_CHECK(s.got.at(i) == exp[i], "sample %ld of pass %d is %.12g, the sum is %.12g", i, p, s.got.at(i), exp[i]);
    }
    outcome((Hash() << g.frames << g.chans << multi << pat).get());
}
