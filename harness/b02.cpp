// B02: every consumer of a fan-out gets its own complete copy.
#include "chain.hpp"
#include "scale.hpp"
using namespace mc;
using namespace ch;
struct In : SourceModule {
    int passes = 0, frames = 1, chans = 1; double rate = 1; bool empty = false; std::string log;
    double base = 0;
    void process() override {
        ++passes;
        buff = AudioBuffer(empty ? 0 : frames, chans, rate);
        for (size_t i = 0; i < buff.size(); ++i) buff.at(i) = base + passes * 100 + i + 1;
    }
    void start() override { log += 's'; } void stop() override { log += 't'; } void finish() override { log += 'f'; this->done(); }
};
struct Consumer : AudioModule<> { AudioBuffer& b() { return buff; } int runs = 0; void process() override { ++runs; } };
struct Sink : SinkModule<> { AudioBuffer& b() { return buff; } };
static void same(AudioBuffer& b, const Vec& v, int ch, double rate, const char* who) {
    MC_CHECK(b.size() == v.size(), "%s: %zu samples, the block has %zu", who, b.size(), v.size());
    MC_CHECK(b.channels() == ch && b.get_samplerate() == rate, "%s: %d channels at %g, the block has %d at %g", who, b.channels(), b.get_samplerate(), ch, rate);
    for (size_t i = 0; i < v.size(); ++i) MC_CHECK(b.at(i) == v[i], "%s: sample %zu is %.12g, the block has %.12g", who, i, b.at(i), v[i]);
}
// passes, collections by consumers and modifications of the copies in any order
template <class M> static void collect(int consumers, int depth) {
    M up; In a, b2; a.base = 0; b2.base = 5000;
    constexpr bool multi = std::is_same_v<M, MultiMix>;
    up.link(&a);
    if (multi) up.link(&b2);
    std::vector<std::unique_ptr<Consumer>> cs;
    for (int k = 0; k < consumers; ++k) { cs.push_back(std::make_unique<Consumer>()); cs[k]->link(&up); MC_CHECK(up.num_outputs() == k + 1, "num_outputs"); }
    Vec cur; int curch = 1; double currate = 0; bool have = false;
    std::vector<Vec> kept(consumers); std::vector<int> kch(consumers, -1); std::vector<double> krate(consumers, 0);
    int shape = choose(4);
    static const int SH[][3] = {{1, 1, 8000}, {3, 2, 44100}, {2, 3, 96000}, {0, 2, 44100}};
    for (int d = 0; d < depth; ++d) {
        int op = choose(2 + 2 * consumers);
        if (op < 2) {                       // a new block (same shape or another one)
            if (op == 1) shape = (shape + 1) % 4;
            addlabel("pass%d", shape);
            for (In* x : {&a, &b2}) x->frames = SH[shape][0], x->chans = SH[shape][1], x->rate = SH[shape][2];
            up.get_info()->out_buffer = SH[shape][0]; up.get_info()->channels = SH[shape][1]; up.get_info()->sample_rate = SH[shape][2];
            up.meta_process(); step();
            cur.clear();
            for (int i = 0; i < SH[shape][0] * SH[shape][1]; ++i) cur.push_back(a.passes * 100 + i + 1 + (multi ? 5000 + b2.passes * 100 + i + 1 : 0));
            curch = SH[shape][1]; currate = SH[shape][2]; have = true;
        } else if (op < 2 + consumers) {    // a consumer collects
            if (!have) prune();
            int k = op - 2; addlabel("get%d", k);
            cs[k]->set_buffer(up.get_buffer()); step();
            kept[k] = cur; kch[k] = curch; krate[k] = currate;
        } else {                            // a consumer changes its copy
            int k = op - 2 - consumers; if (kch[k] < 0) prune();
            addlabel("mod%d", k);
            for (size_t i = 0; i < kept[k].size(); ++i) cs[k]->b().at(i) = kept[k][i] = -1000.0 * (k + 1) - i;
            cs[k]->b().resize(kept[k].size() + 2); kept[k].push_back(0); kept[k].push_back(0);
            for (size_t i = kept[k].size() - 2; i < kept[k].size(); ++i) cs[k]->b().at(i) = 0;
        }
        for (int k = 0; k < consumers; ++k) if (kch[k] >= 0) same(cs[k]->b(), kept[k], kch[k], krate[k], "copy kept by a consumer");
        Hash h; h << cur; for (auto& v : kept) h << v; state(h.get());
    }
    if (have) for (int k = 0; k < consumers; ++k) { cs[k]->set_buffer(up.get_buffer()); same(cs[k]->b(), cur, curch, currate, "collected copy"); }
    Hash h; for (auto& v : kept) h << v; outcome(h.get());
}
MC_SCENARIO(copies, 4) {
    int n = range(1, 3), multi = choose(2);
    label("%s consumers=%d", multi ? "multi" : "up", n);
    int depth = (n == 1 ? 7 : n == 2 ? 6 : 5) + (thorough() ? 1 : 0);
    if (multi) collect<MultiMix>(n, depth); else collect<ModuleMixUp>(n, depth);
}
// several sinks behind one fan-out, driven through the chain
MC_SCENARIO(chains, 3) {
    int n = range(1, 3), multi = choose(2), deep = choose(2);
    ModuleMixUp u; MultiMix m; In src; Consumer mid;
    AudioModule<>& up = multi ? static_cast<AudioModule<>&>(m) : static_cast<AudioModule<>&>(u);
    if (deep) { up.link(&mid); mid.link(&src); } else up.link(&src);
    int frames = range(1, 3), chans = range(1, 3); double rate = 8000 * chans;
    label("chain %s sinks=%d", multi ? "multi" : "up", n);
    src.frames = frames; src.chans = chans; src.rate = rate;
    std::vector<std::unique_ptr<Sink>> s; std::vector<std::unique_ptr<Consumer>> c;
    for (int k = 0; k < n; ++k) {
        s.push_back(std::make_unique<Sink>());
        c.push_back(std::make_unique<Consumer>());
        if (k % 2) s[k]->link(&up); else { s[k]->link(c[k].get()); c[k]->link(&up); }
        s[k]->get_chain_info()->buffer_size = frames; s[k]->get_chain_info()->channels = chans; s[k]->get_chain_info()->sample_rate = rate;
    }
    int ops = thorough() ? 6 : 5;
    bool synced = false; std::string want; int mask = 0;
    for (int d = 0; d < ops; ++d) {
        int op = choose(5); int k = choose(n);
        if (op == 0) {
            s[k]->meta_info_sync(); mask |= 1 << k;
            // the fan-out takes its settings from its latest consumer
            if (k == n - 1) synced = true;
            if (synced) for (BaseModule* x : {(BaseModule*)&up, (BaseModule*)&src}) { auto* i = x->get_info(); MC_CHECK(i->out_buffer == frames && i->channels == chans && i->sample_rate == rate, "settings not passed on through the fan-out: %d frames %d channels %g", i->out_buffer, i->channels, i->sample_rate); }
            if (n == 1) MC_CHECK(src.get_chain_info() == s[0]->get_chain_info(), "chain record not passed on");
        } else if (!synced || !(mask >> k & 1)) prune();
        else if (op == 1) { s[k]->meta_start(); want += 's'; MC_CHECK(up.get_state() == BaseModule::State::Started && src.get_state() == BaseModule::State::Started, "not started"); }
        else if (op == 2) { s[k]->meta_stop(); want += 't'; MC_CHECK(up.get_state() == BaseModule::State::Stopped && src.get_state() == BaseModule::State::Stopped, "not stopped"); }
        else if (op == 3) { s[k]->meta_finish(); want += 'f'; MC_CHECK(up.get_state() == BaseModule::State::Finished && src.get_state() == BaseModule::State::Finished, "not finished"); }
        else {
            s[k]->meta_process();
            Vec v; for (int i = 0; i < frames * chans; ++i) v.push_back(src.passes * 100 + i + 1);
            same(s[k]->b(), v, chans, rate, "block at the sink");
            for (auto& x : s[k]->b()) x = -1;
            for (int q = 0; q < n; ++q) if (q != k) { Consumer tmp; tmp.set_buffer(up.get_buffer()); same(tmp.b(), v, chans, rate, "block of another consumer"); for (auto& x : tmp.b()) x = 55; }
        }
        step();
        MC_CHECK(src.log == want, "source received %s, expected %s", src.log.c_str(), want.c_str());
        state((Hash() << src.log << src.passes << frames << chans).get());
    }
    outcome((Hash() << src.log << src.passes).get());
}
// any number of consumers, any block size, many passes
MC_SCENARIO(scale_copies, 3) {
    auto g = scale::shape(thorough() ? 30000 : 6000, 1);
    int n = pick({1, 2, 4, 9, 33, 100}), multi = flip();
    if ((long)g.frames * g.chans * n > 300000) prune();
    label("%d frames, %d channels, %d consumers", g.frames, g.chans, n);
    ModuleMixUp u; MultiMix m; In src; src.frames = g.frames; src.chans = g.chans; src.rate = scale::rate();
    if (src.rate != 44100 && (g.frames > 17 || n > 2)) prune();
    AudioModule<>& up = multi ? static_cast<AudioModule<>&>(m) : static_cast<AudioModule<>&>(u);
    up.link(&src);
    std::vector<std::unique_ptr<Consumer>> cs;
    for (int k = 0; k < n; ++k) {
        cs.push_back(std::make_unique<Consumer>()); cs[k]->link(&up);
        MC_CHECK((multi ? m.num_outputs() : u.num_outputs()) == k + 1, "num_outputs after attaching %d", k + 1);
    }
    up.get_info()->out_buffer = g.frames; up.get_info()->channels = g.chans; up.get_info()->sample_rate = src.rate;
    for (int p = 0; p < 3; ++p) {
        up.meta_process(); step();
        Vec v; for (long i = 0; i < (long)g.frames * g.chans; ++i) v.push_back(src.passes * 100 + i + 1);
        for (int k = 0; k < n; ++k) {
            cs[k]->set_buffer(up.get_buffer());
            same(cs[k]->b(), v, g.chans, src.rate, "collected copy");
            for (auto& x : cs[k]->b()) x = -k - 1;
        }
        for (int k = 0; k < n; ++k) for (auto& x : cs[k]->b()) MC_CHECK(x == -k - 1, "a copy changed after it was collected");
    }
    MC_CHECK(src.passes == 3, "source ran %d times in 3 passes", src.passes);
    outcome((Hash() << g.frames << g.chans << n << multi << src.rate).get());
}
