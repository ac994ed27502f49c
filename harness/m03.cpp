// M03: re-blocking preserves the sample stream for all block sizes.
#include "mc.hpp"
#include "scale.hpp"
#include "audio_module.hpp"
#include "meta_audio.hpp"
#include "sink_module.hpp"
#include <memory>
using namespace mc;
namespace {
struct Src : SourceModule {   // blocks of the sizes the model chooses, samples numbered through
    int ch = 1, runs = 0; int64_t count = 0; std::vector<int> ends; int (*next)() = nullptr; int empties = 0;
    void process() override {
        int f = next(); ++runs;
        if (!f && ++empties > 1) f = 1;      // upstream does not deliver nothing for ever
        if (f) empties = 0;
        AudioBuffer b; b.set_channels(ch); b.set_samplerate(48000); b.resize(f * ch);
        for (int i = 0; i < f * ch; ++i) b.at(i) = (double)++count;
        ends.push_back((int)count);
        set_buffer(std::move(b));
    }
};
struct Pass : AudioModule<> { };
void block(AudioBuffer& b, int frames, int ch, double rate, int64_t& pos) {
    MC_CHECK((int)b.size() == frames * ch, "block of %zu samples, configured are %d", b.size(), frames * ch);
    MC_CHECK(b.channels() == ch, "block of %d channels, configured are %d", b.channels(), ch);
    MC_CHECK(b.get_samplerate() == rate, "block at %g, configured is %g", b.get_samplerate(), rate);
    for (size_t i = 0; i < b.size(); ++i) { ++pos; MC_CHECK(b.at(i) == (double)pos, "sample %zu of the block is number %g of the stream, expected %lld", i, b.at(i), (long long)pos); }
}
// the fewest upstream blocks that cover the samples delivered so far
int needed(const Src& s, int64_t pos) { if (!pos) return 0; int k = 0; while (k < (int)s.ends.size() && s.ends[k] < pos) ++k; return k + 1; }
}
MC_SCENARIO(divisions, 4) {
    Src s; UniformBuffer u; Pass p;
    s.ch = range(1, 3); s.next = [] { return choose(thorough() ? 6 : 5); };
    int n = range(0, thorough() ? 5 : 4);
    bool deep = flip();
    if (deep) u.link(&p)->link(&s); else u.link(&s);
    u.get_info()->channels = s.ch; u.get_info()->out_buffer = n;
    label("channels=%d block=%d deep=%d", s.ch, n, deep);
    int64_t pos = 0; bool keep = flip();
    int passes = n <= 1 ? 4 : n == 2 ? 3 : 2;
    for (int i = 0; i < passes; ++i) {
        u.meta_process(); step();
        AudioBuffer b = u.get_buffer();
        block(b, n, s.ch, 44100, pos);
        if (keep) u.set_buffer(std::move(b));     // a block left with the module is of no importance
        MC_CHECK(s.runs == needed(s, pos), "upstream was run %d times for %lld samples, %d suffice", s.runs, (long long)pos, needed(s, pos));
        state((Hash() << n << s.ch << s.count - pos << (int)s.ends.size()).get());
    }
    outcome((Hash() << n << s.ch << pos << s.count).get());
}
// block size changed between passes
MC_SCENARIO(resized, 4) {
    Src s; UniformBuffer u; u.link(&s);
    s.ch = range(1, 2); s.next = [] { return range(0, thorough() ? 3 : 2); };
    int64_t pos = 0;
    label("channels=%d", s.ch);
    for (int i = 0; i < 3; ++i) {
        int n = range(0, 3); u.get_info()->channels = s.ch; u.get_info()->out_buffer = n;
        u.meta_process(); step(); AudioBuffer b = u.get_buffer(); block(b, n, s.ch, 44100, pos);
        MC_CHECK(s.runs == needed(s, pos), "upstream was run %d times for %lld samples, %d suffice", s.runs, (long long)pos, needed(s, pos));
    }
    outcome((Hash() << s.ch << pos << s.count).get());
}
// two re-blocking modules in a synchronised chain, block sizes around each other
static int FIX[3], FIXI;
MC_SCENARIO(chain, 3) {
    SinkModule<> sink; UniformBuffer a, b; Pass p; Src s;
    sink.link(&a)->link(&p)->link(&b)->link(&s);
    s.ch = range(1, thorough() ? 4 : 3); FIXI = 0; for (int& f : FIX) f = range(thorough() ? 0 : 1, thorough() ? 6 : 5); s.next = [] { return FIX[FIXI++ % 3]; };
    int n = range(1, 7), inner = range(1, 4);
    auto* ci = sink.get_chain_info(); ci->channels = s.ch; ci->buffer_size = n; ci->sample_rate = 22050;
    sink.meta_info_sync(); b.get_info()->out_buffer = inner;
    label("channels=%d block=%d inner=%d upstream=%d,%d,%d", s.ch, n, inner, FIX[0], FIX[1], FIX[2]);
    sink.meta_start();
    int64_t pos = 0;
    for (int i = 0; i < 6; ++i) { sink.meta_process(); step(); AudioBuffer o = sink.get_buffer(); block(o, n, s.ch, 22050, pos); }
    MC_CHECK(s.count - pos <= (int64_t)(inner + 6) * s.ch, "%lld samples pulled too many", (long long)(s.count - pos));
    outcome((Hash() << n << inner << s.ch << s.count).get());
}
// realistic sizes
MC_SCENARIO(large, 2) {
    Src s; UniformBuffer u; u.link(&s);
    s.ch = range(1, 2); int up = pick({1, 7, 440, 441, 1024, 4096}), n = pick({1, 64, 440, 512, 1000, 4410});
    FIXI = 0; FIX[0] = up; FIX[1] = up; FIX[2] = up + (flip() ? 1 : 0); s.next = [] { return FIX[FIXI++ % 3]; };
    u.get_info()->channels = s.ch; u.get_info()->out_buffer = n; int64_t pos = 0;
    label("channels=%d upstream=%d block=%d", s.ch, up, n);
    for (int i = 0; i < 24; ++i) { u.meta_process(); step(); AudioBuffer b = u.get_buffer(); block(b, n, s.ch, 44100, pos); }
    MC_CHECK(s.runs == needed(s, pos), "upstream was run %d times for %lld samples, %d suffice", s.runs, (long long)pos, needed(s, pos));
    outcome((Hash() << up << n << s.ch << pos).get());
}
MC_SCENARIO(repeat, 4) {
    int ch = range(1, thorough() ? 4 : 3), frames = range(0, 4), frames2 = range(0, 4);
    auto mk = [&](int f, double o) { auto b = std::make_unique<AudioBuffer>(); b->set_channels(ch); b->resize(f * ch); for (int i = 0; i < f * ch; ++i) b->at(i) = o + i; return b; };
    auto g = mk(frames, 1), g2 = mk(frames2, 100);
    BufferModule m(g.get());
    MC_CHECK(m.get_rbuffer() == g.get(), "another buffer than the given one");
    label("channels=%d frames=%d other=%d", ch, frames, frames2);
    int mode = choose(3); SinkModule<> sink; BaseModule* front = &m; int block = frames;
    if (mode == 1) { block = range(0, 6); m.get_info()->channels = ch; m.get_info()->out_buffer = block; }
    if (mode == 2) { block = range(0, 6); sink.link(&m); auto* ci = sink.get_chain_info(); ci->channels = ch; ci->buffer_size = block; sink.meta_info_sync(); front = &sink; }
    AudioBuffer* cur = g.get(); int cf = frames; double base = 1;
    for (int pass = 0; pass < 3; ++pass) {
        int op = choose(3);
        if (op == 1) { m.set_rbuffer(cur = g2.get()); cf = frames2; base = 100; if (mode == 0) block = cf; else { m.get_info()->channels = ch; m.get_info()->out_buffer = block; } }
        front->meta_process(); step();
        if (op == 2 && mode != 2) continue;   // the block is not collected
        AudioBuffer b = front->get_buffer();
        MC_CHECK((int)b.size() == block * ch && b.channels() == ch, "block of %zu samples and %d channels, expected %d and %d", b.size(), b.channels(), block * ch, ch);
        for (int i = 0; i < block * ch; ++i) { double w = i < cf * ch ? base + i : 0; MC_CHECK(b.at(i) == w, "sample %d is %g, expected %g", i, b.at(i), w); }
        for (auto& x : b) x = -7;
        MC_CHECK((int)cur->size() == cf * ch, "the given buffer now has %zu samples", cur->size());
        for (int i = 0; i < cf * ch; ++i) MC_CHECK(cur->at(i) == base + i, "the given buffer was changed");
        state((Hash() << mode << block << cf << ch).get());
    }
    outcome((Hash() << mode << block << cf << ch).get());
}
MC_SCENARIO(constant, 3) {
    ConstModule m(0.75); double v = 0.75; SinkModule<> sink; BaseModule* front = &m;
    int ch = 1, n = 440; bool synced = flip();
    if (synced) { sink.link(&m); front = &sink; n = 440; auto* ci = sink.get_chain_info(); ci->buffer_size = 2; n = 2; sink.meta_info_sync(); }
    for (int d = thorough() ? 5 : 4; d--;) {
        switch (choose(4)) {
        case 0: v = pick({0., -1., 3.5}); m.set_value(v); break;
        case 1: ch = range(1, 3); n = range(0, 3);
            if (synced) { auto* ci = sink.get_chain_info(); ci->channels = ch; ci->buffer_size = n; sink.meta_info_sync(); }
            else { m.get_info()->channels = ch; m.get_info()->out_buffer = n; }
            break;
        case 2: front->meta_process(); break;   // not collected
        case 3: {
            front->meta_process(); AudioBuffer b = front->get_buffer();
            MC_CHECK((int)b.size() == n * ch && b.channels() == ch, "block of %zu samples and %d channels, expected %d and %d", b.size(), b.channels(), n * ch, ch);
            for (size_t i = 0; i < b.size(); ++i) MC_CHECK(b.at(i) == v, "sample %zu is %g, expected %g", i, b.at(i), v);
            for (auto& x : b) x = 99;
            break; }
        }
        step(); MC_CHECK(m.get_value() == v, "value %g, expected %g", m.get_value(), v);
        state((Hash() << n << ch << v).get());
    }
    outcome((Hash() << n << ch << v << synced).get());
}
// any block sizes against each other, any channel count
MC_SCENARIO(scale_blocks, 3) {
    Src s; UniformBuffer u; u.link(&s);
    int n = scale::frames(), up = pick({1, 3, 64, 441, 512, 4096, 48000, 70000}); s.ch = scale::channels();
    if ((long)std::max(n, up) * s.ch > (thorough() ? 140000 : 10000) && s.ch > 1) prune();
    if (n / up > 20000) prune();
    FIXI = 0; FIX[0] = up; FIX[1] = up; FIX[2] = up + (flip() ? 1 : 0); s.next = [] { return FIX[FIXI++ % 3]; };
    label("channels=%d upstream=%d block=%d", s.ch, up, n);
    u.get_info()->channels = s.ch; u.get_info()->out_buffer = n; int64_t pos = 0;
    int passes = n * s.ch > 20000 ? 3 : up > 20 * n ? 30 : 8;
    for (int i = 0; i < passes; ++i) { u.meta_process(); step(); AudioBuffer b = u.get_buffer(); block(b, n, s.ch, 44100, pos); }
    MC_CHECK(s.runs == needed(s, pos), "upstream was run %d times for %lld samples, %d suffice", s.runs, (long long)pos, needed(s, pos));
    u.get_info()->out_buffer = 7;
    for (int i = 0; i < 3; ++i) { u.meta_process(); AudioBuffer b = u.get_buffer(); block(b, 7, s.ch, 44100, pos); }
    MC_CHECK(s.runs == needed(s, pos), "upstream was run %d times for %lld samples, %d suffice", s.runs, (long long)pos, needed(s, pos));
    outcome((Hash() << up << n << s.ch << pos).get());
}
MC_SCENARIO(scale_sources, 3) {
    auto g = scale::shape(thorough() ? 140000 : 20000, 1);
    int kind = choose(4), n = g.frames * g.chans;
    label("%d frames, %d channels, kind %d", g.frames, g.chans, kind);
    int have = kind == 1 ? g.frames : kind == 2 ? g.frames / 2 : g.frames + 9;
    AudioBuffer buf(have, g.chans, 44100.); for (int i = 0; i < have * g.chans; ++i) buf.at(i) = i + 1;
    BufferModule m(&buf); ConstModule c(0.25); SinkModule<> sink;
    if (kind) sink.link(&m); else sink.link(&c);
    auto* ci = sink.get_chain_info();
    for (int b : {3, g.frames, 1, g.frames}) {
        ci->channels = g.chans; ci->buffer_size = b; sink.meta_info_sync();
        sink.meta_process(); step(); AudioBuffer o = sink.get_buffer();
        MC_CHECK((long)o.size() == (long)b * g.chans && o.channels() == g.chans, "block of %zu samples", o.size());
        for (int i = 0; i < b * g.chans; ++i) { double w = !kind ? 0.25 : i < have * g.chans ? i + 1 : 0; MC_CHECK(o.at(i) == w, "sample %d is %g, expected %g", i, o.at(i), w); }
        for (auto& x : o) x = -1;
    }
    MC_CHECK((int)buf.size() == have * g.chans, "the given buffer was changed");
    for (int i = 0; i < have * g.chans; ++i) MC_CHECK(buf.at(i) == i + 1, "the given buffer was changed");
    outcome((Hash() << n << kind << g.chans).get());
}
