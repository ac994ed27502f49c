// K04: a WAV file as the source of a chain.
#include "mc.hpp"
#include "scale.hpp"
#include "kwav.hpp"
#include "amp_module.hpp"
#include "meta_audio.hpp"
#include "sink_module.hpp"
#include "io/wav.hpp"
#include <memory>
#include <unistd.h>
using namespace mc;

static std::string tmpfile_name() { return "/tmp/mc_k04_" + std::to_string(getpid()); }
struct Source {   // memory or file
    CharIStream mem; FIStream file; bool onfile; std::string path;
    Source(const kwav::Bytes& b, bool f) : onfile(f) {
        if (f) {
            path = tmpfile_name();
            FILE* fp = fopen(path.c_str(), "wb");
            if (!fp) abort();
            fwrite(b.data(), 1, b.size(), fp); fclose(fp);
            file.set_path(path);
        } else mem.get_array() = b;
    }
    ~Source() { if (onfile) unlink(path.c_str()); }
    BaseMIStream* get() { return onfile ? (BaseMIStream*)&file : (BaseMIStream*)&mem; }
};
struct Plain : SinkModule<> {};
struct Pass : AudioModule<> {};
struct EmbSink : SinkModule<WaveSource> {};
struct Play {
    Plain s; EmbSink e; PeriodSink ps; WaveSource own; Pass mid; Counter cnt; AmplitudeScale<> amp{1.0}; WaveSource* w = nullptr; BaseModule* sink = nullptr;
    Play(int kind, BaseMIStream* st) {
        if (kind == 0) { sink = &s; s.link(&own); w = &own; own.set_stream(st); }
        else if (kind == 1) { sink = &s; s.link(&mid); mid.link(&own); w = &own; own.set_stream(st); }
        else if (kind == 2) { sink = &s; s.link(&amp)->link(&cnt)->link(&own); w = &own; own.set_stream(st); }
        else if (kind == 3) { sink = &e; w = &e.backward(); w->set_stream(st); }
        else if (kind == 4) { sink = &e; WaveSource fresh(st); e.link_static(std::move(fresh)); w = &e.backward(); }
        else { sink = &ps; ps.link(&own); w = &own; own.set_stream(st); }
    }
};
struct Ref { kwav::Spec s; kwav::Built w; size_t pos = 0; };
static void pass(Play& p, Ref& r, Source& src, int frames) {
    p.sink->meta_process();
    AudioBuffer b = p.sink->get_buffer();
    step();
    MC_CHECK((int)b.size() == frames * r.s.channels, "block of %zu samples, chain is configured for %d frames of %d channels", b.size(), frames, r.s.channels);
    MC_CHECK(b.channels() == r.s.channels && b.get_samplerate() == r.s.rate, "block carries %d channels at %g, the file has %d at %d", b.channels(), b.get_samplerate(), r.s.channels, r.s.rate);
    for (size_t i = 0; i < b.size(); ++i) {
        double e = r.pos + i < r.w.raw.size() ? kwav::decode(r.w.raw[r.pos + i], r.s.bits) : 0.0;
        MC_CHECK(std::fabs(b.at(i) - e) < 1e-12, "sample %zu is %.12g, expected %.12g", r.pos + i, b.at(i), e);
    }
    r.pos += b.size();
    if (r.pos > r.w.raw.size()) MC_CHECK(p.w->WaveReader::done() && src.get()->bad(), "file exhausted but the end is not reported");
    if (r.pos < r.w.raw.size()) MC_CHECK(!p.w->WaveReader::done() && src.get()->good(), "end reported early");
    for (auto& x : b) x = 77;
    state((Hash() << r.s.bits << r.s.channels << r.s.frames << r.pos << frames).get());
}
static void sync(Play& p, int frames, int chans, double rate) {
    auto* ci = p.sink->get_chain_info();
    ci->buffer_size = frames; ci->channels = chans; ci->sample_rate = rate;
    p.sink->meta_info_sync();
}
static kwav::Spec spec(int maxch, int maxfr) {
    kwav::Spec s;
    s.bits = pick({8, 16}); s.channels = range(1, maxch); s.frames = range(0, maxfr);
    s.rate = pick({8000, 96000});
    int layout = choose(3);
    if (layout == 1) s.pre = 3, s.ext = 5, s.post = 4;
    if (layout == 2 && s.frames > 1) s.split = 1, s.gap = 2, s.mid = 6;
    s.pattern = s.channels + s.frames;
    return s;
}
MC_SCENARIO(playback, 3) {
    Ref r; r.s = spec(thorough() ? 3 : 2, thorough() ? 5 : 3); r.w = kwav::build(r.s);
    bool file = flip();
    int kind = choose(6), frames = range(1, thorough() ? 4 : 3), cch = range(1, 2);
    label("playback kind=%d file=%d", kind, file);
    Source src(r.w.b, file);
    Play p(kind, src.get());
    sync(p, frames, cch, 44100);
    p.sink->meta_start();
    MC_CHECK(p.w->get_state() == BaseModule::State::Started, "source not started");
    MC_CHECK(p.w->get_channels() == r.s.channels && p.w->get_samplerate() == r.s.rate && p.w->get_bits_per_sample() == r.s.bits, "format of the file");
    MC_CHECK(p.w->get_info()->channels == r.s.channels && p.w->get_info()->sample_rate == r.s.rate, "settings of the source differ from the file's after start");
    int passes = (r.s.frames + frames - 1) / frames + 2;
    for (int i = 0; i < passes; ++i) pass(p, r, src, frames);
    p.sink->meta_stop();
    MC_CHECK(src.get()->bad() && p.w->get_state() == BaseModule::State::Stopped, "file not closed by stop");
    outcome((Hash() << kind << file << r.s.bits << r.s.frames << frames).get());
}
// settings changed while playing, stop and restart at any point
MC_SCENARIO(histories, 3) {
    Ref r; r.s = spec(2, thorough() ? 4 : 3); r.w = kwav::build(r.s);
    bool file = flip();
    int kind = pick({0, 2, 3});
    label("history kind=%d file=%d", kind, file);
    Source src(r.w.b, file);
    Play p(kind, src.get());
    int frames = 2; sync(p, frames, 1, 44100);
    bool started = false;
    int depth = thorough() ? 6 : 5;
    for (int i = 0; i < depth; ++i) {
        int op = choose(4);
        if (op == 0) { if (!started) { prune(); } pass(p, r, src, frames); }
        else if (op == 1) { frames = frames % 3 + 1; sync(p, frames, 1 + frames % 2, 48000); addlabel("sync%d", frames); }
        else if (op == 2) {
            if (started) prune();
            if (!file) { src.get()->seek(0); }
            p.sink->meta_start(); started = true; r.pos = 0; addlabel("start");
            MC_CHECK(src.get()->good() , "stream bad after start");
        } else { if (!started) prune(); p.sink->meta_stop(); started = false; MC_CHECK(src.get()->bad(), "stop does not close"); addlabel("stop"); }
    }
    if (started) { pass(p, r, src, frames); p.sink->meta_stop(); }
    outcome((Hash() << r.pos << frames << started).get());
}
// long files and blocks of any size
MC_SCENARIO(scale_playback, 3) {
    int frames = scale::frames(); Ref r; r.s.channels = pick({1, 2, 6, 33}); r.s.bits = pick({8, 16}); r.s.rate = 44100;
    if (frames * r.s.channels > (thorough() ? 600000 : 40000) && r.s.channels > 1) prune();
    int rel = choose(4);
    r.s.frames = rel == 0 ? frames : rel == 1 ? 2 * frames - 1 : rel == 2 ? frames + 1 : 3 * frames;
    if (flip()) { r.s.post = 3; if (r.s.frames > 4) { r.s.split = r.s.frames / 2; r.s.gap = 2; r.s.mid = 6; } }
    r.w = kwav::build(r.s);
    bool file = flip(); int kind = pick({0, 2, 3});
    label("%d frames of %d channels, %d bits, in blocks of %d, kind=%d file=%d", r.s.frames, r.s.channels, r.s.bits, frames, kind, file);
    Source src(r.w.b, file); Play p(kind, src.get());
    sync(p, frames, 2, 44100); p.sink->meta_start();
    int passes = (r.s.frames + frames - 1) / frames + 2;
    for (int i = 0; i < passes; ++i) { pass(p, r, src, frames); heartbeat(); }
    p.sink->meta_stop();
    outcome((Hash() << kind << file << r.s.bits << r.s.frames << r.s.channels << frames).get());
}
