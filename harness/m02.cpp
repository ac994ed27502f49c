// M02: measuring modules count exactly and never alter the signal.
// Time is virtual: the harness supplies the clock, which only moves when the model says so.
#include "mc.hpp"
#include "scale.hpp"
#include "audio_module.hpp"
#include "meta_audio.hpp"
#include "sink_module.hpp"
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
using namespace mc;
static bool VIRT = false;
static int64_t NOW = 0;
extern "C" int clock_gettime(clockid_t c, struct timespec* t) {
    if (!VIRT) return (int)syscall(SYS_clock_gettime, c, t);
    t->tv_sec = NOW / 1000000000; t->tv_nsec = NOW % 1000000000;
    return 0;
}
struct Virt { Virt(int64_t n) { NOW = n; VIRT = true; } ~Virt() { VIRT = false; } };
namespace {
struct Src : SourceModule {   // delivers what the model says and takes the time the model says
    int frames = 0, ch = 1, runs = 0; double rate = 44100; int64_t dur = 0; std::vector<double> last;
    void process() override {
        ++runs; NOW += dur;
        AudioBuffer b; b.set_channels(ch); b.set_samplerate(rate); b.resize(frames * ch);
        last.clear();
        for (int i = 0; i < frames * ch; ++i) { b.at(i) = runs * 100 + i + 0.25; last.push_back(b.at(i)); }
        set_buffer(std::move(b));
    }
};
struct Pass : AudioModule<> { };
struct Ref { int64_t passes = 0, samples = 0, total = 0, exp = 0, lat = 0, t = 0, l = 0, start = 0; };
void compare(const Counter& c, const Ref& r) {
    MC_CHECK(c.processed() == r.passes, "counted %d passes, expected %lld", c.processed(), (long long)r.passes);
    MC_CHECK(c.samples() == r.samples, "counted %d samples, expected %lld", c.samples(), (long long)r.samples);
}
void compare(const LatencyModule& c, const Ref& r) {
    compare((const Counter&)c, r);
    MC_CHECK(c.time() == r.t, "time of the last pass %lld, expected %lld", (long long)c.time(), (long long)r.t);
    MC_CHECK(c.total_time() == r.total, "total time %lld, expected %lld", (long long)c.total_time(), (long long)r.total);
    MC_CHECK(c.expected() == r.exp, "expected time %lld for %lld ns of audio", (long long)c.expected(), (long long)r.exp);
    MC_CHECK(c.latency() == r.l, "latency of the last pass %lld, expected %lld", (long long)c.latency(), (long long)r.l);
    MC_CHECK(c.sum_latency() == r.lat, "sum of latencies %lld, expected %lld", (long long)c.sum_latency(), (long long)r.lat);
    MC_CHECK(c.total_latency() == r.total - r.exp, "total latency %lld, expected %lld", (long long)c.total_latency(), (long long)(r.total - r.exp));
    MC_CHECK(c.average_time() == (r.passes ? r.total / r.passes : 0), "average time %lld of %lld in %lld passes", (long long)c.average_time(), (long long)r.total, (long long)r.passes);
    MC_CHECK(c.average_latency() == (r.passes ? r.lat / r.passes : 0), "average latency %lld of %lld in %lld passes", (long long)c.average_latency(), (long long)r.lat, (long long)r.passes);
    if (r.start) {
        MC_CHECK(c.get_start_time() == r.start, "start time %lld, expected %lld", (long long)c.get_start_time(), (long long)r.start);
        MC_CHECK(c.elapsed() == NOW - r.start, "elapsed %lld, expected %lld", (long long)c.elapsed(), (long long)(NOW - r.start));
    }
}
void signal(AudioBuffer b, const Src& s) {
    MC_CHECK(b.size() == s.last.size(), "block of %zu samples, upstream delivered %zu", b.size(), s.last.size());
    MC_CHECK(b.channels() == s.ch, "block of %d channels, upstream delivered %d", b.channels(), s.ch);
    MC_CHECK(b.get_samplerate() == s.rate, "block at %g Hz, upstream delivered %g", b.get_samplerate(), s.rate);
    for (size_t i = 0; i < s.last.size(); ++i) MC_CHECK(b.at(i) == s.last[i], "sample %zu is %g, upstream delivered %g", i, b.at(i), s.last[i]);
}
int64_t npf_of(double rate) { ChainTimer t; t.set_samplerate((int)rate); return t.get_npf(); }
}
MC_SCENARIO(counter, 3) {
    Virt v(1000);
    Src s; Counter a, b; Pass p;
    s.ch = range(1, thorough() ? 4 : 3); s.rate = pick({44100., 8000.});
    bool deep = flip();
    BaseModule* front = &a;
    if (deep) { p.link(&b)->link(&s); a.link(&p); } else a.link(&s);
    Ref ra, rb;
    label("channels=%d deep=%d", s.ch, deep);
    for (int d = thorough() ? 6 : 5; d--;) {
        int op = choose(thorough() ? 6 : 5 + deep);
        if (op < 4) {
            s.frames = op;
            front->meta_process(); ++ra.passes; ++rb.passes; ra.samples += s.last.size(); rb.samples += s.last.size();
            MC_CHECK(s.runs == (int)s.runs && s.last.size() == (size_t)op * s.ch, "upstream was not run");
            signal(front->get_buffer(), s);
        } else if (op == 4) { a.reset(); ra = Ref(); }
        else if (deep) { b.reset(); rb = Ref(); }
        else { a.meta_start(); a.meta_stop(); }
        step(); compare(a, ra); if (deep) compare(b, rb);
        state((Hash() << ra.passes << ra.samples << rb.passes << rb.samples).get());
    }
    outcome((Hash() << ra.passes << ra.samples << rb.samples << s.ch).get());
}
MC_SCENARIO(latency, 3) {
    Virt v(5000000000LL);
    Src s; LatencyModule m; Counter c; Pass p;
    s.ch = range(1, thorough() ? 4 : 3); s.rate = pick({44100., 8000., 1e9});
    int shape = choose(3);
    BaseModule* front = &m;
    if (shape == 0) m.link(&s);
    else if (shape == 1) m.link(&p)->link(&s);
    else { c.link(&m)->link(&s); front = &c; }
    label("channels=%d rate=%g shape=%d", s.ch, s.rate, shape);
    int64_t npf = npf_of(s.rate);
    Ref r; Ref rc; int runs = 0;
    compare(m, r);
    for (int d = thorough() ? 6 : 5; d--;) {
        switch (int op = choose(10)) {
        case 0: case 1: case 2: case 3: case 4: {
            s.frames = (int[]){0, 1, 2, 3, 2}[op]; s.dur = (int64_t[]){40, 0, 1000007, 22675, 3000000001LL}[op];
            front->meta_process(); ++runs;
            MC_CHECK(s.runs == runs, "upstream was run %d times in %d passes", s.runs, runs);
            ++r.passes; r.samples += s.frames * s.ch; r.exp += s.frames * npf; r.t = s.dur; r.total += s.dur;
            r.l = s.dur - s.frames * npf; r.lat += r.l;
            ++rc.passes; rc.samples += s.frames * s.ch;
            signal(front->get_buffer(), s);
            break; }
        case 5: m.reset(); r = Ref(); r.start = NOW; break;
        case 6: NOW += 777; break;
        case 8: s.rate = s.rate == 44100 ? 8000 : 44100; npf = npf_of(s.rate); break;      // settings change while measuring
        case 9: s.ch = s.ch % 3 + 1; break;
        case 7: front->meta_start(); r.start = NOW; break;
        }
        step(); compare(m, r);
        if (shape == 2) compare(c, rc);
        state((Hash() << r.passes << r.samples << r.total << r.lat).get());
    }
    outcome((Hash() << r.passes << r.samples << r.total << r.lat << r.start << r.exp).get());
}
// inside a synchronised chain, every block size
MC_SCENARIO(chain, 3) {
    Virt v(1000000);
    SinkModule<> sink; Counter a; LatencyModule m; ConstModule c(0.5);
    sink.link(&a)->link(&m)->link(&c);
    int ch = range(1, 4), n = range(0, thorough() ? 40 : 12); double rate = pick({44100., 8000., 96000.});
    auto* ci = sink.get_chain_info(); ci->channels = ch; ci->buffer_size = n; ci->sample_rate = rate;
    sink.meta_info_sync(); sink.meta_start();
    label("channels=%d frames=%d rate=%g", ch, n, rate);
    int64_t npf = npf_of(rate); Ref r; r.start = NOW;
    for (int i = 1; i <= 3; ++i) {
        sink.meta_process(); AudioBuffer b = sink.get_buffer();
        MC_CHECK((int)b.size() == n * ch && b.channels() == ch && b.get_samplerate() == rate, "block of %zu samples, %d channels at %g", b.size(), b.channels(), b.get_samplerate());
        for (size_t k = 0; k < b.size(); ++k) MC_CHECK(b.at(k) == 0.5, "sample %zu is %g", k, b.at(k));
        r.passes = i; r.samples = i * n * ch; r.exp = i * n * npf; r.l = -n * npf; r.lat += r.l;
        step(); compare(a, r); compare(m, r);
    }
    outcome((Hash() << ch << n << rate).get());
}
// totals beyond 32 bits, any block size and channel count
namespace { struct Reuse : SourceModule {       // hands the same storage out again and again
    AudioBuffer keep; int64_t dur = 0; int runs = 0;
    void process() override { ++runs; NOW += dur; set_buffer(std::move(keep)); }
}; }
MC_SCENARIO(scale_totals, 2) {
    Virt v(1000000);
    int ch = pick({1, 2, 6, 300}), frames = pick({441, 65536, 100003, 2000000}) / (ch > 2 ? 6 : 1), lat = flip();
    int64_t dur = pick<int64_t>({1, 22675LL * 441, 86400000000000LL});
    int passes = frames * ch > 100000 ? 1200 : thorough() ? 200000 : 20000;
    label("%d passes of %d frames, %d channels, %lld ns each", passes, frames, ch, (long long)dur);
    Reuse s; Counter c; LatencyModule m; SinkModule<> sink;
    s.dur = dur; s.keep = AudioBuffer(frames, ch, 48000.); s.keep.at(frames * ch - 1) = 0.5;
    BaseModule* front = lat ? (BaseModule*)&m : &c; sink.link(front); front->link(&s);
    auto* ci = sink.get_chain_info(); ci->channels = ch; ci->buffer_size = frames; ci->sample_rate = 48000;
    sink.meta_info_sync(); front->meta_start();
    Ref r; r.start = NOW; int64_t npf = npf_of(48000);
    for (int i = 1; i <= passes; ++i) {
        front->meta_process();
        s.keep = front->get_buffer();
        MC_CHECK((long)s.keep.size() == (long)frames * ch && (int)s.keep.channels() == ch, "block of %zu samples", s.keep.size());
        MC_CHECK(s.keep.at(frames * ch - 1) == 0.5, "last sample changed");
        r.passes = i; r.samples += (int64_t)frames * ch; r.exp += frames * npf; r.t = dur; r.total += dur; r.l = dur - frames * npf; r.lat += r.l;
        if (lat) compare(m, r); else compare(c, r);
    }
    step(); state((Hash() << r.samples << r.total).get());
    outcome((Hash() << frames << ch << lat << dur).get());
}
