// M01: the ALSA sink plays every sample exactly once despite device hiccups.
// The device is a model: the snd_* functions below replace the library's and
// answer whatever the explorer chooses, watching every call for misuse.
#include "mc.hpp"
#include "scale.hpp"
#include "audio_module.hpp"
#include "io/alsa_module.hpp"
#include "meta_audio.hpp"
#include <cerrno>
#include <memory>
#include <string>
#include <vector>
using namespace mc;
struct _snd_pcm_hw_params { unsigned channels = 0, rate = 0, periods = 0; unsigned long period = 0; int access = -1, format = -1; };
struct _snd_pcm { std::string name; bool open = true, configured = false; int state = SND_PCM_STATE_OPEN; _snd_pcm_hw_params hw; std::vector<int16_t> got; int closes = 0, drains = 0; };
namespace {
enum Stage { NONE, OPEN, ANY, ACCESS, FORMAT, CHANNELS, RATE, PSIZE, PERIODS, COMMIT };
struct Env {
    std::vector<std::unique_ptr<_snd_pcm>> devs;
    Stage fail = NONE; int hiccups = 0, eagain = 0; int sour = 0; bool hints = true, fatal = false, nofail = true;
    int opened() const { int n = 0; for (auto& d : devs) n += d->open; return n; }
} E;
const char* NAMES[] = {"null", "default", "hw:0", "odd"};
constexpr int N = 4;
_snd_pcm* use(snd_pcm_t* p, const char* what) {
    MC_CHECK(p != nullptr, "%s without a device", what);
    bool known = false; for (auto& d : E.devs) known |= d.get() == p;
    MC_CHECK(known, "%s with an unknown device", what);
    MC_CHECK(p->open, "%s with a device that was closed", what);
    step();
    return p;
}
}
extern "C" {
int snd_pcm_open(snd_pcm_t** p, const char* name, snd_pcm_stream_t s, int) {
    MC_CHECK(s == SND_PCM_STREAM_PLAYBACK, "opened for recording");
    if (E.fail == OPEN) return -ENOENT;
    E.devs.push_back(std::make_unique<_snd_pcm>()); E.devs.back()->name = name; *p = E.devs.back().get(); return 0;
}
int snd_pcm_close(snd_pcm_t* p) { use(p, "close"); p->open = false; ++p->closes; return 0; }
int snd_pcm_nonblock(snd_pcm_t* p, int) { use(p, "nonblock"); return 0; }
int snd_pcm_hw_free(snd_pcm_t* p) { use(p, "hw_free"); p->configured = false; p->state = SND_PCM_STATE_OPEN; return E.sour == 2 ? -EBADFD : 0; }
int snd_pcm_drain(snd_pcm_t* p) { use(p, "drain"); ++p->drains; p->state = SND_PCM_STATE_SETUP; return E.sour == 1 ? -EPIPE : 0; }
int snd_pcm_drop(snd_pcm_t* p) { use(p, "drop"); p->state = SND_PCM_STATE_SETUP; return 0; }
int snd_pcm_start(snd_pcm_t* p) { use(p, "start"); p->state = SND_PCM_STATE_RUNNING; return 0; }
snd_pcm_state_t snd_pcm_state(snd_pcm_t* p) { use(p, "state"); return (snd_pcm_state_t)p->state; }
int snd_pcm_wait(snd_pcm_t* p, int) { use(p, "wait"); E.eagain = 0; return 1; }
snd_pcm_sframes_t snd_pcm_avail(snd_pcm_t* p) { use(p, "avail"); return 4096; }
snd_pcm_sframes_t snd_pcm_avail_update(snd_pcm_t* p) { use(p, "avail_update"); return 4096; }
int snd_pcm_prepare(snd_pcm_t* p) {
    use(p, "prepare"); MC_CHECK(p->configured, "prepare before the device is configured");
    if (p->state == SND_PCM_STATE_DISCONNECTED) return -ENODEV;
    p->state = SND_PCM_STATE_PREPARED; return 0;
}
int snd_pcm_resume(snd_pcm_t* p) { use(p, "resume"); if (p->state == SND_PCM_STATE_DISCONNECTED) return -ENODEV; p->state = SND_PCM_STATE_PREPARED; return 0; }
int snd_pcm_recover(snd_pcm_t* p, int err, int) {
    use(p, "recover");
    if (err == -EINTR) return 0;
    if (err == -EPIPE || err == -ESTRPIPE) return snd_pcm_prepare(p);
    return err;
}
snd_pcm_sframes_t snd_pcm_writei(snd_pcm_t* p, const void* data, snd_pcm_uframes_t n) {
    use(p, "writei"); MC_CHECK(p->configured, "writei before the device is configured");
    heartbeat();
    if (p->state == SND_PCM_STATE_DISCONNECTED) return -ENODEV;
    if (p->state == SND_PCM_STATE_XRUN) return -EPIPE;
    if (p->state == SND_PCM_STATE_SUSPENDED) return -ESTRPIPE;
    if (E.eagain) { if (++E.eagain > 1000) E.eagain = 0; return -EAGAIN; }
    MC_CHECK(p->state == SND_PCM_STATE_PREPARED || p->state == SND_PCM_STATE_RUNNING, "writei in device state %d", p->state);
    snd_pcm_uframes_t take = n;
    if (E.hiccups > 0) {
        int c = choose((E.nofail ? 6 : 7) + (n > 1) + (n > 2));
        if (c) --E.hiccups;
        note("writei %lu: answer %d", (unsigned long)n, c);
        if (!E.nofail && c == 6) { E.fatal = true; p->state = SND_PCM_STATE_DISCONNECTED; return -ENODEV; }
        switch (c) {
        case 0: break;
        case 1: p->state = SND_PCM_STATE_XRUN; return -EPIPE;
        case 2: return -EINTR;
        case 3: E.eagain = 1; return -EAGAIN;
        case 4: p->state = SND_PCM_STATE_SUSPENDED; return -ESTRPIPE;
        case 5: take = 0; break;
        default: take = c == (E.nofail ? 6 : 7) ? 1 : n - 1;
        }
    }
    const int16_t* s = (const int16_t*)data;
    for (snd_pcm_uframes_t i = 0; i < take * p->hw.channels; ++i) p->got.push_back(s[i]);
    p->state = SND_PCM_STATE_RUNNING;
    return (snd_pcm_sframes_t)take;
}
size_t snd_pcm_hw_params_sizeof(void) { return sizeof(_snd_pcm_hw_params); }
int snd_pcm_hw_params_any(snd_pcm_t* p, snd_pcm_hw_params_t* h) { use(p, "hw_params_any"); if (E.fail == ANY) return -EINVAL; *h = {2, 48000, 4, 1024, SND_PCM_ACCESS_MMAP_INTERLEAVED, SND_PCM_FORMAT_FLOAT64}; return 0; }
int snd_pcm_hw_params_set_rate_resample(snd_pcm_t* p, snd_pcm_hw_params_t*, unsigned) { use(p, "set_rate_resample"); return 0; }
int snd_pcm_hw_params_set_access(snd_pcm_t* p, snd_pcm_hw_params_t* h, snd_pcm_access_t a) { use(p, "set_access"); if (E.fail == ACCESS) return -EINVAL; h->access = a; return 0; }
int snd_pcm_hw_params_set_format(snd_pcm_t* p, snd_pcm_hw_params_t* h, snd_pcm_format_t f) { use(p, "set_format"); if (E.fail == FORMAT) return -EINVAL; h->format = f; return 0; }
int snd_pcm_hw_params_set_channels(snd_pcm_t* p, snd_pcm_hw_params_t* h, unsigned c) { use(p, "set_channels"); if (E.fail == CHANNELS || !c) return -EINVAL; h->channels = c; return 0; }
int snd_pcm_hw_params_set_rate(snd_pcm_t* p, snd_pcm_hw_params_t* h, unsigned r, int) { use(p, "set_rate"); if (E.fail == RATE || !r) return -EINVAL; h->rate = r; return 0; }
int snd_pcm_hw_params_set_rate_near(snd_pcm_t* p, snd_pcm_hw_params_t* h, unsigned* r, int*) { use(p, "set_rate"); if (E.fail == RATE || !*r) return -EINVAL; h->rate = *r; return 0; }
int snd_pcm_hw_params_set_period_size(snd_pcm_t* p, snd_pcm_hw_params_t* h, snd_pcm_uframes_t n, int) { use(p, "set_period_size"); if (E.fail == PSIZE || !n) return -EINVAL; h->period = n; return 0; }
int snd_pcm_hw_params_set_periods(snd_pcm_t* p, snd_pcm_hw_params_t* h, unsigned n, int) { use(p, "set_periods"); if (E.fail == PERIODS || !n) return -EINVAL; h->periods = n; return 0; }
int snd_pcm_hw_params(snd_pcm_t* p, snd_pcm_hw_params_t* h) {
    use(p, "hw_params"); if (E.fail == COMMIT) return -EINVAL;
    p->hw = *h; p->configured = true; p->state = SND_PCM_STATE_PREPARED; return 0;
}
int snd_pcm_hw_params_get_channels(const snd_pcm_hw_params_t* h, unsigned* v) { *v = h->channels; return 0; }
int snd_pcm_hw_params_get_channels_max(const snd_pcm_hw_params_t*, unsigned* v) { *v = 8; return 0; }
int snd_pcm_hw_params_get_channels_min(const snd_pcm_hw_params_t*, unsigned* v) { *v = 1; return 0; }
int snd_pcm_hw_params_get_rate(const snd_pcm_hw_params_t* h, unsigned* v, int*) { *v = h->rate; return 0; }
int snd_pcm_hw_params_get_rate_max(const snd_pcm_hw_params_t*, unsigned* v, int*) { *v = 192000; return 0; }
int snd_pcm_hw_params_get_rate_min(const snd_pcm_hw_params_t*, unsigned* v, int*) { *v = 4000; return 0; }
int snd_pcm_hw_params_get_periods(const snd_pcm_hw_params_t* h, unsigned* v, int*) { *v = h->periods; return 0; }
int snd_pcm_hw_params_get_periods_max(const snd_pcm_hw_params_t*, unsigned* v, int*) { *v = 16; return 0; }
int snd_pcm_hw_params_get_periods_min(const snd_pcm_hw_params_t*, unsigned* v, int*) { *v = 1; return 0; }
int snd_pcm_hw_params_get_period_size(const snd_pcm_hw_params_t* h, snd_pcm_uframes_t* v, int*) { *v = h->period; return 0; }
int snd_pcm_hw_params_get_period_size_max(const snd_pcm_hw_params_t*, snd_pcm_uframes_t* v, int*) { *v = 65536; return 0; }
int snd_pcm_hw_params_get_period_size_min(const snd_pcm_hw_params_t*, snd_pcm_uframes_t* v, int*) { *v = 1; return 0; }
int snd_pcm_hw_params_get_period_time(const snd_pcm_hw_params_t* h, unsigned* v, int*) { *v = h->rate ? (unsigned)(h->period * 1000000 / h->rate) : 0; return 0; }
int snd_pcm_hw_params_get_period_time_max(const snd_pcm_hw_params_t*, unsigned* v, int*) { *v = 1000000; return 0; }
int snd_pcm_hw_params_get_period_time_min(const snd_pcm_hw_params_t*, unsigned* v, int*) { *v = 1; return 0; }
int snd_pcm_hw_params_get_buffer_size(const snd_pcm_hw_params_t* h, snd_pcm_uframes_t* v) { *v = h->period * h->periods; return 0; }
int snd_pcm_hw_params_get_buffer_size_max(const snd_pcm_hw_params_t*, snd_pcm_uframes_t* v) { *v = 1 << 20; return 0; }
int snd_pcm_hw_params_get_buffer_size_min(const snd_pcm_hw_params_t*, snd_pcm_uframes_t* v) { *v = 1; return 0; }
int snd_pcm_hw_params_get_sbits(const snd_pcm_hw_params_t*) { return 16; }
int snd_device_name_hint(int, const char*, void*** h) {
    if (!E.hints) { return -ENOENT; }
    *h = new void*[N + 1]; for (int i = 0; i < N; ++i) (*h)[i] = (void*)NAMES[i]; (*h)[N] = nullptr; return 0;
}
int snd_device_name_free_hint(void** h) { delete[] h; return 0; }
char* snd_device_name_get_hint(const void* h, const char* id) {
    std::string k = id, n = (const char*)h;
    if (k == "NAME") return strdup(n.c_str());
    if (k == "DESC") return n == "odd" ? nullptr : strdup(("the " + n + " device").c_str());
    return n == "hw:0" ? strdup("Output") : nullptr;
}
}
namespace {
struct Src : SourceModule {
    std::vector<int16_t> sent; int runs = 0, count = 0;
    void process() override { ++runs; this->reserve(); for (auto& x : buff) { x = int16_mf((int16_t)(++count * 37 - 300)); sent.push_back((int16_t)(count * 37 - 300)); } }
};
void fresh() { E = Env(); }
_snd_pcm* current() { _snd_pcm* r = nullptr; for (auto& d : E.devs) if (d->open) { MC_CHECK(!r, "two devices are open"); r = d.get(); } return r; }
std::vector<int16_t> heard() { std::vector<int16_t> v; for (auto& d : E.devs) v.insert(v.end(), d->got.begin(), d->got.end()); return v; }
void compare(const Src& s, bool fatal) {
    auto g = heard();
    for (size_t i = 0; i < g.size() || (i < s.sent.size() && !fatal); ++i) {
        MC_CHECK(i < g.size(), "the device got %zu samples, %zu were processed", g.size(), s.sent.size());
        MC_CHECK(i < s.sent.size(), "the device got %zu samples, only %zu were processed", g.size(), s.sent.size());
        MC_CHECK(g[i] == s.sent[i], "sample %zu at the device is %d, expected %d", i, g[i], s.sent[i]);
    }
}
void configured(ALSASink& sink, unsigned ch, unsigned rate) {
    auto* d = current(); MC_CHECK(d && d->configured, "no device is open and configured after the start");
    MC_CHECK(d->hw.channels == ch && d->hw.rate == rate, "device configured with %u channels at %u, the chain has %u at %u", d->hw.channels, d->hw.rate, ch, rate);
    MC_CHECK(d->hw.access == SND_PCM_ACCESS_RW_INTERLEAVED && d->hw.format == SND_PCM_FORMAT_S16, "device configured with access %d, format %d", d->hw.access, d->hw.format);
}
DeviceInfo device(ALSASink& s, unsigned ch, unsigned rate, unsigned long period, unsigned periods) {
    DeviceInfo d = s.get_device(); d.channels = ch; d.sample_rate = rate; d.period_size = period; d.period = periods; return d;
}
}
// every answer of the device to every write
static void answers(bool fatal) {
    fresh(); E.nofail = !fatal; E.sour = choose(3);      // closing is not disturbed by what the device answers on the way
    {
        ALSASink sink; Src src; sink.link(&src);
        MC_CHECK(!current(), "a device is left open after looking it up");
        unsigned ch = range(1, thorough() ? 3 : 2); int frames = range(1, 3), periods = range(1, 2);
        sink.set_device(device(sink, ch, 8000, frames * 2, periods));
        sink.meta_info_sync();
        MC_CHECK(sink.get_chain_info()->channels == (int)ch && sink.get_chain_info()->sample_rate == 8000, "chain has %d channels at %g, the device %u at 8000", sink.get_chain_info()->channels, sink.get_chain_info()->sample_rate, ch);
        MC_CHECK(src.get_info()->channels == (int)ch && src.get_info()->sample_rate == 8000, "source has %d channels at %g, the device %u at 8000", src.get_info()->channels, src.get_info()->sample_rate, ch);
        label("channels=%u frames=%d periods=%d", ch, frames, periods);
        E.devs.clear();
        sink.meta_start(); configured(sink, ch, 8000);
        E.hiccups = thorough() ? (fatal ? 4 : 5) : (fatal ? 3 : 4);
        for (int i = 0; i < 2; ++i) {
            sink.meta_process();
            compare(src, E.fatal);
            MC_CHECK(src.runs == (i + 1) * periods, "upstream was run %d times", src.runs);
            state((Hash() << heard().size() << E.hiccups << E.fatal << current()->state).get());
        }
        E.hiccups = 0; sink.meta_stop();
        MC_CHECK(!current(), "the device is still open after the stop");
        MC_CHECK(E.devs.size() == 1 && E.devs[0]->closes == 1, "%zu devices opened in one cycle", E.devs.size());
        MC_CHECK(E.fatal || E.devs[0]->drains == 1, "the device was closed without playing out");
        outcome((Hash() << ch << frames << periods << E.fatal << heard().size()).get());
    }
    fresh();
}
MC_SCENARIO(hiccups, 4) { answers(false); }
MC_SCENARIO(broken, 4) { answers(true); }
// failures to open and configure, in every order of requests
MC_SCENARIO(cycles, 3) {
    fresh(); E.sour = choose(3);
    {
        ALSASink sink; Src src; sink.link(&src); bool open = false; int opens = 0; unsigned ch = 1, rate = 44100;
        unsigned dch = range(1, 2); sink.set_device(device(sink, ch = dch, rate, 4, 1)); sink.meta_info_sync();
        E.devs.clear();
        for (int d = thorough() ? 6 : 5; d--;) {
            int op = choose(6);
            note("op %d", op);
            switch (op) {
            case 0: case 1: case 2: {
                E.fail = op == 0 ? NONE : op == 1 ? OPEN : pick({ANY, ACCESS, FORMAT, CHANNELS, RATE, COMMIT});
                size_t before = E.devs.size();
                sink.meta_start();
                bool ok = E.fail == NONE;
                if (ok) { configured(sink, ch, rate); if (!open) MC_CHECK(E.devs.size() == before + 1, "%zu devices opened by one start", E.devs.size() - before); open = true; }
                else { MC_CHECK(sink.get_device().load_fail, "the failure is not reported");
                       MC_CHECK(!current(), "a device that could not be configured stays open"); open = false; }
                if (ok) MC_CHECK(!sink.get_device().load_fail, "a failure is reported for a device that works");
                E.fail = NONE; break; }
            case 3: {
                sink.meta_process();
                if (!open) { size_t n = heard().size(); src.sent.resize(n); }    // nowhere to play it
                break; }
            case 4: sink.meta_stop(); open = false; MC_CHECK(!current(), "the device is still open after the stop"); break;
            case 5: if (open) prune(); ch = 3 - ch; rate = rate == 8000 ? 44100 : 8000; sink.set_device(device(sink, ch, rate, 2 + 2 * ch, 1)); sink.meta_info_sync(); break;
            }
            (void)opens;
            MC_CHECK((current() != nullptr) == open, "the device is %sopen", open ? "not " : "");
            compare(src, false);
            state((Hash() << open << ch << heard().size() << E.devs.size()).get());
        }
        sink.meta_stop();
        for (auto& d : E.devs) MC_CHECK(d->closes == 1, "a device was closed %d times", d->closes);
        outcome((Hash() << ch << open << heard().size() << E.devs.size()).get());
    }
    fresh();
}
// the period settings are recommendations; unconstrained values; no synchronisation at all
MC_SCENARIO(settings, 3) {
    fresh(); E.sour = choose(3);
    {
        ALSASink sink; Src src; sink.link(&src);
        unsigned ch = range(0, 3); unsigned rate = pick({0u, 8000u, 44100u, 192000u}); unsigned long ps = pick({0ul, 2ul, 10ul, 880ul}); unsigned np = range(0, 3);
        bool sync = ch > 1 || flip(); Stage f = pick({NONE, PSIZE, PERIODS});
        sink.set_device(device(sink, ch, rate, ps, np));
        label("channels=%u rate=%u period=%lu periods=%u sync=%d fail=%d", ch, rate, ps, np, sync, (int)f);
        if (sync) {
            sink.meta_info_sync();
            auto* ci = sink.get_chain_info();
            MC_CHECK(ci->channels == (int)(ch ? ch : 1) && ci->sample_rate == (rate ? rate : 44100), "chain has %d channels at %g, the device %u at %u", ci->channels, ci->sample_rate, ch, rate);
            MC_CHECK(src.get_info()->channels == ci->channels && src.get_info()->sample_rate == ci->sample_rate, "source has %d channels at %g, the device %u at %u", src.get_info()->channels, src.get_info()->sample_rate, ch, rate);
        }
        E.devs.clear(); E.fail = f; sink.meta_start(); E.fail = NONE;
        configured(sink, ch ? ch : 1, rate ? rate : 44100);
        for (int i = 0; i < 2; ++i) { sink.meta_process(); compare(src, false); }
        sink.meta_stop(); MC_CHECK(!current(), "the device is still open after the stop");
        outcome((Hash() << ch << rate << ps << np << sync << (int)f).get());
    }
    fresh();
}
// looking devices up never fails badly and leaves nothing open
MC_SCENARIO(lookup, 2) {
    fresh(); E.hints = flip(); int fl = choose(3); E.fail = fl == 0 ? NONE : fl == 1 ? OPEN : COMMIT;
    {
        ALSASink sink; MC_CHECK(!current(), "a device is left open");
        int n = E.hints ? N : 0;
        MC_CHECK(sink.get_device_count() == n, "%d devices, expected %d", sink.get_device_count(), n);
        for (int i = 0; i < n + 2; ++i) {
            DeviceInfo d = sink.get_device_by_id(i); step();
            MC_CHECK(!current(), "a device is left open after looking it up");
            if (i < n) {
                MC_CHECK(d.name == NAMES[i] && d.id == i, "device %d is %s, expected %s", i, d.name.c_str(), NAMES[i]);
                MC_CHECK(d.output, "device %d does not play", i); MC_CHECK(d.input == (d.name != "hw:0"), "device %d: wrong direction", i);
                if (E.fail != COMMIT) MC_CHECK(d.load_fail == (E.fail == OPEN), "failure %sreported for device %d", d.load_fail ? "" : "not ", i);
                DeviceInfo b = sink.get_device_by_name(d.name); MC_CHECK(b.id == i && b.name == d.name, "device %s is found as %d, expected %d", d.name.c_str(), b.id, i);
            } else MC_CHECK(d.load_fail, "a device that does not exist is not reported");
        }
        DeviceInfo m = sink.get_device_by_name("missing"); MC_CHECK(m.load_fail, "a device that does not exist is not reported");
        E.fail = OPEN; sink.set_device("missing"); sink.start(); MC_CHECK(sink.get_device().load_fail, "the failure is not reported"); sink.alsa_stop();
        MC_CHECK(!current(), "a device is left open");
    }
    outcome(E.hints * 3 + fl); fresh();
}
// realistic blocks, partial writes of any size
MC_SCENARIO(scale_blocks, 3) {
    fresh();
    {
        ALSASink sink; Src src; sink.link(&src);
        int frames = scale::frames(); unsigned ch = pick({1u, 2u, 3u, 6u, 8u}); int periods = pick({1, 2, 3, 4}); unsigned rate = pick({8000u, 192000u});
        if ((long)frames * ch * periods > (thorough() ? 400000 : 40000)) prune();
        sink.set_device(device(sink, ch, rate, (unsigned long)frames * 2, periods));
        label("channels=%u frames=%d periods=%d rate=%u", ch, frames, periods, rate);
        sink.meta_info_sync();
        E.devs.clear(); sink.meta_start(); configured(sink, ch, rate); E.hiccups = thorough() && (long)frames * ch * periods < 40000 ? 2 : 1;
        for (int i = 0; i < 2; ++i) { sink.meta_process(); compare(src, false); MC_CHECK(src.runs == (i + 1) * periods, "upstream was run %d times", src.runs); }
        sink.meta_stop(); MC_CHECK(!current(), "the device is still open after the stop");
        outcome((Hash() << ch << frames << periods << rate << heard().size()).get());
    }
    fresh();
}
