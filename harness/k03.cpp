// K03: malformed and truncated WAV input.
#include "mc.hpp"
#include "kwav.hpp"
#include "io/wav.hpp"
#include <memory>
#include <unistd.h>
using namespace mc;

struct Source {
    CharIStream mem; FIStream file; bool onfile; std::string path;
    Source(const kwav::Bytes& b, bool f) : onfile(f) {
        if (f) {
            path = "/tmp/mc_k03_" + std::to_string(getpid());
            FILE* fp = fopen(path.c_str(), "wb");
            if (!fp) abort();
            fwrite(b.data(), 1, b.size(), fp); fclose(fp);
            file.set_path(path);
        } else { mem.get_array() = b; mem.get_array().shrink_to_fit(); }
    }
    ~Source() { if (onfile) unlink(path.c_str()); }
    BaseMIStream* get() { return onfile ? (BaseMIStream*)&file : (BaseMIStream*)&mem; }
};
static kwav::Spec base(int k) {
    kwav::Spec s;
    s.bits = k % 2 ? 8 : 16;
    s.channels = 1 + (k / 2) % 2;
    s.frames = 5;
    switch (k / 4) {
    case 0: break;
    case 1: s.pre = 6; s.ext = 2; break;
    case 2: s.split = 2; s.gap = 5; s.post = 4; break;
    default: s.mid = 3; s.ext = 24; s.post = 9;
    }
    return s;
}
constexpr int BASES = 16;
// Reads the whole thing and compares it with what the format's definition makes of the bytes:
// an unusable input is known from the start, complete samples are delivered, the rest is silent.
// `riff`: the size of the whole is wrong, so what lies behind the end it claims may be left out
static void consume(const kwav::Bytes& b, bool file, int blk, bool riff = false) {
    const kwav::Parsed w = kwav::parse(b);
    Source src(b, file);
    WaveReader r(src.get());
    r.set_buffer_size(blk);
    r.start(); step();
    if (w.kind == kwav::Parsed::UNUSABLE) MC_CHECK(src.get()->bad() && r.done(), "the input is no WAV file with a format, but the stream is good after the start");
    size_t pos = 0; const size_t good = w.v.size(); const uint64_t claim = riff && b.size() > 8 ? 8ull + kwav::g32(b, 4) : b.size(); bool silent = false;
    int calls = (int)b.size() + 4;
    bool ended = false;
    int after = 0;
    for (int c = 0; c < calls && after < 3; ++c) {
        ended = src.get()->bad();
        int ch = r.get_channels();
        MC_CHECK(ch >= 1, "channel count %d", ch);
        auto d = r.get_data(); step();
        MC_CHECK((int)d->size() == blk * r.get_channels(), "block of %zu samples, requested %d frames of %d channels", d->size(), blk, r.get_channels());
        for (int i = 0; i < (int)d->size(); ++i, ++pos) {
            double x = d->at(i);
            MC_CHECK(x >= -1 && x <= 1, "sample %zu is %g", pos, x);
            if (ended) MC_CHECK(x == 0, "sample %zu after the end is %g", pos, x);
            if (w.kind != kwav::Parsed::UNKNOWN) {
                if (pos < good && !silent) {
                    bool may = riff && (claim >= 0x100000000ull || claim <= w.fmtend || w.end[pos] > claim);
                    if (may && x == 0 && w.v[pos] != 0) silent = true;
                    else MC_CHECK(std::fabs(x - w.v[pos]) < 1e-12, "sample %zu of %zu is %g, expected %g", pos, good, x, w.v[pos]);
                } else if (!w.odd || pos > good) MC_CHECK(std::fabs(x) <= 1.0 / 255 + 1e-12, "sample %zu behind the last one is %g", pos, x);
            }
        }
        if (ended) ++after;
        state((Hash() << pos << ended << src.get()->get_state()).get());
    }
    MC_CHECK(src.get()->bad() && r.done(), "input of %zu bytes exhausted after %d blocks but the stream is still good", b.size(), calls);
    r.stop(); step();
    outcome((Hash() << r.get_channels() << r.get_bits_per_sample() << (int)src.get()->get_state() << pos).get());
}
MC_SCENARIO(truncation, 2, 20) {
    int k = choose(BASES);
    kwav::Spec s = base(k);
    kwav::Built w = kwav::build(s);
    int cut = choose((int)w.b.size());
    bool file = flip();
    int blk = pick({1, 2, 3, 7});
    label("truncated base=%d file=%d", k, file);
    note("cut at %d", cut);
    kwav::Bytes b(w.b.begin(), w.b.begin() + cut);
    size_t good = 0;
    while (good < w.pos.size() && w.pos[good] + s.bits / 8 <= (size_t)cut) ++good;
    MC_CHECK(kwav::parse(b).v.size() == good, "the reference finds %zu samples in front of the cut, %zu are there", kwav::parse(b).v.size(), good);
    consume(b, file, blk);
}
static const uint32_t SIZES[] = {0, 1, 2, 3, 4, 15, 16, 17, 18, 40, 63, 64, 255, 0xffff, 0x10000, 0x7ffffff7, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffff0, 0xfffffff6, 0xfffffff7, 0xfffffff8, 0xfffffffe, 0xffffffff};
MC_SCENARIO(bad_size, 2, 20) {
    int k = choose(BASES);
    kwav::Spec s = base(k);
    kwav::Built w = kwav::build(s);
    int f = choose((int)w.sizepos.size());
    int v = choose((int)(sizeof SIZES / sizeof *SIZES) + 4);
    bool file = flip();
    int blk = pick({1, 2, 7});
    label("bad size base=%d field=%d file=%d", k, f, file);
    uint32_t old = kwav::g32(w.b, w.sizepos[f]);
    int n = sizeof SIZES / sizeof *SIZES;
    uint32_t val = v < n ? SIZES[v] : v == n ? old - 1 : v == n + 1 ? old + 1 : v == n + 2 ? old - 2 : old + 2;
    note("size field %d: %u -> %u", f, old, val);
    for (int i = 0; i < 4; ++i) w.b[w.sizepos[f] + i] = (val >> (8 * i)) & 255;
    consume(w.b, file, blk, f == 0);
}
MC_SCENARIO(bad_id, 2, 20) {
    int k = choose(BASES);
    kwav::Spec s = base(k);
    kwav::Built w = kwav::build(s);
    int f = choose((int)w.idpos.size());
    static const char* IDS[] = {"data", "fmt ", "RIFF", "WAVE", "LIST", "    "};
    int how = choose(4 * 4 + 6);
    bool file = flip();
    int blk = pick({1, 2, 7});
    label("bad id base=%d field=%d file=%d", k, f, file);
    size_t p = w.idpos[f];
    if (how < 16) {
        static const int repl[] = {0, 0xff, -1, -2};
        int rv = repl[how % 4];
        unsigned char& c = w.b[p + how / 4];
        c = rv == -1 ? c ^ 0x20 : rv == -2 ? c + 1 : rv;
    } else for (int i = 0; i < 4; ++i) w.b[p + i] = IDS[how - 16][i];
    note("id %d changed (%d)", f, how);
    consume(w.b, file, blk);
}
// both: a damaged size field on a truncated file
MC_SCENARIO(size_and_cut, 2, 20) {
    int k = thorough() ? choose(BASES) : pick({0, 5, 10});
    kwav::Spec s = base(k);
    kwav::Built w = kwav::build(s);
    int f = choose((int)w.sizepos.size());
    uint32_t val = SIZES[choose(sizeof SIZES / sizeof *SIZES)];
    int cut = choose((int)w.b.size());
    label("bad size + truncated base=%d field=%d", k, f);
    for (int i = 0; i < 4; ++i) w.b[w.sizepos[f] + i] = (val >> (8 * i)) & 255;
    w.b.resize(cut);
    consume(w.b, false, 2, f == 0);
}
// damaged format fields
MC_SCENARIO(bad_format, 2, 20) {
    int k = choose(BASES);
    kwav::Spec s = base(k);
    kwav::Built w = kwav::build(s);
    int off = choose(16);
    int v = pick({0, 1, 2, 3, 7, 8, 15, 16, 17, 24, 32, 127, 128, 255});
    bool file = flip();
    label("bad format base=%d off=%d", k, off);
    size_t fmt = 0;
    for (size_t i = 12; i + 4 < w.b.size(); ++i) if (!memcmp(&w.b[i], "fmt ", 4)) { fmt = i + 8; break; }
    w.b[fmt + off] = v;
    consume(w.b, file, 2);
}
// streams that are not there at all
MC_SCENARIO(no_file, 1, 20) {
    FIStream f; int kind = choose(3);
    f.set_path(kind == 0 ? "/nonexistent/x.wav" : kind == 1 ? "/" : "");
    label("no file kind=%d", kind);
    WaveReader r(&f);
    int blk = range(0, 4);
    r.set_buffer_size(blk);
    r.start(); step();
    MC_CHECK(static_cast<BaseMIStream&>(f).bad() && r.done(), "missing file leaves the stream good");
    for (int i = 0; i < 3; ++i) {
        auto d = r.get_data(); step();
        MC_CHECK((int)d->size() == blk * r.get_channels(), "block size");
        for (double x : *d) MC_CHECK(x == 0, "sound from a missing file");
    }
    r.stop();
    state((Hash() << kind << blk).get());
    outcome(kind);
}
