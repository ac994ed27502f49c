// K02: writing WAV data.
#include "mc.hpp"
#include "kwav.hpp"
#include "io/wav.hpp"
#include <memory>
#include <unistd.h>
using namespace mc;

static const double VALS[] = {0.0, 1.0, -1.0, 0.5, -0.5, 0.25, 1.0 / 32767, -1.0 / 32768, 0.999, -0.999, 1e-9, -1e-9, 0.1, -0.7};
static double value(int i, int pat) { return VALS[(i * 5 + pat) % 14]; }

static kwav::Bytes slurp(const std::string& p) {
    kwav::Bytes v;
    FILE* fp = fopen(p.c_str(), "rb");
    if (!fp) return v;
    unsigned char buf[4096]; size_t n;
    while ((n = fread(buf, 1, sizeof buf, fp)) > 0) v.insert(v.end(), buf, buf + n);
    fclose(fp);
    return v;
}
// Independent parse of the whole file
static void verify(const kwav::Bytes& b, int bits, int ch, int rate, const std::vector<double>& vals, bool exact_length) {
    using namespace kwav;
    MC_CHECK(b.size() >= 44, "file has only %zu bytes", b.size());
    MC_CHECK(!memcmp(&b[0], "RIFF", 4) && !memcmp(&b[8], "WAVE", 4), "no RIFF/WAVE header");
    size_t total = g32(b, 4) + 8ull;
    if (exact_length) MC_CHECK(total == b.size(), "RIFF size field says %zu, file has %zu bytes", total, b.size());
    else MC_CHECK(total <= b.size(), "RIFF size field says %zu, only %zu bytes present", total, b.size());
    size_t p = 12; bool fmt = false, dat = false;
    while (p < total) {
        MC_CHECK(p + 8 <= total, "chunk header at %zu beyond the end %zu", p, total);
        uint32_t n = g32(b, p + 4);
        MC_CHECK(p + 8 + n <= total, "chunk at %zu of %u bytes beyond the end %zu", p, n, total);
        if (!memcmp(&b[p], "fmt ", 4)) {
            fmt = true;
            MC_CHECK(n >= 16 && g16(b, p + 8) == 1 && (int)g16(b, p + 10) == ch && (int)g32(b, p + 12) == rate && (long long)g32(b, p + 16) == (long long)rate * ch * bits / 8 &&
                     (int)g16(b, p + 20) == ch * bits / 8 && (int)g16(b, p + 22) == bits, "format chunk: size %u fmt %u ch %u rate %u byterate %u align %u bits %u", n,
                     g16(b, p + 8), g16(b, p + 10), g32(b, p + 12), g32(b, p + 16), g16(b, p + 20), g16(b, p + 22));
        } else if (!memcmp(&b[p], "data", 4)) {
            MC_CHECK(fmt && !dat, "data before fmt or twice");
            dat = true;
            MC_CHECK(n == vals.size() * bits / 8, "data size field says %u, %zu bytes of samples were written", n, vals.size() * bits / 8);
            for (size_t i = 0; i < vals.size(); ++i) {
                int raw = bits == 8 ? b[p + 8 + i] : (int16_t)g16(b, p + 8 + 2 * i);
                MC_CHECK(std::fabs(decode(raw, bits) - vals[i]) <= stepsize(bits) * (1 + 1e-9), "stored sample %zu is %d (%.9g), written %.9g", i, raw, decode(raw, bits), vals[i]);
            }
        } else fail("unknown chunk at %zu", p);
        p += 8 + n + (n & 1);
        if (n & 1) MC_CHECK(p <= b.size() && b[p - 1] == 0, "the padding byte of a chunk is %d", b[p - 1]);
    }
    MC_CHECK(fmt && dat, "missing chunk");
    MC_CHECK(p == total, "RIFF size %zu does not match the chunks (%zu)", total, p);
}
static void read_back(const kwav::Bytes& b, int bits, int ch, int rate, const std::vector<double>& vals, WaveWriter& w) {
    CharIStream in; in.get_array() = b;
    WaveReader r(&in);
    r.start(); step();
    MC_CHECK(r.get_format() == 1 && r.get_channels() == ch && r.get_samplerate() == rate && r.get_bits_per_sample() == bits, "format read back differs");
    MC_CHECK(r.get_size() == w.get_size() && r.get_byterate() == w.get_byterate() && r.get_blockalign() == w.get_blockalign(), "reader size %d/%d align %d/%d", r.get_size(), w.get_size(), r.get_blockalign(), w.get_blockalign());
    size_t pos = 0;
    int blk = 2;
    while (pos <= vals.size()) {
        r.set_buffer_size(blk);
        auto d = r.get_data(); step();
        for (int i = 0; i < (int)d->size(); ++i) {
            double e = pos + i < vals.size() ? vals[pos + i] : 0;
            MC_CHECK(std::fabs(d->at(i) - e) <= (pos + i < vals.size() ? kwav::stepsize(bits) * (1 + 1e-9) : 0), "sample %zu read back as %.9g, written %.9g", pos + i, d->at(i), e);
        }
        pos += d->size();
    }
}
// write a list of blocks; returns everything written
static std::vector<double> blocks(WaveWriter& w, int ch, const std::vector<int>& sizes, int pat) {
    std::vector<double> all;
    for (int n : sizes) {
        auto b = std::make_unique<AudioBuffer>(n, ch);
        for (int i = 0; i < n * ch; ++i) { double v = value((int)all.size(), pat); b->at(i) = v; all.push_back(v); }
        w.write_data(std::move(b)); step();
    }
    return all;
}
static void configure(WaveWriter& w, int bits, int ch, int rate, int order) {
    // any order of the setters gives the same format
    int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    for (int k : perm[order % 6]) {
        if (k == 0) { if (order >= 6) w.set_bytes_per_sample(bits / 8); else w.set_bits_per_sample(bits); }
        if (k == 1) w.set_channels(ch);
        if (k == 2) w.set_samplerate(rate);
    }
}
MC_SCENARIO(histories, 4) {
    int bits = pick({8, 16}), ch = range(1, thorough() ? 4 : 3);
    int dest = choose(2);   // memory, file
    int order = choose(thorough() ? 12 : 4) * (thorough() ? 1 : 3);
    int rate = pick({44100, 8000});
    label("write bits=%d dest=%d", bits, dest);
    WaveWriter w;
    configure(w, bits, ch, rate, order);
    std::string path = "/tmp/mc_k02_" + std::to_string(getpid());
    struct Rm { std::string p; ~Rm() { unlink(p.c_str()); } } rm{path};
    CharOStream mem1, mem2;
    FOStream f1, f2;
    f1.set_path(path); f2.set_path(path);
    bool sameStream = flip();
    int rounds = range(1, 2);
    for (int k = 0; k < rounds; ++k) {
        BaseMOStream* st = dest ? (BaseMOStream*)(k && !sameStream ? &f2 : &f1) : (BaseMOStream*)(k && !sameStream ? &mem2 : &mem1);
        w.set_stream(st);
        MC_CHECK(w.get_stream() == st, "get_stream");
        w.start(); step();
        int nb = choose(k ? 3 : 4);
        std::vector<int> sizes;
        for (int i = 0; i < nb; ++i) sizes.push_back(range(0, k ? 2 : 3));
        auto vals = blocks(w, ch, sizes, k + nb);
        w.stop(); step();
        MC_CHECK(st->bad(), "stream still good after stop");
        if (flip()) { w.stop(); step(); }     // stopping twice changes nothing
        kwav::Bytes b = dest ? slurp(path) : static_cast<CharOStream*>(st)->get_array();
        verify(b, bits, ch, rate, vals, dest == 1 || !sameStream || k == 0);
        read_back(b, bits, ch, rate, vals, w);
        Hash h; h << bits << ch << k << vals.size() << dest; state(h.get());
        Hash o; o << b; outcome(o.get());
    }
}
// long streams: sizes beyond one and two bytes, many blocks
MC_SCENARIO(long_files, 3) {
    int bits = pick({8, 16}), ch = range(1, 2);
    int frames = pick({127, 128, 255, 256, 32745, 65535, 65536, 70000});
    int dest = choose(2);
    int blk = pick({1000, 4096, 70000});
    label("long bits=%d dest=%d", bits, dest);
    std::string path = "/tmp/mc_k02_" + std::to_string(getpid());
    struct Rm { std::string p; ~Rm() { unlink(p.c_str()); } } rm{path};
    CharOStream mem; FOStream f; f.set_path(path);
    WaveWriter w(dest ? (BaseMOStream*)&f : (BaseMOStream*)&mem);
    configure(w, bits, ch, 96000, 0);
    w.start();
    std::vector<int> sizes;
    for (int i = 0; i < frames; i += blk) sizes.push_back(std::min(blk, frames - i));
    auto vals = blocks(w, ch, sizes, bits);
    w.stop();
    verify(dest ? slurp(path) : mem.get_array(), bits, ch, 96000, vals, true);
    state((Hash() << bits << ch << frames << dest << blk).get());
    outcome((Hash() << bits << ch << frames).get());
}
// any channel count and rate
MC_SCENARIO(formats, 3) {
    int bits = pick({8, 16}), c = choose(49);
    static const int WIDE[] = {63, 64, 127, 128, 255, 256, 257, 300, 511, 1000, 4095, 16383, 32767, 32768, 65535};
    int ch = c < 34 ? c + 1 : WIDE[c - 34];
    if (bits * ch / 8 > 65535) prune();     // the alignment field has 16 bits
    int rate = pick({1, 11025, 44100, 48000, 65535, 65536, 192000, 1000000, 16777217, 2147483647});
    if ((long long)rate * ch * bits / 8 > 2147483647LL) prune();
    int n = ch > 2000 ? 1 : range(0, 2);
    label("format bits=%d channels=%d rate=%d", bits, ch, rate);
    CharOStream mem; WaveWriter w(&mem);
    configure(w, bits, ch, rate, choose(2) * 7);
    w.start(); auto vals = blocks(w, ch, {n, 1}, c); w.stop(); step();
    verify(mem.get_array(), bits, ch, rate, vals, true);
    read_back(mem.get_array(), bits, ch, rate, vals, w);
    state((Hash() << bits << ch << rate << n).get());
    outcome((Hash() << bits << ch << rate).get());
}
// each sample value is stored to within one step and survives reading back
MC_SCENARIO(values, 2) {
    int bits = pick({8, 16});
    int page = choose(128);
    label("values bits=%d", bits);
    CharOStream mem; WaveWriter w(&mem);
    configure(w, bits, 1, 44100, 0);
    w.start();
    std::vector<double> vals;
    auto b = std::make_unique<AudioBuffer>(1024, 1);
    for (int i = 0; i < 1024; ++i) { double v = (page * 1024 + i) / 65536.0 - 1.0; if (i == 1023 && page == 127) v = 1.0; b->at(i) = v; vals.push_back(v); }
    w.write_data(std::move(b));
    w.stop();
    step();
    verify(mem.get_array(), bits, 1, 44100, vals, true);
    read_back(mem.get_array(), bits, 1, 44100, vals, w);
    state((Hash() << bits << page).get());
    outcome((Hash() << bits << page).get());
}

// files of every size the header can express; only the first bytes are kept
struct Sparse : BaseMOStream {
    unsigned char head[64] = {}; uint64_t pos = 0, end = 0;
    void seek(int p) override { pos = (uint32_t)p; }
    void write(char* d, int n) override { for (int i = 0; i < n && pos + i < 64; ++i) head[pos + i] = d[i]; pos += n; end = std::max(end, pos); }
};
MC_SCENARIO(scale_files, 2, 300) {
    static const uint64_t L[] = {32767, 32768, 65499, 65500, 65501, 65535, 65536, 65537, (1 << 24) - 45, (1 << 24) - 36, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, 40000000, 0x7fffffd0, 0x80000000, 0xb0000001, 0xfff00000};
    int li = choose(18); uint64_t len = L[li]; int bits = pick({8, 16});
    if (len > 1 << 28 && (bits == 8 || (!thorough() && li != 15))) prune();
    if (bits == 16) len &= ~1ull;
    label("%llu bytes of samples, %d bits", (unsigned long long)len, bits);
    Sparse out; WaveWriter w(&out);
    configure(w, bits, 1, 48000, 0);
    w.start(); step();
    uint64_t left = len * 8 / bits; uint64_t blk = len < 70000 ? 1000 : 1 << 20;
    while (left) {
        int n = (int)std::min<uint64_t>(left, blk);
        w.write_data(std::make_unique<AudioBuffer>(n, 1)); left -= n; step(); heartbeat();
    }
    w.stop(); step();
    uint64_t pad = len & 1;
    auto f = [&](int i) { return out.head[i] | out.head[i + 1] << 8 | out.head[i + 2] << 16 | (uint32_t)out.head[i + 3] << 24; };
    MC_CHECK(out.end == 44 + len + pad, "the file has %llu bytes, expected %llu", (unsigned long long)out.end, (unsigned long long)(44 + len + pad));
    MC_CHECK(!memcmp(out.head, "RIFF", 4) && f(4) == 36 + len + pad, "%llu bytes of samples: the RIFF size field says %u", (unsigned long long)len, f(4));
    MC_CHECK(!memcmp(out.head + 36, "data", 4) && f(40) == len, "%llu bytes of samples: the data size field says %u", (unsigned long long)len, f(40));
    MC_CHECK(!memcmp(out.head + 12, "fmt ", 4) && f(16) == 16 && f(24) == 48000 && out.head[34] == bits, "format chunk");
    state((Hash() << len << bits).get());
    outcome((Hash() << len << bits).get());
}
