// K01: reading well-formed WAV data.
#include "mc.hpp"
#include "kwav.hpp"
#include "io/wav.hpp"
#include <memory>
#include <unistd.h>
using namespace mc;

static std::string tmpfile_name() { return "/tmp/mc_k01_" + std::to_string(getpid()); }
struct Source {   // memory or file
    CharIStream mem; FIStream file; bool onfile; std::string path;
    Source(const kwav::Bytes& b, bool f) : onfile(f) {
        if (f) {
            path = tmpfile_name();
            FILE* fp = fopen(path.c_str(), "wb");
            if (!fp) abort();
            fwrite(b.data(), 1, b.size(), fp); fclose(fp);
            file.set_path(path);
        } else mem.get_array() = b;
    }
    ~Source() { if (onfile) unlink(path.c_str()); }
    BaseMIStream* get() { return onfile ? (BaseMIStream*)&file : (BaseMIStream*)&mem; }
};

static void check_format(WaveReader& r, const kwav::Spec& s, const kwav::Built& w) {
    MC_CHECK(r.get_format() == 1 && r.get_channels() == s.channels && r.get_samplerate() == s.rate && r.get_bits_per_sample() == s.bits &&
             r.get_bytes_per_sample() == s.bits / 8 && r.get_blockalign() == s.channels * s.bits / 8 && r.get_byterate() == (long long)s.rate * s.channels * s.bits / 8,
             "format reported: fmt %d ch %d rate %d bits %d bytes %d align %d byterate %d", r.get_format(), r.get_channels(), r.get_samplerate(), r.get_bits_per_sample(),
             r.get_bytes_per_sample(), r.get_blockalign(), r.get_byterate());
    MC_CHECK(r.get_size() == (int)w.b.size(), "size reported %d, file has %zu bytes", r.get_size(), w.b.size());
}
// One block; returns the new position in samples
static size_t block(WaveReader& r, BaseMIStream* st, const kwav::Spec& s, const kwav::Built& w, size_t pos, int size, bool trailing) {
    r.set_buffer_size(size);
    auto b = r.get_data();
    step();
    MC_CHECK((int)b->size() == size * s.channels, "block has %zu samples, expected %d", b->size(), size * s.channels);
    MC_CHECK(b->channels() == s.channels && b->get_samplerate() == s.rate, "block has %d channels, rate %g", b->channels(), b->get_samplerate());
    for (int i = 0; i < (int)b->size(); ++i) {
        double e = pos + i < w.raw.size() ? kwav::decode(w.raw[pos + i], s.bits) : 0.0;
        MC_CHECK(std::fabs(b->at(i) - e) < 1e-12, "sample %zu is %.12g, expected %.12g (raw %d)", pos + i, b->at(i), e, pos + i < w.raw.size() ? w.raw[pos + i] : 0);
    }
    bool shortb = pos + b->size() > w.raw.size();
    pos += b->size();
    if (shortb) MC_CHECK(r.done() && st->bad(), "block not completely filled but the end is not reported (done=%d bad=%d)", r.done(), st->bad());
    if (pos < w.raw.size()) MC_CHECK(!r.done() && st->good(), "end reported %zu samples early", w.raw.size() - pos);
    if (pos >= w.raw.size() && !trailing) MC_CHECK(r.done() && st->bad(), "all data delivered, nothing follows, but the end is not reported");
    return pos;
}
static void run(const kwav::Spec& s, bool file, int maxblk, bool vary) {
    kwav::Built w = kwav::build(s);
    Source src(w.b, file);
    WaveReader r(src.get());
    r.start(); step();
    check_format(r, s, w);
    MC_CHECK(src.get()->good(), "stream not good after start");
    int blk = range(1, maxblk);
    size_t pos = 0;
    bool tr = s.post >= 0 || (s.split > 0 && s.split == s.frames);
    if (s.frames == 0) tr = true;      // nothing consumed yet: the end is seen by the first block
    while (pos <= w.raw.size()) {
        if (vary) blk = range(1, maxblk);
        pos = block(r, src.get(), s, w, pos, blk, tr);
        state((Hash() << s.bits << s.channels << s.frames << pos << blk << r.done()).get());
    }
    pos = block(r, src.get(), s, w, pos, maxblk, tr);   // reading beyond the end
    check_format(r, s, w);
    r.stop();
    MC_CHECK(src.get()->bad(), "stream good after stop");
    outcome((Hash() << s.bits << s.channels << s.frames << s.pre << s.ext << s.mid << s.split << s.gap << s.post).get());
}
// every layout of chunks
MC_SCENARIO(layouts, 3) {
    kwav::Spec s;
    s.bits = pick({8, 16});
    s.channels = range(1, thorough() ? 4 : 3);
    s.frames = range(0, thorough() ? 4 : 3);
    s.pre = pick({-1, 0, 3, 10});
    s.ext = pick({0, 2, 3, 24});
    s.mid = pick({-1, 0, 3, 10, 700});
    s.split = s.frames >= 1 ? choose(s.frames + 1) : 0;
    s.gap = s.split ? pick({-1, 0, 3, 10}) : -1;
    s.post = pick({-1, 0, 5, 10});
    s.pattern = s.frames;
    s.rate = 48000;
    label("layout bits=%d pre=%d ext=%d mid=%d split=%d gap=%d post=%d", s.bits, s.pre >= 0, s.ext, s.mid >= 0, s.split > 0, s.gap >= 0, s.post >= 0);
    run(s, false, 3, false);
}
// every division into blocks, on memory and on disk, several rates and patterns
MC_SCENARIO(partitions, 4) {
    kwav::Spec s;
    s.bits = pick({8, 16});
    s.channels = range(1, thorough() ? 6 : 4);
    s.frames = range(0, thorough() ? 7 : 5);
    bool file = flip();
    int layout = choose(3);
    if (layout == 1) s.post = 7, s.mid = 5;
    if (layout == 2 && s.frames > 1) s.split = s.frames / 2, s.gap = 3;
    s.rate = pick({8000, 44100, 192000});
    s.pattern = s.channels;
    label("partition bits=%d file=%d", s.bits, file);
    run(s, file, 4, true);
}
// any channel count and rate
MC_SCENARIO(formats, 3) {
    static const int WIDE[] = {63, 64, 127, 128, 255, 256, 257, 300, 511, 1000, 4095, 16383, 32767, 32768, 65535};
    kwav::Spec s; s.bits = pick({8, 16}); int c = choose(49);
    s.channels = c < 34 ? c + 1 : WIDE[c - 34];
    if (s.bits * s.channels / 8 > 65535) prune();
    s.rate = pick({1, 44100, 65535, 65536, 192000, 16777217, 2147483647});
    if ((long long)s.rate * s.channels * s.bits / 8 > 2147483647LL) prune();
    s.frames = range(0, 3); s.pattern = c;
    label("format bits=%d channels=%d rate=%d", s.bits, s.channels, s.rate);
    run(s, false, 2, false);
}
// every stored value is delivered exactly
MC_SCENARIO(values, 1) {
    int page = choose(257);
    label("values bits=%d", page == 256 ? 8 : 16);
    kwav::Spec s; s.bits = page == 256 ? 8 : 16; s.channels = 1 + page % 3; s.frames = 256;
    kwav::Built w = kwav::build(s);
    for (size_t i = 0; i < w.raw.size(); ++i) {
        int v = page == 256 ? int(i) & 255 : (int16_t)(uint16_t)(page << 8 | (i & 255));
        w.raw[i] = v;
        w.b[w.pos[i]] = v & 255;
        if (s.bits == 16) w.b[w.pos[i] + 1] = (v >> 8) & 255;
    }
    Source src(w.b, false);
    WaveReader r(src.get());
    r.start();
    size_t pos = 0;
    while (pos <= w.raw.size()) pos = block(r, src.get(), s, w, pos, 100, false);
    state((Hash() << page).get());
    outcome(page);
}
// a reader can be started again from the beginning
MC_SCENARIO(restart, 2) {
    kwav::Spec s;
    s.bits = pick({8, 16}); s.channels = range(1, 3); s.frames = range(1, 4);
    bool file = flip();
    int before = choose(4), layout = choose(2);
    bool stop = flip();
    if (layout) s.pre = 4, s.post = 6, s.ext = 2;
    label("restart file=%d stop=%d", file, stop);
    kwav::Built w = kwav::build(s);
    Source src(w.b, file);
    WaveReader r;
    r.set_stream(src.get());
    MC_CHECK(r.get_stream() == src.get(), "get_stream");
    r.start();
    size_t pos = 0;
    for (int i = 0; i < before; ++i) pos = block(r, src.get(), s, w, pos, 2, layout);
    if (stop || !file) r.stop();
    else { r.stop(); r.stop(); }
    if (!file) src.get()->seek(0);
    r.start(); step();
    check_format(r, s, w);
    pos = 0;
    while (pos <= w.raw.size()) pos = block(r, src.get(), s, w, pos, 1 + before, layout);
    state((Hash() << s.bits << s.channels << s.frames << before << stop << file).get());
    outcome((Hash() << s.frames << before).get());
}

// chunks of any size the format can express: a stream with a hole of up to 4 GB that costs no memory
struct Sparse : BaseMIStream {
    kwav::Bytes b; uint64_t hole = 0, len = 0, pos = 0;
    void seek(int p) override { pos = (uint32_t)p; }
    void read(char* d, int n) override {
        uint64_t end = b.size() + len;
        for (int i = 0; i < n; ) {
            if (pos >= end) { stop(); return; }
            if (pos >= hole && pos < hole + len) { uint64_t k = std::min<uint64_t>(n - i, hole + len - pos); memset(d + i, 0x61, k); i += k; pos += k; continue; }
            d[i++] = (char)b[pos < hole ? pos : pos - len]; ++pos;
        }
    }
};
MC_SCENARIO(scale_chunks, 3, 60) {
    static const uint64_t L[] = {65534, 65536, 70001, 1 << 24, 0x7ffffe00, 0x7fffffff, 0x80000000, 0x80000001, 0xc0000000, 0xfffff000};
    uint64_t len = L[choose(10)]; int where = choose(4);   // before the format, before the data, between the data, at the end
    kwav::Spec s; s.bits = pick({8, 16}); s.channels = range(1, 2); s.frames = 5; s.pattern = 1;
    if (len > 1 << 24 && !thorough() && (s.bits == 8) != (s.channels == 1)) prune();
    label("chunk of %llu bytes, place %d, %d bits", (unsigned long long)len, where, s.bits);
    (where == 0 ? s.pre : where == 1 ? s.mid : where == 2 ? s.gap : s.post) = 0;
    if (where == 2) s.split = 2;
    kwav::Built w = kwav::build(s);
    // widen the junk chunk
    size_t at = 0;
    for (size_t i : w.idpos) if (!memcmp(&w.b[i], "LIST", 4) || !memcmp(&w.b[i], "JUNK", 4)) at = i;
    if (!at) fail("no junk chunk in the layout");
    uint64_t padded = len + (len & 1), whole = w.b.size() + padded;
    for (int i = 0; i < 4; ++i) { w.b[at + 4 + i] = (len >> (8 * i)) & 255; w.b[4 + i] = ((whole - 8) >> (8 * i)) & 255; }
    Sparse in; in.b = w.b; in.hole = at + 8; in.len = padded;
    WaveReader r(&in);
    r.start(); step(); heartbeat();
    MC_CHECK(r.get_channels() == s.channels && r.get_bits_per_sample() == s.bits && r.get_samplerate() == s.rate, "format behind a chunk of %llu bytes", (unsigned long long)len);
    MC_CHECK(in.good(), "stream not good after start");
    size_t pos = 0; int blk = pick({1, 3});
    while (pos < w.raw.size()) { pos = block(r, &in, s, w, pos, blk, true); heartbeat(); }
    for (int i = 0; i < 2 && !r.done(); ++i) { block(r, &in, s, w, w.raw.size(), 1, true); heartbeat(); }
    MC_CHECK(r.done() && in.bad(), "everything is read but the end is not reported");
    state((Hash() << len << where << s.bits << s.channels).get());
    outcome((Hash() << len << where << s.bits << blk).get());
}
