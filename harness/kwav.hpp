// Independent WAV builder and parser used as the oracle of the K checks.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
namespace kwav {
using Bytes = std::vector<unsigned char>;
inline void p16(Bytes& b, uint32_t v) { b.push_back(v & 255); b.push_back((v >> 8) & 255); }
inline void p32(Bytes& b, uint32_t v) { p16(b, v & 0xffff); p16(b, v >> 16); }
inline void pid(Bytes& b, const char* s) { for (int i = 0; i < 4; ++i) b.push_back((unsigned char)s[i]); }
inline uint32_t g16(const Bytes& b, size_t i) { return b.at(i) | b.at(i + 1) << 8; }
inline uint32_t g32(const Bytes& b, size_t i) { return g16(b, i) | g16(b, i + 2) << 16; }

struct Spec {
    int bits = 16, channels = 1, rate = 44100, frames = 0;
    int pre = -1;      // junk chunk before fmt: -1 none, else its size
    int ext = 0;       // bytes of extension in the fmt chunk
    int mid = -1;      // junk chunk between fmt and data
    int split = 0;     // frames in the first data chunk if split > 0
    int gap = -1;      // junk chunk between the two data chunks
    int post = -1;     // junk chunk at the end
    int pattern = 0;
    const char* junk_id = "LIST";
};
struct Built {
    Bytes b;
    std::vector<int> raw;            // stored integers in file order
    std::vector<size_t> pos;         // byte offset of every sample
    std::vector<size_t> idpos, sizepos;
};
inline double decode(int raw, int bits) { return bits == 8 ? raw / 255.0 * 2 - 1 : raw < 0 ? raw / 32768.0 : raw / 32767.0; }
inline double stepsize(int bits) { return bits == 8 ? 1.0 / 127 : 1.0 / 32767; }
inline int sample(int i, int bits, int pattern) {
    static const int s16[] = {-123, 32767, -32768, 0, 1, -1, 0x6164, 0x6174, 255, -256, 12345, -32767, 32766, 0x4952};
    static const int s8[] = {0, 255, 128, 127, 1, 254, 'd', 'a', 't', 'a', 3, 200, 90, 66};
    int n = 14;
    return bits == 16 ? s16[(i + 3 * pattern) % n] : s8[(i + 3 * pattern) % n];
}
inline void chunk(Built& w, const char* id, int size, int fill) {
    if (size < 0) return;
    w.idpos.push_back(w.b.size()); pid(w.b, id);
    w.sizepos.push_back(w.b.size()); p32(w.b, size);
    // junk that looks like a data chunk header
    static const unsigned char evil[] = {'d', 'a', 't', 'a', 2, 0, 0, 0, 0x11, 0x22};
    for (int i = 0; i < size; ++i) w.b.push_back(fill ? evil[i % 10] : (unsigned char)(0xA0 + i));
    if (size & 1) w.b.push_back(0);
}
inline void data(Built& w, const Spec& s, int f0, int f1) {
    int n = (f1 - f0) * s.channels * s.bits / 8;
    w.idpos.push_back(w.b.size()); pid(w.b, "data");
    w.sizepos.push_back(w.b.size()); p32(w.b, n);
    for (int i = f0 * s.channels; i < f1 * s.channels; ++i) {
        int v = sample(i, s.bits, s.pattern);
        w.raw.push_back(v); w.pos.push_back(w.b.size());
        if (s.bits == 8) w.b.push_back((unsigned char)v); else p16(w.b, (uint16_t)v);
    }
    if (n & 1) w.b.push_back(0);
}
inline Built build(const Spec& s) {
    Built w;
    w.idpos.push_back(0); pid(w.b, "RIFF");
    w.sizepos.push_back(4); p32(w.b, 0);
    w.idpos.push_back(8); pid(w.b, "WAVE");
    chunk(w, s.junk_id, s.pre, 1);
    w.idpos.push_back(w.b.size()); pid(w.b, "fmt ");
    w.sizepos.push_back(w.b.size()); p32(w.b, 16 + s.ext);
    p16(w.b, 1); p16(w.b, s.channels); p32(w.b, s.rate);
    p32(w.b, (uint32_t)((uint64_t)s.rate * s.channels * s.bits / 8));
    p16(w.b, s.channels * s.bits / 8); p16(w.b, s.bits);
    for (int i = 0; i < s.ext; ++i) w.b.push_back(i == 0 && s.ext > 1 ? (unsigned char)(s.ext - 2) : 0);
    if (s.ext & 1) w.b.push_back(0);
    chunk(w, s.junk_id, s.mid, 1);
    if (s.split > 0) {
        data(w, s, 0, s.split);
        chunk(w, "JUNK", s.gap, 1);
        data(w, s, s.split, s.frames);
    } else data(w, s, 0, s.frames);
    chunk(w, "LIST", s.post, 0);
    uint32_t rs = w.b.size() - 8;
    for (int i = 0; i < 4; ++i) w.b[4 + i] = (rs >> (8 * i)) & 255;
    return w;
}
// What a file says, read straight from the format's definition: nothing beyond the end of the file exists.
struct Parsed {
    enum { UNUSABLE, UNKNOWN, KNOWN } kind = UNUSABLE;    // UNKNOWN: more channels than can be told
    std::vector<double> v;                                // every complete sample, in order
    std::vector<uint64_t> end;                            // where it ends
    uint64_t fmtend = 0;
    bool odd = false;                                     // a data chunk does not consist of whole samples
};
inline Parsed parse(const Bytes& b) {
    Parsed r; uint64_t n = b.size(), p = 12;
    if (n < 12 || memcmp(&b[0], "RIFF", 4) || memcmp(&b[8], "WAVE", 4)) return r;
    uint64_t size;
    for (;;) {
        if (p + 8 > n) return r;
        size = g32(b, p + 4); bool fmt = !memcmp(&b[p], "fmt ", 4); p += 8;
        if (fmt) break;
        p += size + (size & 1);
    }
    if (size < 16 || p + 16 > n) return r;
    int ch = (int)g16(b, p + 2), bits = (int)g16(b, p + 14), bytes = bits / 8;
    if (ch == 0 || g16(b, p) != 1 || (bits != 8 && bits != 16)) return r;
    r.kind = ch < 32768 ? Parsed::KNOWN : Parsed::UNKNOWN;
    if (r.kind == Parsed::UNKNOWN) return r;
    p += size + (size & 1);
    r.fmtend = p;
    while (p + 8 <= n) {
        size = g32(b, p + 4); bool data = !memcmp(&b[p], "data", 4); p += 8;
        if (data) {
            uint64_t have = std::min<uint64_t>(size, n - p);
            if (have % bytes) r.odd = true;
            for (uint64_t i = 0; i + bytes <= have; i += bytes) r.end.push_back(p + i + bytes), r.v.push_back(bits == 8 ? decode(b[p + i], 8) : decode((int16_t)g16(b, p + i), 16));
        }
        p += size + (size & 1);
    }
    return r;
}
}  // namespace kwav
