// H02: integers <-> little-endian bytes.
#include "mc.hpp"
#include "audio_buffer.hpp"
#include <array>
#include <vector>
using namespace mc;

// Serialise v through an iterator of type It over elements of type B, with guards
template <class B, class F> std::array<unsigned char, 8> put(F f, int n, const char* what) {
    std::vector<B> buf(12, B(0x5A));
    f(buf);
    std::array<unsigned char, 8> out{};
    for (int i = 0; i < 12; ++i) {
        if (i < 4 || i >= 4 + n) MC_CHECK((unsigned char)buf[i] == 0x5A, "%s touched byte %d", what, i - 4);
        else out[i - 4] = (unsigned char)buf[i];
    }
    return out;
}
static void check16(uint16_t u, int how) {
    int16_t v = (int16_t)u;
    std::array<unsigned char, 8> o{};
    switch (how) {
    case 0: o = put<char>([&](auto& b) { int16_char(v, b.data() + 4); }, 2, "int16_char(char*)"); break;
    case 1: o = put<unsigned char>([&](auto& b) { int16_char(v, b.data() + 4); }, 2, "int16_char(uchar*)"); break;
    case 2: o = put<signed char>([&](auto& b) { int16_char(v, b.data() + 4); }, 2, "int16_char(schar*)"); break;
    case 3: o = put<char>([&](auto& b) { int16_char(v, b.begin() + 4); }, 2, "int16_char(vector<char>)"); break;
    default: o = put<unsigned char>([&](auto& b) { int16_char(v, b.begin() + 4); }, 2, "int16_char(vector<uchar>)");
    }
    MC_CHECK(o[0] == (u & 0xff) && o[1] == (u >> 8), "int16_char(%d) via %d gives %02x %02x", v, how, o[0], o[1]);
    int16_t r = 0;
    unsigned char ub[2] = {(unsigned char)(u & 0xff), (unsigned char)(u >> 8)};
    std::vector<unsigned char> uv(ub, ub + 2);
    std::vector<char> cv(uv.begin(), uv.end());
    std::vector<signed char> sv(uv.begin(), uv.end());
    switch (how) {
    case 0: r = char_int16(cv.data()); break;
    case 1: r = char_int16(uv.data()); break;
    case 2: r = char_int16(sv.data()); break;
    case 3: r = char_int16(cv.begin()); break;
    default: r = char_int16((const unsigned char*)uv.data());
    }
    MC_CHECK(r == v, "char_int16(%02x %02x) via %d gives %d, expected %d", ub[0], ub[1], how, r, v);
}
static void check32(uint32_t u, int how) {
    std::array<unsigned char, 8> o{}, p{};
    int32_t v = (int32_t)u;
    switch (how) {
    case 0: o = put<char>([&](auto& b) { int32_char(v, b.data() + 4); }, 4, "int32_char(char*)");
            p = put<char>([&](auto& b) { uint32_char(u, b.data() + 4); }, 4, "uint32_char(char*)"); break;
    case 1: o = put<unsigned char>([&](auto& b) { int32_char(v, b.data() + 4); }, 4, "int32_char(uchar*)");
            p = put<unsigned char>([&](auto& b) { uint32_char(u, b.data() + 4); }, 4, "uint32_char(uchar*)"); break;
    case 2: o = put<signed char>([&](auto& b) { int32_char(v, b.data() + 4); }, 4, "int32_char(schar*)");
            p = put<signed char>([&](auto& b) { uint32_char(u, b.data() + 4); }, 4, "uint32_char(schar*)"); break;
    case 3: o = put<char>([&](auto& b) { int32_char(v, b.begin() + 4); }, 4, "int32_char(vector<char>)");
            p = put<char>([&](auto& b) { uint32_char(u, b.begin() + 4); }, 4, "uint32_char(vector<char>)"); break;
    default: o = put<unsigned char>([&](auto& b) { int32_char(v, b.begin() + 4); }, 4, "int32_char(vector<uchar>)");
            p = put<unsigned char>([&](auto& b) { uint32_char(u, b.begin() + 4); }, 4, "uint32_char(vector<uchar>)");
    }
    std::vector<unsigned char> uv;
    for (int i = 0; i < 4; ++i) {
        unsigned char e = (u >> (8 * i)) & 0xff;
        MC_CHECK(o[i] == e, "int32_char(%d) via %d: byte %d is %02x, expected %02x", v, how, i, o[i], e);
        MC_CHECK(p[i] == e, "uint32_char(%u) via %d: byte %d is %02x, expected %02x", u, how, i, p[i], e);
        uv.push_back(e);
    }
    std::vector<char> cv(uv.begin(), uv.end());
    std::vector<signed char> sv(uv.begin(), uv.end());
    int32_t r = 0; uint32_t q = 0;
    switch (how) {
    case 0: r = char_int32(cv.data()); q = char_uint32(cv.data()); break;
    case 1: r = char_int32(uv.data()); q = char_uint32(uv.data()); break;
    case 2: r = char_int32(sv.data()); q = char_uint32(sv.data()); break;
    case 3: r = char_int32(cv.begin()); q = char_uint32(cv.begin()); break;
    default: r = char_int32((const unsigned char*)uv.data()); q = char_uint32((const unsigned char*)uv.data());
    }
    MC_CHECK(r == v, "char_int32 of %08x via %d gives %d", u, how, r);
    MC_CHECK(q == u, "char_uint32 of %08x via %d gives %u", u, how, q);
}
MC_SCENARIO(int16_all, 1) {
    int hi = choose(256), how = choose(5);
    label("int16");
    for (int lo = 0; lo < 256; ++lo) { check16(uint16_t(hi << 8 | lo), how); step(2); }
    state((Hash() << hi << how).get());
    outcome((Hash() << hi).get());
}
// every combination of bytes from a 24-value alphabet in all four positions
MC_SCENARIO(int32_bytes, 2) {
    static const int A[24] = {0, 1, 2, 3, 7, 8, 0x0f, 0x10, 0x1f, 0x20, 0x3f, 0x40, 0x55, 0x5a, 0x7e, 0x7f, 0x80, 0x81, 0xaa, 0xbf, 0xc0, 0xf0, 0xfe, 0xff};
    int b3 = A[choose(24)], b2 = A[choose(24)], how = choose(5);
    label("int32");
    for (int b1 : A) for (int b0 : A) {
        check32(uint32_t(b3) << 24 | uint32_t(b2) << 16 | uint32_t(b1) << 8 | uint32_t(b0), how); step(4); }
    state((Hash() << b3 << b2 << how).get());
    outcome((Hash() << b3 << b2).get());
}
// thorough: all 2^32 values; quick: all low halves under 64 high halves
MC_SCENARIO(int32_all, 1) {
    uint32_t hi = choose(256) << 8;
    if (thorough()) hi |= choose(256);
    else if ((hi >> 8) % 4 != 3) prune();
    else hi |= hi >> 8;
    label("int32 all");
    for (uint32_t lo = 0; lo < 65536; ++lo) {
        uint32_t u = hi << 16 | lo;
        unsigned char b[4];
        int32_char((int32_t)u, b);
        MC_CHECK((b[0] | b[1] << 8 | b[2] << 16 | uint32_t(b[3]) << 24) == u, "int32_char %08x", u);
        MC_CHECK(char_int32(b) == (int32_t)u, "char_int32 %08x", u);
        MC_CHECK(char_uint32((char*)b) == u, "char_uint32 %08x", u);
        unsigned char c[4];
        uint32_char(u, c);
        MC_CHECK(!memcmp(b, c, 4), "uint32_char %08x", u);
    }
    step(65536 * 4);
    state((Hash() << hi).get());
    outcome(hi);
}
