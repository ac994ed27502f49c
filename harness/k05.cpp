// K05: chunk structures of WAV files survive encoding and decoding byte for byte.
#include <cstring>
#include "mc.hpp"
#include "kwav.hpp"
#include "io/wav.hpp"
using namespace mc;
using kwav::Bytes;
static const unsigned char EDGE[] = {0x00, 0x01, 0x7f, 0x80, 0xff};
static uint32_t word() { uint32_t v = 0; for (int i = 0; i < 4; ++i) v = v << 8 | EDGE[choose(5)]; return v; }
static std::string ident(int k) {   // every four characters out of four, and the usual ones
    static const char* usual[] = {"RIFF", "WAVE", "fmt ", "data", "LIST", "    "};
    if (k < 6) return usual[k];
    k -= 6; static const char c[] = {' ', '\0', 'a', '\xff'}; std::string s;
    for (int i = 0; i < 4; ++i) { s += c[k % 4]; k /= 4; }
    return s;
}
static const int IDS = 6 + 256;
static Bytes header(const std::string& id, uint32_t n) { Bytes b; for (char c : id) b.push_back((unsigned char)c); kwav::p32(b, n); return b; }
static void same(const Bytes& got, const Bytes& want, const char* what) {
    step(); MC_CHECK(got.size() == want.size(), "%s wrote %zu bytes, expected %zu", what, got.size(), want.size());
    for (size_t i = 0; i < want.size(); ++i) MC_CHECK(got[i] == want[i], "%s: byte %zu is %02x, expected %02x", what, i, got[i], want[i]);
}
// a stream with bytes around the encoded structure: exactly the structure may be consumed or written
struct In { CharIStream s; size_t n; In(const Bytes& b) : n(b.size()) { auto& a = s.get_array(); a = {0x11, 0x22}; a.insert(a.end(), b.begin(), b.end()); a.push_back(0x33); a.push_back(0x44); s.start(); s.seek(2); }
    void end(const char* what) { char c[2] = {}; s.read(c, 1); MC_CHECK(c[0] == 0x33, "%s consumed other bytes than its %zu", what, n); MC_CHECK(s.good(), "%s left the stream bad", what); } };
struct Out { CharOStream s; Out() { s.get_array() = {0x11, 0x22}; s.start(); s.seek(2); }
    Bytes end(const char* what) { char c = 0x33; s.write(&c, 1); auto& a = s.get_array(); MC_CHECK(a.size() >= 3 && a[0] == 0x11 && a[1] == 0x22 && a.back() == 0x33 && s.good(), "%s moved the stream", what); return Bytes(a.begin() + 2, a.end() - 1); } };
static void short_read(const Bytes& b, int keep, const char* what, void (*decode)(BaseMIStream&)) {
    CharIStream s; s.get_array() = Bytes(b.begin(), b.begin() + keep); s.start(); decode(s); step();
    MC_CHECK(s.bad(), "%s of %d bytes out of %zu leaves the stream good", what, keep, b.size());
}
static void chunk_header(const std::string& id, uint32_t n) {
    Bytes want = header(id, n);
    MC_CHECK(ChunkHeader::size() == 8, "header size");
    ChunkHeader h(id, n); MC_CHECK(h.chunk_id == id && h.chunk_size == n, "construction");
    ChunkHeader h1(id), h2(n); MC_CHECK(h1.chunk_id == id && h2.chunk_size == n, "construction from one part");
    Out o; h.encode(o.s); same(o.end("header"), want, "header");
    Bytes raw(12, 0x55); h.encode(reinterpret_cast<char*>(raw.data()) + 2);
    MC_CHECK(raw[0] == 0x55 && raw[1] == 0x55 && raw[10] == 0x55 && raw[11] == 0x55, "wrote outside"); same(Bytes(raw.begin() + 2, raw.end() - 2), want, "header in memory");
    ChunkHeader d("junk", 77); In i(want); d.decode(i.s); i.end("header"); MC_CHECK(d.chunk_id == id && d.chunk_size == n, "header decoded to size %u", d.chunk_size);
    ChunkHeader e; Bytes exact = want; e.decode(reinterpret_cast<char*>(exact.data())); MC_CHECK(e.chunk_id == id && e.chunk_size == n, "header decoded from memory to size %u", e.chunk_size); same(exact, want, "decoding");
    state((Hash() << id << n).get());
}
MC_SCENARIO(headers, 2) { uint32_t n = word(); label("size %u", n); for (int k : {0, 3, 6, 7, 120, 261}) chunk_header(ident(k), n); outcome((Hash() << n).get()); }
MC_SCENARIO(identifiers, 1) { std::string id = ident(choose(IDS)); for (uint32_t n : {0u, 1u, 16u, 0x80000000u, 0xffffffffu}) chunk_header(id, n); outcome((Hash() << id).get()); }
MC_SCENARIO(riff, 2) {
    std::string form = ident(choose(thorough() ? IDS : 24)), id = flip() ? "RIFF" : ident(choose(20)); uint32_t n = flip() ? pick({0u, 4u, 36u, 0x7fffffffu}) : word();
    label("size %u", n);
    WavHeader fresh; MC_CHECK(fresh.chunk_id == "RIFF" && fresh.format == "WAVE" && WavHeader::size() == 12, "default header");
    WavHeader h; h.chunk_id = id; h.chunk_size = n; h.format = form;
    Bytes want = header(id, n); for (char c : form) want.push_back((unsigned char)c);
    Out o; h.encode(o.s); same(o.end("RIFF header"), want, "RIFF header");
    WavHeader d; In i(want); d.decode(i.s); i.end("RIFF header"); MC_CHECK(d.chunk_id == id && d.chunk_size == n && d.format == form, "RIFF header decoded to size %u", d.chunk_size);
    state((Hash() << id << form << n).get()); outcome((Hash() << want).get());
}
static void format_chunk(const uint32_t (&v)[6]) {
    WavFormat f; MC_CHECK(WavFormat::size() == 24 && f.chunk_id == "fmt " && f.chunk_size == 16, "default format chunk");
    f.format = v[0]; f.channels = v[1]; f.sample_rate = v[2]; f.byte_rate = v[3]; f.block_align = v[4]; f.bits_per_sample = v[5];
    Bytes want = header("fmt ", 16), body; for (int i = 0; i < 6; ++i) (i == 2 || i == 3) ? kwav::p32(body, v[i]) : kwav::p16(body, v[i]);
    want.insert(want.end(), body.begin(), body.end());
    Out o; f.encode(o.s); same(o.end("format chunk"), want, "format chunk");
    WavFormat d; In i(body); d.decode(i.s); i.end("format chunk");
    MC_CHECK(d.format == v[0] && d.channels == v[1] && d.sample_rate == v[2] && d.byte_rate == v[3] && d.block_align == v[4] && d.bits_per_sample == v[5],
             "format chunk decoded to %u %u %u %u %u %u", d.format, d.channels, d.sample_rate, d.byte_rate, d.block_align, d.bits_per_sample);
    Hash h; for (uint32_t x : v) h << x; state(h.get()); outcome(h.get());
}
MC_SCENARIO(formats, 3) {
    static const uint32_t base[3][6] = {{1, 2, 44100, 176400, 4, 16}, {0, 0, 0, 0, 0, 0}, {0xffff, 0xffff, 0xffffffff, 0xffffffff, 0xffff, 0xffff}};
    uint32_t v[6]; std::copy_n(base[choose(3)], 6, v);
    int field = choose(6); label("field %d", field);
    if (field == 2 || field == 3) { v[field] = word(); format_chunk(v); return; }
    int hi = choose(256), step = thorough() ? 1 : 5;   // every upper byte, every (fifth and edge) lower byte
    for (int lo = 0; lo < 256; ++lo) if (lo % step == 0 || (lo & 0x7f) == 0x7f || (lo & 0x7f) < 2) { v[field] = hi << 8 | lo; format_chunk(v); }
}
MC_SCENARIO(unknown, 2) {
    int n = range(0, thorough() ? 70 : 40), pat = choose(3); std::string id = ident(pick({4, 3, 5, 40})); int declared = choose(2); label("%d bytes", n);
    UnknownChunk u(n); MC_CHECK(u.chunk_size == (uint32_t)n && u.data.size() == (size_t)n && u.size() == 8u + n, "construction");
    Bytes body; for (int i = 0; i < n; ++i) body.push_back(pat == 0 ? 0xA0 + i : pat == 1 ? 255 - i : i % 2 * 0x80);
    In in(body); u.decode(in.s); in.end("unknown chunk"); step();
    for (int i = 0; i < n; ++i) MC_CHECK((unsigned char)u.data[i] == body[i], "byte %d", i);
    u.chunk_id = id; if (declared) u.chunk_size = 5;   // the size follows the data
    Bytes want = header(id, n); want.insert(want.end(), body.begin(), body.end());
    Out o; u.encode(o.s); same(o.end("unknown chunk"), want, "unknown chunk");
    state((Hash() << n << pat << id << declared).get()); outcome((Hash() << want).get());
}
MC_SCENARIO(truncated, 1) {   // every prefix of every structure
    int kind = choose(3); Bytes b = kind == 0 ? header("data", 9) : kind == 1 ? header("RIFF", 99) : Bytes(16, 7);
    if (kind == 1) b.insert(b.end(), {'W', 'A', 'V', 'E'});
    int keep = range(0, (int)b.size() - 1); label("%d of %zu bytes", keep, b.size());
    if (kind == 0) short_read(b, keep, "header", [](BaseMIStream& s) { ChunkHeader h; h.decode(s); });
    else if (kind == 1) short_read(b, keep, "RIFF header", [](BaseMIStream& s) { WavHeader h; h.decode(s); });
    else short_read(b, keep, "format chunk", [](BaseMIStream& s) { WavFormat h; h.decode(s); });
    state((Hash() << kind << keep).get()); outcome((Hash() << kind).get());
}
