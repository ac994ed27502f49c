// J01: in-memory streams behave as a byte array with one cursor.
#include "mc.hpp"
#include "scale.hpp"
#include "io/mstream.hpp"
#include <memory>
using namespace mc;
using St = BaseMStream<true, false>::mstate;
using So = BaseMStream<false, true>::mstate;

struct InModel {
    std::vector<unsigned char> arr;
    long cur = 0;
    int st = 0;  // init, started, stopped, err
};
static unsigned char byte_at(int i) { return (unsigned char)(0x81 + 37 * i); }

static void in_read(CharIStream& s, InModel& m, int n) {
    std::vector<char> out(n, char(0x3C));   // exact heap allocation: overruns are caught
    s.read(out.data(), n);
    step();
    long left = m.cur >= 0 && m.cur < (long)m.arr.size() ? (long)m.arr.size() - m.cur : 0;
    long k = std::min<long>(n, left);
    for (long i = 0; i < k; ++i)
        MC_CHECK((unsigned char)out[i] == m.arr[m.cur + i], "read(%d) at %ld byte %ld is %02x, expected %02x", n, m.cur, i, (unsigned char)out[i], m.arr[m.cur + i]);
    m.cur += k;
    if (k < n) {
        MC_CHECK(s.bad(), "read(%d) with %ld left not reported by the state", n, left);
        m.st = s.get_state();
    }
}
MC_SCENARIO(char_input, 3) {
    int size = choose(4);
    int how = choose(3);
    std::unique_ptr<CharIStream> sp;
    InModel m;
    for (int i = 0; i < size; ++i) m.arr.push_back(byte_at(i));
    if (how == 0) {
        switch (size) {
        case 0: sp.reset(new CharIStream()); break;
        case 1: sp.reset(new CharIStream{byte_at(0)}); break;
        case 2: sp.reset(new CharIStream{byte_at(0), byte_at(1)}); break;
        default: sp.reset(new CharIStream{byte_at(0), byte_at(1), byte_at(2)});
        }
    } else if (how == 1) {
        sp.reset(new CharIStream(size));
        MC_CHECK((int)sp->get_array().size() == size, "sized stream has %zu bytes", sp->get_array().size());
        for (int i = 0; i < size; ++i) { MC_CHECK(sp->get_array()[i] == 0, "not zeroed"); sp->get_array()[i] = m.arr[i]; }
    } else {
        sp.reset(new CharIStream());
        sp->get_array() = m.arr;
    }
    CharIStream& s = *sp;
    label("char input");
    MC_CHECK(s.get_state() == 0 && s.good() && !s.bad(), "initial state %d", (int)s.get_state());
    MC_CHECK(BaseMIStream::is_input() && !BaseMIStream::is_output(), "direction");
    const int depth = thorough() ? 6 : 5;
    for (int d = 0; d < depth; ++d) {
        int op = choose(13);
        if (op <= 3) { note("read %d", op); in_read(s, m, op); }
        else if (op == 4) { note("read 7"); in_read(s, m, 7); }
        else if (op <= 9) { int p = op - 5; note("seek %d", p); s.seek(p); m.cur = p; step(); }
        else if (op == 10) { note("seek -1"); s.seek(-1); m.cur = -1; step(); }
        else if (op == 11) { note("start"); s.start(); m.st = 1; step(); }
        else { note("stop"); s.stop(); m.st = 2; step(); }
        MC_CHECK((int)s.get_state() == m.st, "state %d, expected %d", (int)s.get_state(), m.st);
        MC_CHECK(s.good() == (m.st == 0 || m.st == 1) && s.bad() == !s.good(), "good/bad inconsistent with state %d", m.st);
        MC_CHECK(s.get_array() == m.arr, "array changed by a read stream");
        state((Hash() << size << m.cur << m.st).get());
    }
    if (m.cur >= 0 && m.cur < size) in_read(s, m, size - m.cur);
    outcome((Hash() << m.cur << m.st).get());
}

MC_SCENARIO(char_output, 3) {
    int size = choose(4);
    int how = choose(3);
    std::unique_ptr<CharOStream> sp;
    std::vector<unsigned char> arr;
    long cur = 0; int st = 0;
    for (int i = 0; i < size; ++i) arr.push_back(byte_at(i));
    if (how == 0) {
        switch (size) {
        case 0: sp.reset(new CharOStream()); break;
        case 1: sp.reset(new CharOStream{byte_at(0)}); break;
        case 2: sp.reset(new CharOStream{byte_at(0), byte_at(1)}); break;
        default: sp.reset(new CharOStream{byte_at(0), byte_at(1), byte_at(2)});
        }
    } else if (how == 1) {
        sp.reset(new CharOStream(size));
        arr.assign(size, 0);
    } else {
        sp.reset(new CharOStream());
        sp->get_array() = arr;
    }
    CharOStream& s = *sp;
    label("char output");
    MC_CHECK(s.get_array() == arr, "initial content");
    MC_CHECK(s.get_state() == 0 && s.good() && !s.bad(), "initial state %d", (int)s.get_state());
    const int depth = thorough() ? 6 : 5;
    int w = 0;
    for (int d = 0; d < depth; ++d) {
        int op = choose(12);
        if (op <= 3) {
            std::vector<char> in;
            for (int i = 0; i < op; ++i) in.push_back(char(0x11 + 23 * w++));
            std::vector<char> keep = in;
            note("write %d at %ld", op, cur);
            s.write(in.data(), op);
            step();
            MC_CHECK(in == keep, "write changed the caller's bytes");
            if (op > 0) {
                if ((long)arr.size() < cur + op) arr.resize(cur + op, 0);
                for (int i = 0; i < op; ++i) arr[cur + i] = (unsigned char)in[i];
            } else if ((long)arr.size() < cur && (long)s.get_array().size() == cur) arr.resize(cur, 0);  // an empty write may or may not extend
            cur += op;
        }
        else if (op <= 9) { int p = op - 4; note("seek %d", p); s.seek(p); cur = p; step(); }
        else if (op == 10) { s.start(); st = 1; note("start"); step(); }
        else { s.stop(); st = 2; note("stop"); step(); }
        MC_CHECK(s.get_array() == arr, "array after the operation differs (size %zu, expected %zu)", s.get_array().size(), arr.size());
        MC_CHECK((int)s.get_state() == st, "state %d expected %d", (int)s.get_state(), st);
        MC_CHECK(s.good() == (st != 2), "good() in state %d", st);
        Hash h; h << cur << st << arr; state(h.get());
    }
    Hash h; h << arr; outcome(h.get());
}
// what one stream wrote, another reads back, in any partition
MC_SCENARIO(write_then_read, 2) {
    CharOStream o; CharIStream in;
    label("roundtrip");
    std::vector<char> all;
    int parts = 1 + choose(4);
    for (int i = 0; i < parts; ++i) {
        int n = choose(5);
        std::vector<char> b;
        for (int k = 0; k < n; ++k) b.push_back(char(all.size() * 53 + 0x70)), all.push_back(b.back());
        o.write(b.data(), n); step();
    }
    in.get_array() = o.get_array();
    size_t pos = 0;
    while (pos < all.size()) {
        int n = 1 + choose(3);
        n = std::min<int>(n, all.size() - pos);
        std::vector<char> b(n);
        in.read(b.data(), n); step();
        for (int k = 0; k < n; ++k) MC_CHECK(b[k] == all[pos + k], "byte %zu", pos + k);
        pos += n;
        MC_CHECK(in.good(), "stream bad at %zu of %zu", pos, all.size());
    }
    char c;
    in.read(&c, 1);
    MC_CHECK(in.bad(), "reading past the end not reported");
    state((Hash() << all.size() << parts).get());
    outcome(all.size());
}
// transfers of any size
MC_SCENARIO(scale_transfers, 3) {
    int n = scale::frames(), off = pick({0, 1, 511, 70000}), parts = pick({1, 2, 3, 1000});
    label("%d bytes at %d in parts of 1/%d", n, off, parts);
    CharOStream o; std::vector<unsigned char> want;
    std::vector<char> d(n); for (int i = 0; i < n; ++i) d[i] = char(i * 31 + (i >> 8) + 1);
    if (off) { o.seek(off); want.assign(off, 0); }
    int chunk = std::max(1, n / parts);
    for (int p = 0; p < n; p += chunk) { int k = std::min(chunk, n - p); std::vector<char> x(d.begin() + p, d.begin() + p + k); o.write(x.data(), k); step(); }
    want.insert(want.end(), d.begin(), d.end());
    auto same = [&](const char* w) { MC_CHECK(o.get_array().size() == want.size(), "%s: %zu bytes, expected %zu", w, o.get_array().size(), want.size());
        for (size_t i = 0; i < want.size(); ++i) MC_CHECK((unsigned char)o.get_array()[i] == (unsigned char)want[i], "%s: byte %zu", w, i); };
    same("written");
    o.seek(off / 2); std::vector<char> z(n / 2, 'z'); o.write(z.data(), n / 2);
    for (int i = 0; i < n / 2; ++i) { if (off / 2 + i >= (int)want.size()) want.push_back(0); want[off / 2 + i] = 'z'; }
    same("overwritten");
    CharIStream in; in.get_array() = o.get_array();
    size_t pos = 0;
    while (pos < want.size()) {
        int k = (int)std::min<size_t>(std::max(1, chunk - 1), want.size() - pos);
        std::vector<char> x(k, 'q'); in.read(x.data(), k); step();
        for (int i = 0; i < k; ++i) MC_CHECK((unsigned char)x[i] == (unsigned char)want[pos + i], "byte %zu read back", pos + i);
        MC_CHECK(in.good(), "stream bad at %zu of %zu", pos, want.size());
        pos += k;
    }
    in.seek(off + n / 2); int k = (int)want.size() - off - n / 2;
    std::vector<char> x(k + 9, 'q'); in.read(x.data(), k + 9);
    for (int i = 0; i < k; ++i) MC_CHECK((unsigned char)x[i] == (unsigned char)want[off + n / 2 + i], "byte %d after a seek", i);
    MC_CHECK(in.bad(), "reading past the end not reported");
    outcome((Hash() << n << off << parts).get());
}
