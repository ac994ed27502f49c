// J02: file streams transfer exact bytes and report failures.
#include "mc.hpp"
#include "io/mstream.hpp"
#include <cstdlib>
#include <memory>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace mc;

// one scratch directory per worker process, removed again by every execution
static std::string scratch() {
    static std::string base = [] { const char* t = getenv("MC_SCRATCH"); return std::string(t ? t : "/tmp"); }();
    return base + "/mc_j02_" + std::to_string(getpid());
}
struct Dir {
    std::string p = scratch();
    Dir() { clean(); mkdir(p.c_str(), 0700); }
    ~Dir() { clean(); }
    void clean() { unlink((p + "/a").c_str()); unlink((p + "/b").c_str()); rmdir((p + "/d").c_str()); rmdir(p.c_str()); }
    std::string a() const { return p + "/a"; }
    std::string b() const { return p + "/b"; }
    std::string d() const { return p + "/d"; }
};
static void put(const std::string& f, const std::vector<unsigned char>& v) {
    FILE* fp = fopen(f.c_str(), "wb");
    if (!fp) { perror("fopen"); abort(); }
    fwrite(v.data(), 1, v.size(), fp);
    fclose(fp);
}
static std::vector<unsigned char> get(const std::string& f) {
    std::vector<unsigned char> v;
    FILE* fp = fopen(f.c_str(), "rb");
    if (!fp) return v;
    int c;
    while ((c = fgetc(fp)) != EOF) v.push_back((unsigned char)c);
    fclose(fp);
    return v;
}
// bytes that text-mode or string handling would damage
static unsigned char tricky(int i) { static const unsigned char t[] = {0x0d, 0x0a, 0x00, 0x1a, 0xff, 0x80, 0x0a, 0x0d, 0x7f}; return t[i % 9]; }


static bool mgood(FIStream& s) { return static_cast<BaseMIStream&>(s).good(); }
static bool mgood(FOStream& s) { return static_cast<BaseMOStream&>(s).good(); }

// --- reading ---------------------------------------------------------------
MC_SCENARIO(file_input, 2, 30) {
    Dir dir;
    int kind = choose(6);   // 0..3: file of 0,1,2,5 bytes, 4: missing, 5: directory
    std::vector<unsigned char> data;
    std::string path = dir.a();
    if (kind <= 3) { int n = kind == 3 ? 5 : kind; for (int i = 0; i < n; ++i) data.push_back(tricky(i)); put(path, data); }
    if (kind == 5) { path = dir.d(); mkdir(path.c_str(), 0700); }
    label("file input kind=%d", kind);
    FIStream s;
    s.set_path(path);
    MC_CHECK(s.get_path() == path, "path");
    MC_CHECK(s.get_state() == 0, "fresh state %d", (int)s.get_state());
    bool open = false;       // the model: open file with a cursor; a failed transfer closes it
    long cur = 0; int st = 0; bool seekfail = false;
    const int depth = thorough() ? 5 : 4;
    for (int d = 0; d < depth; ++d) {
        int op = choose(10);
        if (op == 0) {
            note("start"); s.start(); step();
            bool was = open;
            if (!open) {
                if (kind == 4) { MC_CHECK(!mgood(s), "missing file opened"); st = s.get_state(); }
                else { open = true; cur = 0; seekfail = false; }
            }
            if (open && kind != 5) {
                if (!(was && seekfail)) MC_CHECK(s.get_state() == 1, "state %d after start", (int)s.get_state());
            }
            st = s.get_state();
        } else if (op == 1) {
            note("stop"); s.stop(); step();
            open = false; st = 2;
            MC_CHECK(s.get_state() == 2, "state %d after stop", (int)s.get_state());
        } else if (op <= 5) {
            int n = op == 5 ? 9 : op - 1;      // 1,2,3,9
            note("read %d", n);
            std::vector<char> out(n, char(0x3c));
            s.read(out.data(), n);
            step();
            long left = open && !seekfail && cur < (long)data.size() ? (long)data.size() - cur : 0;
            long k = std::min<long>(left, n);
            for (long i = 0; i < k; ++i)
                MC_CHECK((unsigned char)out[i] == data[cur + i], "byte %ld is %02x, expected %02x", cur + i, (unsigned char)out[i], data[cur + i]);
            for (long i = k; i < n; ++i) MC_CHECK(out[i] == 0x3c || out[i] == 0, "bytes invented after the end of the file");
            cur += k;
            if (k < n) {
                MC_CHECK(!mgood(s), "read(%d) delivered %ld but the state is good", n, k);
                open = false; st = s.get_state();
            }
        } else {
            int p = op == 9 ? 7 : op - 6;      // 0,1,2,7
            note("seek %d", p);
            s.seek(p); step();
            if (open) cur = p;
        }
        MC_CHECK((int)s.get_state() == st, "state %d, expected %d", (int)s.get_state(), st);
        MC_CHECK(mgood(s) == (st == 0 || st == 1), "good() does not follow the state");
        state((Hash() << kind << cur << st << open).get());
    }
    s.stop();
    if (kind <= 3) MC_CHECK(get(path) == data, "reading changed the file");
    outcome((Hash() << kind << cur << st).get());
}

// --- writing ---------------------------------------------------------------
MC_SCENARIO(file_output, 2, 30) {
    Dir dir;
    int kind = choose(4);   // 0: new file, 1: existing longer file, 2: path in a missing directory, 3: a directory
    std::string path = kind == 2 ? dir.p + "/none/a" : kind == 3 ? dir.d() : dir.a();
    std::vector<unsigned char> content;
    if (kind == 1) { for (int i = 0; i < 12; ++i) content.push_back(tricky(i)); put(path, content); }
    if (kind == 3) mkdir(path.c_str(), 0700);
    bool usable = kind <= 1;
    label("file output kind=%d", kind);
    FOStream s;
    s.set_path(path);
    MC_CHECK(s.get_state() == 0, "fresh state");
    CharOStream mem;        // the same operations on memory give the same bytes
    bool open = false, ever = false;
    long cur = 0; int st = 0, w = 0;
    const int depth = thorough() ? 6 : 5;
    for (int d = 0; d < depth; ++d) {
        int op = choose(9);
        if (op == 0) {
            note("start"); s.start(); step();
            if (!open) {
                if (usable) { open = true; ever = true; cur = 0; content.clear(); mem = CharOStream(); mem.start(); }
                else MC_CHECK(!mgood(s), "unusable path opened");
            }
            if (usable) MC_CHECK(s.get_state() == 1, "state %d after start", (int)s.get_state());
            st = s.get_state();
        } else if (op == 1) {
            note("stop"); s.stop(); step();
            if (open) {
                MC_CHECK(get(path) == content, "after stop the file has %zu bytes that differ from the %zu written", get(path).size(), content.size());
                MC_CHECK(mem.get_array() == content, "memory stream disagrees with the file");
            }
            open = false; st = 2;
        } else if (op <= 5) {
            int n = op == 5 ? 9 : op - 1;
            std::vector<char> in;
            for (int i = 0; i < n; ++i) in.push_back((char)tricky(w++));
            note("write %d", n);
            s.write(in.data(), n); step();
            if (open) {
                mem.write(in.data(), n);
                if ((long)content.size() < cur + n) content.resize(cur + n, 0);
                for (int i = 0; i < n; ++i) content[cur + i] = (unsigned char)in[i];
                cur += n;
            } else {
                MC_CHECK(!mgood(s), "writing to a stream that is not open is reported as good");
                st = s.get_state();
            }
        } else {
            int p = op == 8 ? 11 : op - 6;
            note("seek %d", p);
            s.seek(p); step();
            if (open) { cur = p; mem.seek(p); }
        }
        MC_CHECK((int)s.get_state() == st, "state %d, expected %d", (int)s.get_state(), st);
        Hash h; h << kind << cur << st << open << content; state(h.get());
    }
    s.stop();
    MC_CHECK(!mgood(s), "good after stop");
    if (open || ever || kind == 1) MC_CHECK(get(path) == content, "final file content differs");
    Hash h; h << kind << content; outcome(h.get());
}

// --- more than the library's own buffer, and a device that refuses data ------
MC_SCENARIO(large_and_full, 2, 60) {
    Dir dir;
    bool full = flip();
    int total = pick({1, 8190, 8191, 8192, 8193, 20000});
    int chunk = pick({1, 7, 4096, 8192, 30000});
    bool sk = flip();
    label("large full=%d total=%d chunk=%d", full, total, chunk);
    FOStream o;
    o.set_path(full ? "/dev/full" : dir.a());
    o.start();
    MC_CHECK(mgood(o), "start failed");
    std::vector<unsigned char> content;
    for (int i = 0; i < total;) {
        int n = std::min(chunk, total - i);
        std::vector<char> b;
        for (int k = 0; k < n; ++k) b.push_back((char)((i + k) * 7 + ((i + k) >> 8)));
        o.write(b.data(), n); step();
        for (char c : b) content.push_back((unsigned char)c);
        i += n;
        if (full && i > 16384) MC_CHECK(!mgood(o), "the device refused data but the state is good after %d bytes", i);
        if (!full) MC_CHECK(mgood(o), "state bad after %d bytes", i);
    }
    if (sk && !full && total > 10) {
        char b[3] = {9, 8, 7};
        o.seek(total / 2); o.write(b, 3); step(2);
        for (int i = 0; i < 3; ++i) content[total / 2 + i] = b[i];
    }
    o.stop();
    MC_CHECK(!mgood(o), "good after stop");
    if (!full) {
        MC_CHECK(get(dir.a()) == content, "file differs from what was written (%d bytes in chunks of %d)", total, chunk);
        FIStream in; CharIStream mi;
        in.set_path(dir.a()); in.start();
        mi.get_array() = content; mi.start();
        size_t pos = 0;
        while (pos < content.size()) {
            int n = std::min<size_t>(chunk == 1 ? 3 : chunk, content.size() - pos);
            std::vector<char> a(n), b(n);
            in.read(a.data(), n); mi.read(b.data(), n); step(2);
            MC_CHECK(!memcmp(a.data(), content.data() + pos, n) && a == b, "read back differs near %zu", pos);
            MC_CHECK(mgood(in) && mi.good(), "bad state at %zu", pos);
            pos += n;
        }
        char c;
        in.read(&c, 1); mi.read(&c, 1);
        MC_CHECK(!mgood(in) && !mi.good(), "end of data not reported");
        in.stop();
    }
    state((Hash() << full << total << chunk << sk).get());
    outcome((Hash() << full << total).get());
}

// --- a file without permission (as an unprivileged user where possible) -------
MC_SCENARIO(forbidden, 1, 30) {
    Dir dir;
    bool write = flip();
    int ops = choose(3);
    label("forbidden");
    put(dir.a(), {1, 2, 3});
    chmod(dir.a().c_str(), 0);
    bool root = geteuid() == 0;
    if (root && seteuid(65534) != 0) { prune(); }
    bool readable = access(dir.a().c_str(), write ? W_OK : R_OK) == 0;
    std::string bad;
    int fd = open(dir.a().c_str(), O_RDONLY);
    readable = fd >= 0;
    if (fd >= 0) close(fd);
    {
        char b[2] = {0, 0};
        if (write) {
            FOStream o; o.set_path(dir.a()); o.start(); step();
            if (!readable && mgood(o)) bad = "forbidden file opened for writing reported good";
            for (int i = 0; i < ops; ++i) { o.write(b, 2); step(); if (!readable && mgood(o)) bad = "write to forbidden file reported good"; }
            o.stop();
        } else {
            FIStream s; s.set_path(dir.a()); s.start(); step();
            if (!readable && mgood(s)) bad = "forbidden file opened for reading reported good";
            for (int i = 0; i < ops; ++i) { s.read(b, 2); step(); if (!readable && mgood(s)) bad = "read of forbidden file reported good"; }
            s.stop();
        }
    }
    if (root) (void)!seteuid(0);
    MC_CHECK(bad.empty(), "%s", bad.c_str());
    chmod(dir.a().c_str(), 0600);
    auto now = get(dir.a());
    MC_CHECK(readable || now == std::vector<unsigned char>({1, 2, 3}), "forbidden file changed");
    state((Hash() << write << ops).get());
    outcome(write);
}
