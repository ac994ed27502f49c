#include "mc.hpp"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <exception>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>

extern "C" const char* __asan_default_options() {
    return "exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:"
           "max_malloc_fill_size=1048576:malloc_fill_byte=202:detect_stack_use_after_return=0:"
           "handle_abort=0:handle_segv=1:max_allocation_size_mb=2048:alloc_dealloc_mismatch=0:"
           "quarantine_size_mb=32:malloc_context_size=12:symbolize=0:print_legend=0:print_full_thread_history=0";
}
extern "C" const char* __ubsan_default_options() { return "exitcode=77:halt_on_error=1:print_stacktrace=0"; }

namespace mc {

static constexpr int MAXCH = 1 << 15;
static constexpr size_t TABLE = size_t(1) << 24;
static constexpr int MAXPREFIX = 1 << 22;

struct Slot {
    std::atomic<uint64_t> exec, steps, pruned, beats;
    std::atomic<uint32_t> nch;
    std::atomic<int> phase;  // 0 idle 1 running 2 finished
    uint64_t prefix;
    int claimed;
    int scenario;
    uint16_t ch[MAXCH], ar[MAXCH];
    char label[2048];
    char notes[16384];
};
struct ScenStat {
    std::atomic<uint64_t> exec, steps, pruned, states, outcomes, maxdepth;
};
struct Shared {
    std::atomic<int> stop;
    std::atomic<uint64_t> nstates, noutcomes, table_full;
    std::atomic<int> nviol;
    ScenStat sc[128];
    std::atomic<uint64_t> st[TABLE];
    std::atomic<uint64_t> oc[TABLE / 16];
};

static Shared* S;
static std::atomic<uint8_t>* CLAIM;
static Slot* SLOTS;
static Slot* me;
static bool g_thorough;
static bool g_replay;
static std::vector<uint16_t> g_prefix;  // forced choices
static size_t g_pos;
static int g_split;
static uint64_t g_prefix_index;
static bool g_unit_checked;
static std::vector<uint16_t> g_last_unit;
static bool g_have_last;
static int g_fd_viol = -1;
static bool g_claimed_current;
static size_t g_unit_len;
static uint64_t g_exec_steps;

std::vector<Scenario>& scenarios() {
    static std::vector<Scenario> v;
    return v;
}
bool thorough() { return g_thorough; }

static bool table_insert(std::atomic<uint64_t>* t, size_t n, uint64_t h) {
    size_t i = h & (n - 1);
    for (int probes = 0; probes < 4096; ++probes) {
        uint64_t cur = t[i].load(std::memory_order_relaxed);
        if (cur == h) return false;
        if (cur == 0) {
            if (t[i].compare_exchange_strong(cur, h)) return true;
            if (cur == h) return false;
        }
        i = (i + 1) & (n - 1);
    }
    S->table_full++;
    return false;
}

static void unit_check() {
    // Called when the leading choices of the unit are complete.
    if (g_unit_checked || g_replay) return;
    g_unit_checked = true;
    size_t n = std::min<size_t>(me->nch.load(), g_split);
    g_unit_len = n;
    std::vector<uint16_t> u(me->ch, me->ch + n);
    if (!g_have_last || u != g_last_unit) {
        if (g_have_last) ++g_prefix_index;
        g_have_last = true;
        g_last_unit = u;
        uint8_t exp = 0;
        g_claimed_current = g_prefix_index < MAXPREFIX && CLAIM[g_prefix_index].compare_exchange_strong(exp, 1);
        me->prefix = g_prefix_index;
        me->claimed = g_claimed_current;
    }
    if (!g_claimed_current) throw Skip{};
}

int choose(int n) {
    if (n <= 0) {
        fprintf(stderr, "mc: choose(%d)\n", n);
        _exit(99);
    }
    uint32_t k = me->nch.load(std::memory_order_relaxed);
    if ((int)k == g_split) unit_check();
    if (k >= MAXCH) {
        fprintf(stderr, "mc: too many choices\n");
        _exit(99);
    }
    int c = 0;
    if (g_pos < g_prefix.size()) {
        c = g_prefix[g_pos];
        if (c >= n) {
            fprintf(stderr, "mc: replay divergence at choice %u: %d of %d\n", k, c, n);
            _exit(98);
        }
    }
    ++g_pos;
    me->ch[k] = (uint16_t)c;
    me->ar[k] = (uint16_t)n;
    me->nch.store(k + 1, std::memory_order_release);
    return c;
}

void step(uint64_t n) {
    g_exec_steps += n;  // committed when the execution ends (skipped prefixes do not count)
}
void state(uint64_t h) {
    Hash x;
    x << me->scenario << h;
    if (table_insert(S->st, TABLE, x.get())) {
        S->nstates++;
        S->sc[me->scenario].states++;
    }
}
void outcome(uint64_t h) {
    Hash x;
    x << me->scenario << h;
    if (table_insert(S->oc, TABLE / 16, x.get())) {
        S->noutcomes++;
        S->sc[me->scenario].outcomes++;
    }
}
void heartbeat() { me->beats.fetch_add(1, std::memory_order_relaxed); }

static void vapp(char* buf, size_t cap, bool append, const char* fmt, va_list ap) {
    size_t l = append ? strnlen(buf, cap) : 0;
    if (l + 1 < cap) vsnprintf(buf + l, cap - l, fmt, ap);
}
void label(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vapp(me->label, sizeof me->label, false, fmt, ap);
    va_end(ap);
}
void addlabel(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vapp(me->label, sizeof me->label, true, fmt, ap);
    va_end(ap);
}
void note(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vapp(me->notes, sizeof me->notes, true, fmt, ap);
    va_end(ap);
    size_t l = strlen(me->notes);
    if (l + 2 < sizeof me->notes) { me->notes[l] = '\n'; me->notes[l + 1] = 0; }
}
void fail(const char* fmt, ...) {
    char b[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    throw Violation{b};
}
std::string choices_string() {
    std::string s;
    for (uint32_t i = 0; i < me->nch; ++i) {
        if (i) s += '.';
        s += std::to_string(me->ch[i]);
    }
    return s;
}

static std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}

static std::set<std::string> g_known;       // "scenario|case" of known findings
static std::set<std::string> g_known_seen;  // reported once per process

static void report(const std::string& kind, const std::string& msg, Slot* sl) {
    if (!sl->label[0]) {
        std::string c = "#";
        for (uint32_t i = 0; i < sl->nch && c.size() < 400; ++i) c += (i ? "." : "") + std::to_string(sl->ch[i]);
        snprintf(sl->label, sizeof sl->label, "%s", c.c_str());
    }
    std::string key = scenarios()[sl->scenario].name + "|" + sl->label;
    bool known = g_known.count(key) > 0;
    if (known && !g_known_seen.insert(key).second) return;
    Hash kh;
    kh << "violation" << key;
    if (!g_replay && !table_insert(S->oc, TABLE / 16, kh.get())) return;  // same case already reported
    std::ostringstream o;
    o << "{\"scenario\":\"" << scenarios()[sl->scenario].name << "\",\"kind\":\"" << kind << "\",\"label\":\""
      << jesc(sl->label) << "\",\"msg\":\"" << jesc(msg) << "\",\"notes\":\"" << jesc(sl->notes) << "\",\"choices\":[";
    for (uint32_t i = 0; i < sl->nch; ++i) o << (i ? "," : "") << sl->ch[i];
    o << "]}\n";
    std::string s = o.str();
    [[maybe_unused]] auto r = write(g_fd_viol, s.data(), s.size());
    if (!known) S->nviol++;
}

static uint64_t g_samples_left = 3;
static std::string g_samples_path;

// run one execution; returns false if a violation was reported
static bool run_one(const Scenario& sc) {
    me->nch = 0;
    g_exec_steps = 0;
    me->label[0] = 0;
    me->notes[0] = 0;
    g_pos = 0;
    g_unit_checked = false;
    bool ok = true, skipped = false, pruned = false;
    me->phase = 1;
    auto handle = [&](const std::string& kind, const std::string& m) {
        if (!g_replay && !g_unit_checked) {
            try { unit_check(); } catch (Skip&) { skipped = true; return; }
        }
        report(kind, m, me);
        ok = false;
    };
    try {
        sc.body();
        unit_check();
    } catch (Skip&) {
        skipped = true;
    } catch (Prune&) {
        pruned = true;
        if (!g_unit_checked) { try { unit_check(); } catch (Skip&) { skipped = true; } }
    } catch (Violation& v) {
        handle("property", v.msg);
    } catch (std::exception& e) {
        handle("exception", std::string("unexpected exception: ") + e.what());
    }
    me->phase = 0;
    if (!skipped) {
        auto& st = S->sc[me->scenario];
        if (pruned) { st.pruned++; me->pruned++; }
        else {
            st.exec++;
            st.steps += g_exec_steps;
            if (g_samples_left && !g_samples_path.empty()) {
                --g_samples_left;
                std::ofstream f(g_samples_path, std::ios::app);
                f << "{\"scenario\":\"" << sc.name << "\",\"case\":\"" << jesc(me->label) << "\",\"choices\":\"" << choices_string()
                  << "\",\"trace\":\"" << jesc(std::string(me->notes).substr(0, 600)) << "\"}\n";
            }
        }
        uint64_t d = me->nch, o = st.maxdepth;
        while (d > o && !st.maxdepth.compare_exchange_weak(o, d)) {}
        me->exec.fetch_add(1);
    } else {
        // cut back to the unit so that backtracking leaves it
        me->nch = (uint32_t)g_unit_len;
        me->beats.fetch_add(1);
    }
    return ok;
}

static bool backtrack() {
    uint32_t n = me->nch;
    while (n > 0 && me->ch[n - 1] + 1 >= me->ar[n - 1]) --n;
    if (n == 0) return false;
    g_prefix.assign(me->ch, me->ch + n);
    g_prefix[n - 1]++;
    return true;
}

static void worker_loop(int scen, bool resume) {
    const Scenario& sc = scenarios()[scen];
    me->scenario = scen;
    g_split = sc.split;
    bool more = true;
    if (resume) {
        // slot holds the crashed execution: continue after it
        g_prefix_index = me->prefix;
        g_claimed_current = me->claimed;
        size_t n = std::min<size_t>(me->nch.load(), g_split);
        g_last_unit.assign(me->ch, me->ch + n);
        g_have_last = true;
        more = backtrack();
    } else {
        g_prefix.clear();
        g_prefix_index = 0;
        g_have_last = false;
        g_claimed_current = false;
        me->prefix = 0;
        me->claimed = 0;
    }
    while (more && !S->stop.load(std::memory_order_relaxed)) {
        run_one(sc);
        more = backtrack();
    }
}

static std::string slurp(const std::string& p) {
    std::ifstream f(p);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
static std::string crash_text(int status, const std::string& err) {
    std::string t;
    if (WIFSIGNALED(status)) t = std::string("killed by signal ") + std::to_string(WTERMSIG(status));
    else t = "exit status " + std::to_string(WEXITSTATUS(status));
    std::istringstream in(err);
    std::string l;
    int got = 0;
    while (std::getline(in, l) && got < 4)
        if (l.find("ERROR:") != std::string::npos || l.find("runtime error") != std::string::npos ||
            l.find("terminate called") != std::string::npos || l.find("what()") != std::string::npos ||
            l.find("mc:") != std::string::npos || l.find("ssert") != std::string::npos) {
            t += "; " + l;
            ++got;
        }
    return t;
}

}  // namespace mc

using namespace mc;

int main(int argc, char** argv) {
    std::string out = "out.json", work = ".", replay, only;
    int workers = std::max(1, (int)sysconf(_SC_NPROCESSORS_ONLN));
    double budget = 600;
    int maxviol = 40;
    double slice = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--out") out = nx();
        else if (a == "--work") work = nx();
        else if (a == "--tier") g_thorough = nx() == "thorough";
        else if (a == "--workers") workers = std::stoi(nx());
        else if (a == "--budget") budget = std::stod(nx());
        else if (a == "--replay") replay = nx();  // "scenario:1.2.3"
        else if (a == "--only") only = nx();
        else if (a == "--known") {
            std::ifstream f(nx());
            std::string l;
            while (std::getline(f, l)) if (!l.empty()) g_known.insert(l);
        }
        else if (a == "--maxviol") maxviol = std::stoi(nx());
        else if (a == "--slice") slice = std::stod(nx());         // per scenario (mutation runs only)
        else if (a == "--hang") { double h = std::stod(nx()); for (auto& s : scenarios()) s.hang_s = std::min<double>(s.hang_s, h); }
        else if (a == "--list") { for (auto& s : scenarios()) puts(s.name.c_str()); return 0; }
    }
    struct rlimit rl {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    SLOTS = (Slot*)mmap(nullptr, sizeof(Slot) * (workers + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    CLAIM = (std::atomic<uint8_t>*)mmap(nullptr, MAXPREFIX, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    std::string violp = work + "/viol.jsonl";
    unlink(violp.c_str());
    g_fd_viol = open(violp.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, 0644);
    std::string samp = work + "/samples.jsonl";
    unlink(samp.c_str());

    auto find = [&](const std::string& n) {
        for (size_t i = 0; i < scenarios().size(); ++i)
            if (scenarios()[i].name == n) return (int)i;
        return -1;
    };
    auto redirect = [&](int w) {
        std::string p = work + "/err." + std::to_string(w);
        int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
        dup2(fd, 2);
        dup2(fd, 1);
        close(fd);
    };
    // One execution of given choices in a fresh process. returns: 0 ok, 1 property violation/crash, 2 hang
    auto solo = [&](int scen, const std::vector<uint16_t>& chs, double limit, std::string* text) {
        Slot* sl = &SLOTS[workers];
        memset((void*)sl, 0, sizeof *sl);
        int before = S->nviol;
        pid_t pid = fork();
        if (pid == 0) {
            if (!getenv("MC_VERBOSE")) redirect(workers);
            me = sl;
            me->scenario = scen;
            g_replay = true;
            g_split = 1 << 30;
            g_prefix = chs;
            std::string vp = work + "/replay.jsonl";
            g_fd_viol = open(vp.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
            bool ok = run_one(scenarios()[scen]);
            fflush(nullptr);
            _exit(ok ? 0 : 55);
        }
        auto t0 = std::chrono::steady_clock::now();
        int status = 0;
        while (true) {
            pid_t r = waitpid(pid, &status, WNOHANG);
            if (r == pid) break;
            if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > limit) {
                kill(pid, SIGKILL);
                waitpid(pid, &status, 0);
                S->nviol = before;
                if (text) *text = "does not terminate";
                return 2;
            }
            usleep(1000);
        }
        S->nviol = before;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return 0;
        if (text) {
            if (WIFEXITED(status) && WEXITSTATUS(status) == 55) *text = slurp(work + "/replay.jsonl");
            else *text = crash_text(status, slurp(work + "/err." + std::to_string(workers)));
        }
        if (WIFEXITED(status) && (WEXITSTATUS(status) == 98 || WEXITSTATUS(status) == 99)) return 9;
        return 1;
    };

    if (!replay.empty()) {
        auto c = replay.find(':');
        int sc = find(replay.substr(0, c));
        if (sc < 0) { fprintf(stderr, "no scenario\n"); return 3; }
        std::vector<uint16_t> chs;
        std::string rest = c == std::string::npos ? "" : replay.substr(c + 1), tok;
        std::istringstream is(rest);
        while (std::getline(is, tok, '.')) if (!tok.empty()) chs.push_back((uint16_t)std::stoi(tok));
        std::string text;
        int r = solo(sc, chs, scenarios()[sc].hang_s * 3, &text);
        printf("%s\n%s\ncase: %s\ntrace:\n%s\n", r == 0 ? "OK (no violation)" : r == 1 ? "VIOLATES" : r == 2 ? "HANGS" : "ERROR", text.c_str(),
               SLOTS[workers].label, SLOTS[workers].notes);
        return r;
    }

    auto T0 = std::chrono::steady_clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); };
    bool capped = false, error = false;
    std::string errtext;
    std::vector<std::string> done_names;
    std::vector<double> walls;

    for (size_t si = 0; si < scenarios().size() && !error; ++si) {
        if (!only.empty() && only != scenarios()[si].name) continue;
        if (S->nviol.load() >= maxviol) break;
        double s0 = elapsed();
        if (s0 > budget) { capped = true; break; }
        memset((void*)CLAIM, 0, MAXPREFIX);
        S->stop = 0;
        std::vector<pid_t> pids(workers, 0);
        std::vector<uint64_t> last(workers, 0);
        std::vector<double> lastt(workers, 0);
        auto spawn = [&](int w, bool resume) {
            pid_t pid = fork();
            if (pid == 0) {
                redirect(w);
                me = &SLOTS[w];
                if (w == 0 && !resume) { g_samples_path = samp; g_samples_left = 2; }
                worker_loop((int)si, resume);
                me->phase = 2;
                fflush(nullptr);
                _exit(0);
            }
            pids[w] = pid;
            lastt[w] = elapsed();
            last[w] = ~0ull;
        };
        for (int w = 0; w < workers; ++w) {
            memset((void*)&SLOTS[w], 0, sizeof(Slot));
            SLOTS[w].scenario = (int)si;
            spawn(w, false);
        }
        int alive = workers;
        while (alive > 0) {
            usleep(2000);
            if (elapsed() > budget && !S->stop) { capped = true; S->stop = 1; }
            if (slice > 0 && elapsed() - s0 > slice && !S->stop) { capped = true; S->stop = 1; }
            if (S->nviol.load() >= maxviol) S->stop = 1;
            for (int w = 0; w < workers; ++w) {
                if (!pids[w]) continue;
                int status = 0;
                pid_t r = waitpid(pids[w], &status, WNOHANG);
                if (r < 0) { fprintf(stderr, "waitpid: %s\n", strerror(errno)); continue; }
                Slot* sl = &SLOTS[w];
                bool hung = false;
                if (r == 0) {
                    uint64_t v = sl->exec.load() + sl->beats.load();
                    if (v != last[w]) { last[w] = v; lastt[w] = elapsed(); continue; }
                    else if (sl->phase == 1 && elapsed() - lastt[w] > scenarios()[si].hang_s) {
                        kill(pids[w], SIGKILL);
                        waitpid(pids[w], &status, 0);
                        hung = true;
                    } else continue;
                }
                if (!hung && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
                    pids[w] = 0;
                    --alive;
                    continue;
                }
                // crash or hang of an execution
                if (!hung && WIFEXITED(status) && (WEXITSTATUS(status) == 98 || WEXITSTATUS(status) == 99)) {
                    error = true;
                    errtext = slurp(work + "/err." + std::to_string(w)) + " choices " ;
                    for (uint32_t k = 0; k < sl->nch; ++k) errtext += std::to_string(sl->ch[k]) + ".";
                    S->stop = 1;
                    pids[w] = 0;
                    --alive;
                    continue;
                }
                std::vector<uint16_t> chs(sl->ch, sl->ch + sl->nch);
                std::string text;
                bool real = true;
                if (hung) {
                    int rr = solo((int)si, chs, scenarios()[si].hang_s * 3, &text);
                    if (rr == 0) real = false;
                    if (rr == 2) text = "does not terminate (re-run alone with a 3x limit)";
                } else text = crash_text(status, slurp(work + "/err." + std::to_string(w)));
                if (real) {
                    report(hung ? "hang" : "crash", text, sl);
                    S->sc[si].exec++;
                }
                spawn(w, true);
            }
        }
        walls.push_back(elapsed() - s0);
        done_names.push_back(scenarios()[si].name);
    }

    // confirm each distinct violation by replaying it alone
    // (the python front end decides which are known findings)
    std::map<std::string, std::string> uniq;
    {
        std::ifstream f(violp);
        std::string l;
        while (std::getline(f, l)) {
            auto p = l.find("\"label\":\"");
            auto q = l.find("\",\"msg\":", p);
            auto sc = l.substr(0, l.find("\",\"kind\""));
            std::string key = sc + l.substr(p, q - p);
            if (!uniq.count(key)) uniq[key] = l;
        }
    }
    std::ofstream o(out);
    o << "{\"scenarios\":[";
    for (size_t i = 0, d = 0; i < scenarios().size(); ++i) {
        auto it = std::find(done_names.begin(), done_names.end(), scenarios()[i].name);
        if (it == done_names.end()) continue;
        auto& s = S->sc[i];
        o << (d ? "," : "") << "{\"name\":\"" << scenarios()[i].name << "\",\"executions\":" << s.exec << ",\"transitions\":" << s.steps
          << ",\"states\":" << s.states << ",\"outcomes\":" << s.outcomes << ",\"pruned\":" << s.pruned << ",\"max_choices\":" << s.maxdepth
          << ",\"wall_s\":" << walls[d] << "}";
        ++d;
    }
    o << "],\"capped\":" << (capped ? "true" : "false") << ",\"table_full\":" << S->table_full << ",\"error\":" << (error ? "true" : "false")
      << ",\"errtext\":\"" << jesc(errtext) << "\",\"wall_s\":" << elapsed() << ",\"violations\":[";
    bool first = true;
    int n = 0;
    for (auto& [k, l] : uniq) {
        if (++n > maxviol * 4) break;
        // extract scenario and choices
        auto a = l.find("\"scenario\":\"") + 12;
        std::string scn = l.substr(a, l.find('"', a) - a);
        auto b = l.rfind("\"choices\":[") + 11;
        std::string cs = l.substr(b, l.rfind("]}") - b);
        std::vector<uint16_t> chs;
        std::istringstream is(cs);
        std::string tok;
        while (std::getline(is, tok, ',')) if (!tok.empty()) chs.push_back((uint16_t)std::stoi(tok));
        int si = find(scn);
        bool hang = l.find("\"kind\":\"hang\"") != std::string::npos;
        int r = hang ? 2 : solo(si, chs, scenarios()[si].hang_s * 3, nullptr);
        std::string lc = l.substr(0, l.rfind('}'));
        o << (first ? "" : ",") << lc << ",\"confirmed\":" << (r == 1 || r == 2 ? "true" : "false") << "}";
        first = false;
    }
    o << "]}\n";
    o.close();
    return error ? 3 : uniq.empty() ? 0 : 1;
}
