// See sched.hpp.  This file is compiled WITHOUT -fsanitize=thread and uses no library
// containers (their instantiations would be shared with instrumented code).
#include "sched.hpp"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <exception>
#include <new>

#define EXP extern "C" __attribute__((visibility("default"), used))

namespace {

constexpr int NT = 14;                       // threads per execution
constexpr size_t STACK = 256 * 1024;
constexpr size_t ARENA = 16u << 20;
constexpr size_t GRAN = 1 << 14;             // shadow granules per execution
constexpr int NOBJ = 256;

enum Status { Ready, WMutex, WCond, WJoin, WFutex, WRead, WWrite, WSettle, Finished };
struct Clock { uint32_t c[NT]; };
struct Fiber {
    void* sp;
    char* stack;
    Status st;
    bool yielded;
    void* obj;        // what is waited for
    void* obj2;       // mutex of a condition wait
    bool timed, timedout;
    bool detached, joined;
    int jt;
    void* (*fn)(void*);
    void* arg;
    void* ret;
    Clock vc;
    Clock pend;       // acquired by the next acquire fence
    Clock rel;        // published by relaxed stores after a release fence
    uint64_t ops;
    void* eh[2];      // __cxa_eh_globals
};
struct Obj {          // mutex / rwlock / condition / once / atomic location
    void* addr;
    int owner, depth, readers;
    Clock vc;
};

Fiber F[NT];
int nf;
int cur = -1;               // running fiber, -1: root
bool in_rt;                 // inside the runtime (callbacks off)
void* root_sp;
void* root_eh[2];
const sched::Opt* O;
std::function<void()>* BODY;
int preempt_left, spur_left, tmo_left;
uint64_t ops;
uint64_t vtime;
char vmsg[4096];
bool have_viol;
int ask_n, ask_r;           // choice requested by a fiber
uint64_t EX = 0;            // execution stamp

Obj OB[NOBJ];
int nob;

char* arena;
size_t ause;
uint8_t* astate;            // per 8 bytes: 0 never, 1 live, 2 freed
char* stacks;

struct Cell { uint32_t w; uint32_t r[NT], aw[NT], ar[NT]; };   // epochs; w = tid<<24|clk
struct Gran { uintptr_t g; uint64_t ex; Cell b[8]; };
Gran* SH;
size_t gran_used;

struct Rt { bool o; Rt() : o(in_rt) { in_rt = true; } ~Rt() { in_rt = o; } };

extern "C" void sched_switch(void** save, void* to);
asm(R"(
.text
.globl sched_switch
.type sched_switch,@function
sched_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sched_switch, .-sched_switch
.section .note.GNU-stack,"",@progbits
.text
)");

void to_root() {
    Fiber& f = F[cur];
    void** g = (void**)abi::__cxa_get_globals();
    f.eh[0] = g[0]; f.eh[1] = g[1];
    g[0] = root_eh[0]; g[1] = root_eh[1];
    int me = cur;
    cur = -1;
    bool o = in_rt;
    sched_switch(&F[me].sp, root_sp);
    in_rt = o;
}
void to_fiber(int t) {
    void** g = (void**)abi::__cxa_get_globals();
    root_eh[0] = g[0]; root_eh[1] = g[1];
    g[0] = F[t].eh[0]; g[1] = F[t].eh[1];
    cur = t;
    bool o = in_rt;
    sched_switch(&root_sp, F[t].sp);
    in_rt = o;
}

[[noreturn]] void die(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    vfprintf(stderr, fmt, ap);
    va_end(ap);
    fputs("\n", stderr);
    _exit(99);
}

void setmsg(const char* fmt, va_list ap) {
    if (!have_viol) vsnprintf(vmsg, sizeof vmsg, fmt, ap);
    have_viol = true;
}
[[noreturn]] void viol(const char* fmt, ...) {
    Rt g;
    va_list ap;
    va_start(ap, fmt);
    setmsg(fmt, ap);
    va_end(ap);
    if (cur >= 0) { to_root(); die("mc: resumed after violation"); }
    throw mc::Violation{vmsg};
}

void join(Clock& a, const Clock& b) { for (int i = 0; i < NT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

Obj* obj(void* p) {
    for (int i = 0; i < nob; ++i) if (OB[i].addr == p) return &OB[i];
    if (nob == NOBJ) viol("execution does not end (synchronisation objects are created without bound)");
    Obj* o = &OB[nob++];
    memset((void*)o, 0, sizeof *o);
    o->addr = p;
    o->owner = -1;
    return o;
}
void objs_gone(void* p, size_t n) {
    for (int i = 0; i < nob; ++i)
        if ((char*)OB[i].addr >= (char*)p && (char*)OB[i].addr < (char*)p + n) {
            for (int t = 0; t < nf; ++t)
                if (F[t].st != Ready && F[t].st != Finished && F[t].st != WJoin && F[t].st != WSettle && (F[t].obj == OB[i].addr || F[t].obj2 == OB[i].addr))
                    viol("a synchronisation object is destroyed while thread %d waits on it", t);
            if (OB[i].owner >= 0) viol("a lock is destroyed while thread %d holds it", OB[i].owner);
            OB[i] = OB[--nob];
            --i;
        }
}
void release(Clock& to) { join(to, F[cur].vc); F[cur].vc.c[cur]++; }
void acquire(const Clock& from) { join(F[cur].vc, from); }

// can fiber t run now?
bool enabled(int t);
bool enabled(int t) {
    Fiber& f = F[t];
    switch (f.st) {
    case Ready: return true;
    case WMutex: return obj(f.obj)->owner < 0;
    case WRead: return obj(f.obj)->owner < 0;
    case WWrite: { Obj* o = obj(f.obj); return o->owner < 0 && o->readers == 0; }
    case WJoin: return F[f.jt].st == Finished;
    case WSettle:
        for (int i = 0; i < nf; ++i) if (i != t && F[i].st != WSettle && enabled(i)) return false;
        return true;
    default: return false;
    }
}

// scheduling decision: called in the fiber with its status set; returns when it runs again
void reschedule() {
    int me = cur;
    if (++ops > O->max_ops) viol("execution does not end (%llu visible operations)", (unsigned long long)O->max_ops);
    ++F[me].ops;
    // fast path: nothing to decide
    if (enabled(me) && !F[me].yielded && preempt_left == 0 && spur_left == 0) {
        bool timed = false;
        for (int t = 0; t < nf; ++t) timed |= (F[t].st == WCond || F[t].st == WFutex) && F[t].timed && tmo_left > 0;
        if (!timed) { mc::step(); return; }
    }
    to_root();
}
void point_() { F[cur].st = Ready; reschedule(); }

const char* stname(Status s) {
    static const char* n[] = {"ready", "waits for a lock", "waits for a condition", "waits for a thread to end", "waits on an atomic", "waits for a read lock", "waits for a write lock", "waits for all others to rest", "finished"};
    return n[s];
}

void fiber_main() {
    Fiber& f = F[cur];
    in_rt = false;
    try {
        if (cur == 0) (*BODY)();
        else f.ret = f.fn(f.arg);
    } catch (mc::Violation& v) {
        viol("%s", v.msg.c_str());
    } catch (std::exception& e) {
        viol("an exception escaped thread %d: %s", cur, e.what());
    } catch (...) {
        viol("an exception escaped thread %d", cur);
    }
    in_rt = true;
    F[cur].st = Finished;
    to_root();
    die("mc: finished thread resumed");
}
int new_fiber() {
    if (nf == NT) viol("threads are created without bound");
    int t = nf++;
    Fiber& f = F[t];
    memset((void*)&f, 0, sizeof f);
    f.stack = stacks + size_t(t) * (STACK + 4096) + 4096;
    uintptr_t top = ((uintptr_t)f.stack + STACK) & ~uintptr_t(15);
    void** sp = (void**)top;
    *--sp = nullptr;
    *--sp = (void*)fiber_main;      // return address
    for (int i = 0; i < 6; ++i) *--sp = nullptr;
    --sp;
    uint32_t mx; uint16_t cw;
    asm volatile("stmxcsr %0" : "=m"(mx));
    asm volatile("fnstcw %0" : "=m"(cw));
    ((uint32_t*)sp)[0] = mx;
    ((uint32_t*)sp)[1] = cw;
    f.sp = sp;
    f.st = Ready;
    f.vc.c[t] = 1;
    return t;
}

// ---- shadow memory ---------------------------------------------------------
const char* where(void* pc) {
    static char b[2][256];
    static int k;
    char* o = b[k ^= 1];
    Dl_info di;
    if (dladdr(pc, &di) && di.dli_sname) {
        int st = 0;
        char* d = abi::__cxa_demangle(di.dli_sname, nullptr, nullptr, &st);
        snprintf(o, 256, "%.200s", d ? d : di.dli_sname);
        free(d);
    } else snprintf(o, 256, "?");
    return o;
}
Gran* gran(uintptr_t g) {
    size_t i = (g * 0x9E3779B97F4A7C15ull) >> (64 - 14);
    for (size_t k = 0; k < GRAN; ++k, i = (i + 1) & (GRAN - 1)) {
        if (SH[i].ex != EX) {
            if (++gran_used > GRAN - GRAN / 8) viol("execution does not end (memory in use grows without bound)");
            memset((void*)&SH[i], 0, sizeof(Gran));
            SH[i].ex = EX;
            SH[i].g = g;
            return &SH[i];
        }
        if (SH[i].g == g) return &SH[i];
    }
    die("mc: shadow full");
}
enum { RD = 0, WR = 1, AT = 2 };
void heap_check(uintptr_t a, size_t n, void* pc) {
    if (a < (uintptr_t)arena || a >= (uintptr_t)arena + ARENA) return;
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; ++g) {
        uint8_t s = astate[g - ((uintptr_t)arena >> 3)];
        if (s != 1) viol("%s in %s", s == 2 ? "use of freed memory" : "access outside of an allocation", where(pc));
    }
}
// own: the accessed memory belongs to the stack of the running fiber and was never shown to others -> still recorded
void access(const volatile void* p, size_t n, int kind, void* pc) {
    uintptr_t a = (uintptr_t)p;
    if (n == 0) return;
    heap_check(a, n, pc);
    if (nf == 1) return;          // nobody else exists yet: everything so far happens before what follows
    Fiber& f = F[cur];
    uint32_t my = f.vc.c[cur];
    uintptr_t last = ~uintptr_t(0);
    Gran* G = nullptr;
    for (uintptr_t x = a; x < a + n; ++x) {
        if ((x >> 3) != last) { last = x >> 3; G = gran(last); }
        Cell& c = G->b[x & 7];
        if (c.w) {
            int t = c.w >> 24;
            if (t != cur && (c.w & 0xffffff) > f.vc.c[t]) viol("data race: thread %d %s memory that thread %d writes without synchronisation, in %s", cur, kind & WR ? "writes" : "reads", t, where(pc));
        }
        for (int t = 0; t < nf; ++t) {
            if (t == cur) continue;
            if ((kind & WR) && c.r[t] > f.vc.c[t]) viol("data race: thread %d writes memory that thread %d reads without synchronisation, in %s", cur, t, where(pc));
            if (!(kind & AT)) {
                if (c.aw[t] > f.vc.c[t]) viol("data race: thread %d accesses an atomic that thread %d changes without synchronisation, in %s", cur, t, where(pc));
                if ((kind & WR) && c.ar[t] > f.vc.c[t]) viol("data race: thread %d overwrites an atomic that thread %d reads without synchronisation, in %s", cur, t, where(pc));
            }
        }
        if (kind & AT) { if (kind & WR) c.aw[cur] = my; else c.ar[cur] = my; }
        else if (kind & WR) c.w = (uint32_t)cur << 24 | my;
        else c.r[cur] = my;
    }
}

void init_mem() {
    if (arena) return;
    arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    astate = (uint8_t*)mmap(nullptr, ARENA / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    SH = (Gran*)mmap(nullptr, sizeof(Gran) * GRAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    stacks = (char*)mmap(nullptr, (STACK + 4096) * NT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED || astate == MAP_FAILED || SH == MAP_FAILED || stacks == MAP_FAILED) die("mc: mmap");
    for (int t = 0; t < NT; ++t) mprotect(stacks + size_t(t) * (STACK + 4096), 4096, PROT_NONE);
}

void* aalloc(size_t n, size_t al) {
    Rt g;
    if (al < 16) al = 16;
    size_t at = (ause + 16 + al - 1) & ~(al - 1);      // header before, red zone between blocks
    size_t end = at + ((n + 7) & ~size_t(7)) + 16;
    if (n > ARENA || end > ARENA) return nullptr;
    *(size_t*)(arena + at - 8) = n;
    memset(astate + at / 8, 1, (n + 7) / 8);
    memset(arena + at, 0xCA, n);
    ause = end;
    return arena + at;
}
void afree(void* p, void* pc) {
    Rt g;
    size_t at = (char*)p - arena;
    size_t n = *(size_t*)((char*)p - 8);
    if (n && astate[at / 8] != 1) viol("memory is freed twice, in %s", where(pc));
    if (cur >= 0) {
        access(p, n, WR, pc);
        objs_gone(p, n);
    }
    memset(astate + at / 8, 2, (n + 7) / 8);
}

void on_terminate() {
    if (cur < 0) abort();
    const char* w = "";
    if (auto e = std::current_exception()) {
        try { std::rethrow_exception(e); }
        catch (std::exception& x) { w = x.what(); }
        catch (...) {}
    }
    viol("the process is aborted (std::terminate) by thread %d %s", cur, w);
}

template <class Fn> Fn real(Fn, const char* name) {
    void* p = dlsym(RTLD_NEXT, name);
    if (!p) die("mc: no %s", name);
    return (Fn)p;
}
#define REAL(name) ([&] { static decltype(&name) p = real(&name, #name); return p; }())
inline bool on() { return cur >= 0 && !in_rt; }

void wake_waiters(int t, bool timedout) {   // condition waiter t stops waiting, must re-acquire its mutex
    F[t].timedout = timedout;
    F[t].st = WMutex;
    F[t].obj = F[t].obj2;
}
}  // namespace

namespace sched {
int tid() { return cur; }
int threads_created() { return nf; }
int threads_alive() { int n = 0; for (int i = 0; i < nf; ++i) n += F[i].st != Finished; return n; }
bool blocked(int t) { return t < nf && F[t].st != Finished && !enabled(t); }
void settle() {
    Rt g;
    F[cur].st = WSettle;
    reschedule();
    F[cur].st = Ready;
}
void point() { if (cur < 0) return; Rt g; point_(); }
void violate(const char* fmt, ...) {
    Rt g;
    va_list ap;
    va_start(ap, fmt);
    setmsg(fmt, ap);
    va_end(ap);
    if (cur >= 0) { to_root(); die("mc: resumed after violation"); }
    throw mc::Violation{vmsg};
}
int choose(int n) {
    if (cur < 0) return mc::choose(n);
    Rt g;
    ask_n = n;
    to_root();
    return ask_r;
}

void run(std::function<void()> body, const Opt& opt) {
    init_mem();
    struct Guard {
        std::terminate_handler h;
        ~Guard() { std::set_terminate(h); cur = -1; in_rt = false; }
    } guard{std::set_terminate(on_terminate)};
    // fresh world
    memset(astate, 0, ause / 8 + 8);
    ause = 0;
    ++EX;
    gran_used = 0;
    nf = 0;
    nob = 0;
    ops = 0;
    vtime = 1000000000ull;
    have_viol = false;
    ask_n = 0;
    O = &opt;
    BODY = &body;
    preempt_left = opt.preemptions;
    spur_left = opt.spurious;
    tmo_left = opt.timeouts;
    in_rt = true;
    __libc_single_threaded = 0;
    int last = new_fiber();
    int next = last;
    bool done = false;
    while (!done) {
        F[next].yielded = false;
        to_fiber(next);
        last = next;
        if (have_viol) throw mc::Violation{vmsg};
        if (ask_n) {
            int n = ask_n;
            ask_n = 0;
            ask_r = n > 1 ? mc::choose(n) : 0;
            continue;   // same fiber goes on
        }
        mc::step();
        if (opt.observe) {
            mc::Hash h;
            for (int t = 0; t < nf; ++t) h << F[t].ops << (int)F[t].st;
            h << opt.observe();
            mc::state(h.get());
        }
        while (true) {
            // who may run?
            struct Cand { int t; int how; } c[4 * NT];   // how: 0 run, 1 spurious wake-up, 2 time-out
            int n = 0;
            bool cont = enabled(last) && !F[last].yielded;
            if (cont) c[n++] = {last, 0};
            if (!cont || preempt_left > 0)
                for (int k = 1; k < nf; ++k) {
                    int t = (last + k) % nf;
                    if (enabled(t)) c[n++] = {t, 0};
                }
            if (n == 0 && enabled(last)) c[n++] = {last, 0};    // only the yielding thread is left
            bool any = n > 0;
            for (int t = 0; t < nf; ++t)
                if (F[t].st == WCond || F[t].st == WFutex) {
                    if (spur_left > 0 && any) c[n++] = {t, 1};
                    if (F[t].timed && (!any || tmo_left > 0)) c[n++] = {t, 2};
                }
            if (n == 0) {
                done = true;
                for (int t = 0; t < nf; ++t) done &= F[t].st == Finished;
                if (done) break;
                char b[1024];
                size_t l = 0;
                for (int t = 0; t < nf; ++t)
                    if (F[t].st != Finished && l < sizeof b) l += snprintf(b + l, sizeof b - l, "%sthread %d %s", l ? ", " : "", t, stname(F[t].st));
                viol("deadlock: %s", b);
            }
            int k = n > 1 ? mc::choose(n) : 0;
            int t = c[k].t;
            if (c[k].how == 0) {
                if (cont && t != last) --preempt_left;
                next = t;
                break;
            }
            bool to = c[k].how == 2;
            if (!to) --spur_left;
            else { if (any) --tmo_left; vtime += 1000000000ull; }
            if (F[t].st == WCond) wake_waiters(t, to);
            else { F[t].st = Ready; F[t].timedout = to; }
        }
    }
    for (int t = 1; t < nf; ++t)
        if (!F[t].joined && !F[t].detached) viol("thread %d ended but was neither joined nor detached", t);
}
}  // namespace sched

// ---- heap --------------------------------------------------------------------
static void* xnew(size_t n, size_t al, bool nothrow) {
    void* p;
    if (cur >= 0 && !in_rt) p = aalloc(n ? n : 1, al);
    else p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
static void xdel(void* p, void* pc) {
    if (!p) return;
    if (arena && (char*)p >= arena && (char*)p < arena + ARENA) { afree(p, pc); return; }
    free(p);
}
#define PC __builtin_return_address(0)
void* operator new(size_t n) { return xnew(n, 16, false); }
void* operator new[](size_t n) { return xnew(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return xnew(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return xnew(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return xnew(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return xnew(n, (size_t)a, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return xnew(n, (size_t)a, true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return xnew(n, (size_t)a, true); }
void operator delete(void* p) noexcept { xdel(p, PC); }
void operator delete[](void* p) noexcept { xdel(p, PC); }
void operator delete(void* p, size_t) noexcept { xdel(p, PC); }
void operator delete[](void* p, size_t) noexcept { xdel(p, PC); }
void operator delete(void* p, std::align_val_t) noexcept { xdel(p, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { xdel(p, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { xdel(p, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { xdel(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { xdel(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { xdel(p, PC); }

// ---- threads -------------------------------------------------------------------
EXP int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) noexcept {
    if (!on()) return REAL(pthread_create)(th, at, fn, arg);
    Rt g;
    int t = new_fiber();
    F[t].fn = fn;
    F[t].arg = arg;
    join(F[t].vc, F[cur].vc);
    F[t].vc.c[t] = 1;
    F[cur].vc.c[cur]++;
    int d = PTHREAD_CREATE_JOINABLE;
    if (at) pthread_attr_getdetachstate(at, &d);
    F[t].detached = d == PTHREAD_CREATE_DETACHED;
    *th = (pthread_t)(0x10000 + t);
    point_();
    return 0;
}
static int tix(pthread_t t) {
    int i = (int)((uintptr_t)t - 0x10000);
    if (i < 0 || i >= nf) viol("operation on a thread that does not exist");
    return i;
}
EXP int pthread_join(pthread_t th, void** r) {
    if (!on()) return REAL(pthread_join)(th, r);
    Rt g;
    int t = tix(th);
    if (t == cur) return EDEADLK;
    if (F[t].detached || F[t].joined) viol("thread %d is joined although it was already joined or detached", t);
    F[cur].st = WJoin;
    F[cur].jt = t;
    reschedule();
    F[cur].st = Ready;
    if (F[t].joined || F[t].detached) viol("thread %d is joined twice", t);
    F[t].joined = true;
    acquire(F[t].vc);
    if (r) *r = F[t].ret;
    return 0;
}
EXP int pthread_detach(pthread_t th) noexcept {
    if (!on()) return REAL(pthread_detach)(th);
    Rt g;
    int t = tix(th);
    if (F[t].detached || F[t].joined) viol("thread %d is detached although it was already joined or detached", t);
    F[t].detached = true;
    return 0;
}
EXP pthread_t pthread_self(void) noexcept {
    if (cur < 0) return REAL(pthread_self)();
    return (pthread_t)(0x10000 + cur);
}
EXP int pthread_equal(pthread_t a, pthread_t b) noexcept { return a == b; }

// ---- mutex ---------------------------------------------------------------------
static int mkind(pthread_mutex_t* m) { return m->__data.__kind & 3; }
static int lock_(pthread_mutex_t* m) {
    Obj* o = obj(m);
    if (o->owner == cur) {
        if (mkind(m) == PTHREAD_MUTEX_RECURSIVE) { o->depth++; return 0; }
        if (mkind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        viol("deadlock: thread %d locks a mutex it already holds", cur);
    }
    F[cur].st = WMutex;
    F[cur].obj = m;
    reschedule();
    F[cur].st = Ready;
    o = obj(m);
    if (o->owner >= 0) die("mc: lock owned after scheduling");
    o->owner = cur;
    o->depth = 1;
    acquire(o->vc);
    return 0;
}
static void unlock_(pthread_mutex_t* m) {
    Obj* o = obj(m);
    if (o->owner != cur) viol("thread %d unlocks a mutex it does not hold", cur);
    if (--o->depth) return;
    o->owner = -1;
    release(o->vc);
}
static void mchk(void* m, size_t n, void* pc) { heap_check((uintptr_t)m, n, pc); }
EXP int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept {
    int r = REAL(pthread_mutex_init)(m, a);
    if (on()) { Rt g; objs_gone(m, 1); }
    return r;
}
EXP int pthread_mutex_destroy(pthread_mutex_t* m) noexcept {
    if (!on()) return REAL(pthread_mutex_destroy)(m);
    Rt g;
    objs_gone(m, 1);
    return 0;
}
EXP int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    if (!on()) return REAL(pthread_mutex_lock)(m);
    Rt g;
    mchk(m, sizeof *m, PC);
    return lock_(m);
}
EXP int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
    if (!on()) return REAL(pthread_mutex_trylock)(m);
    Rt g;
    mchk(m, sizeof *m, PC);
    point_();
    Obj* o = obj(m);
    if (o->owner == cur && mkind(m) == PTHREAD_MUTEX_RECURSIVE) { o->depth++; return 0; }
    if (o->owner >= 0) return EBUSY;
    o->owner = cur;
    o->depth = 1;
    acquire(o->vc);
    return 0;
}
static int timedlock_(pthread_mutex_t* m) {
    point_();
    Obj* o = obj(m);
    if (o->owner == cur && mkind(m) == PTHREAD_MUTEX_RECURSIVE) { o->depth++; return 0; }
    if (o->owner >= 0) {
        ask_n = 2;
        to_root();
        if (ask_r == 1) { vtime += 1000000000ull; return ETIMEDOUT; }
        return lock_(m);
    }
    o->owner = cur;
    o->depth = 1;
    acquire(o->vc);
    return 0;
}
EXP int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) noexcept {
    if (!on()) return REAL(pthread_mutex_timedlock)(m, ts);
    Rt g;
    return timedlock_(m);
}
EXP int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) noexcept {
    if (!on()) return REAL(pthread_mutex_clocklock)(m, c, ts);
    Rt g;
    return timedlock_(m);
}
EXP int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
    if (!on()) return REAL(pthread_mutex_unlock)(m);
    Rt g;
    mchk(m, sizeof *m, PC);
    unlock_(m);
    return 0;
}

// ---- condition variables ---------------------------------------------------------
static int wait_(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    Obj* o = obj(m);
    if (o->owner != cur) viol("thread %d waits on a condition without holding its mutex", cur);
    point_();
    int depth = obj(m)->depth;
    obj(m)->depth = 1;
    unlock_(m);
    Fiber& f = F[cur];
    f.st = WCond;
    f.obj = c;
    f.obj2 = m;
    f.timed = timed;
    f.timedout = false;
    ++ops;
    ++f.ops;
    to_root();
    f.st = Ready;
    o = obj(m);
    if (o->owner >= 0) die("mc: lock owned after wait");
    o->owner = cur;
    o->depth = depth;
    acquire(o->vc);
    f.obj2 = nullptr;
    bool to = f.timedout;
    f.timed = f.timedout = false;
    return to ? ETIMEDOUT : 0;
}
static void wake_(pthread_cond_t* c, bool all) {
    point_();
    int w[NT], n = 0;
    for (int t = 0; t < nf; ++t) if (F[t].st == WCond && F[t].obj == c) w[n++] = t;
    if (!n) return;
    if (all) { for (int i = 0; i < n; ++i) wake_waiters(w[i], false); return; }
    int k = 0;
    if (n > 1) { ask_n = n; to_root(); k = ask_r; }
    wake_waiters(w[k], false);
}
EXP int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) noexcept { return REAL(pthread_cond_init)(c, a); }
EXP int pthread_cond_destroy(pthread_cond_t* c) noexcept {
    if (!on()) return REAL(pthread_cond_destroy)(c);
    Rt g;
    for (int t = 0; t < nf; ++t)
        if (F[t].st == WCond && F[t].obj == c) viol("a condition variable is destroyed while thread %d waits on it", t);
    return 0;
}
EXP int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!on()) return REAL(pthread_cond_wait)(c, m);
    Rt g;
    mchk(c, sizeof *c, PC);
    return wait_(c, m, false);
}
EXP int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
    if (!on()) return REAL(pthread_cond_timedwait)(c, m, ts);
    Rt g;
    return wait_(c, m, true);
}
EXP int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ci, const struct timespec* ts) {
    if (!on()) return REAL(pthread_cond_clockwait)(c, m, ci, ts);
    Rt g;
    return wait_(c, m, true);
}
EXP int pthread_cond_signal(pthread_cond_t* c) noexcept {
    if (!on()) return REAL(pthread_cond_signal)(c);
    Rt g;
    mchk(c, sizeof *c, PC);
    wake_(c, false);
    return 0;
}
EXP int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
    if (!on()) return REAL(pthread_cond_broadcast)(c);
    Rt g;
    mchk(c, sizeof *c, PC);
    wake_(c, true);
    return 0;
}

// ---- rwlock ----------------------------------------------------------------------
EXP int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t* a) noexcept { return REAL(pthread_rwlock_init)(l, a); }
EXP int pthread_rwlock_destroy(pthread_rwlock_t* l) noexcept { if (!on()) return REAL(pthread_rwlock_destroy)(l); Rt g; objs_gone(l, 1); return 0; }
EXP int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept {
    if (!on()) return REAL(pthread_rwlock_rdlock)(l);
    Rt g;
    if (obj(l)->owner == cur) viol("deadlock: thread %d read-locks a lock it holds for writing", cur);
    F[cur].st = WRead; F[cur].obj = l;
    reschedule();
    F[cur].st = Ready;
    obj(l)->readers++;
    acquire(obj(l)->vc);
    return 0;
}
EXP int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept {
    if (!on()) return REAL(pthread_rwlock_wrlock)(l);
    Rt g;
    if (obj(l)->owner == cur) viol("deadlock: thread %d locks a lock it already holds", cur);
    F[cur].st = WWrite; F[cur].obj = l;
    reschedule();
    F[cur].st = Ready;
    obj(l)->owner = cur;
    acquire(obj(l)->vc);
    return 0;
}
EXP int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept {
    if (!on()) return REAL(pthread_rwlock_tryrdlock)(l);
    Rt g;
    point_();
    if (obj(l)->owner >= 0) return EBUSY;
    obj(l)->readers++;
    acquire(obj(l)->vc);
    return 0;
}
EXP int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept {
    if (!on()) return REAL(pthread_rwlock_trywrlock)(l);
    Rt g;
    point_();
    if (obj(l)->owner >= 0 || obj(l)->readers) return EBUSY;
    obj(l)->owner = cur;
    acquire(obj(l)->vc);
    return 0;
}
EXP int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept {
    if (!on()) return REAL(pthread_rwlock_unlock)(l);
    Rt g;
    Obj* o = obj(l);
    if (o->owner == cur) o->owner = -1;
    else if (o->readers > 0) o->readers--;
    else viol("thread %d unlocks a lock that is not held", cur);
    release(o->vc);
    return 0;
}

// ---- once, yields, time -------------------------------------------------------------
EXP int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    if (!on()) return REAL(pthread_once)(o, fn);
    if (*o == 2) return 0;
    { Rt g; point_(); }
    if (*o == 0) {       // the body runs without preemption: fibers share thread-local storage
        int p = preempt_left;
        preempt_left = 0;
        *o = 1;
        try { fn(); } catch (...) { *o = 0; preempt_left = p; throw; }
        *o = 2;
        preempt_left = p;
        Rt g;
        release(obj(o)->vc);
    } else {
        while (*o == 1) { Rt g; F[cur].yielded = true; point_(); }
    }
    Rt g;
    acquire(obj(o)->vc);
    return 0;
}
static void yield_() { F[cur].yielded = true; F[cur].st = Ready; if (++ops > O->max_ops) viol("execution does not end (%llu visible operations)", (unsigned long long)O->max_ops); ++F[cur].ops; to_root(); }
EXP int sched_yield(void) noexcept {
    if (!on()) return REAL(sched_yield)();
    Rt g;
    yield_();
    return 0;
}
EXP int nanosleep(const struct timespec* t, struct timespec* r) {
    if (!on()) return REAL(nanosleep)(t, r);
    Rt g;
    vtime += (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec;
    yield_();
    return 0;
}
EXP int clock_nanosleep(clockid_t c, int fl, const struct timespec* t, struct timespec* r) {
    if (!on()) return REAL(clock_nanosleep)(c, fl, t, r);
    Rt g;
    uint64_t v = (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec;
    if (fl & TIMER_ABSTIME) { if (v > vtime) vtime = v; } else vtime += v;
    yield_();
    return 0;
}
EXP int usleep(useconds_t u) {
    if (!on()) return REAL(usleep)(u);
    Rt g;
    vtime += u * 1000ull;
    yield_();
    return 0;
}
EXP int clock_gettime(clockid_t c, struct timespec* t) noexcept {
    if (!on()) return REAL(clock_gettime)(c, t);
    vtime += 1000;
    t->tv_sec = vtime / 1000000000ull;
    t->tv_nsec = vtime % 1000000000ull;
    return 0;
}
EXP long syscall(long n, ...) noexcept {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (auto& x : a) x = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && on()) {
        Rt g;
        int op = (int)a[1] & FUTEX_CMD_MASK;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            point_();
            if (*(volatile int*)a[0] != (int)a[2]) { errno = EAGAIN; return -1; }
            Fiber& f = F[cur];
            f.st = WFutex;
            f.obj = (void*)a[0];
            f.timed = a[3] != 0;
            f.timedout = false;
            ++ops;
            ++f.ops;
            to_root();
            f.st = Ready;
            bool to = f.timedout;
            f.timed = f.timedout = false;
            if (to) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            point_();
            long k = 0;
            for (int t = 0; t < nf && k < (int)a[2]; ++t)
                if (F[t].st == WFutex && F[t].obj == (void*)a[0]) { F[t].st = Ready; ++k; }
            return k;
        }
        die("mc: futex operation %d", op);
    }
    typedef long (*sys_t)(long, ...);
    static sys_t p = (sys_t)dlsym(RTLD_NEXT, "syscall");
    return p(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}

// ---- compiler callbacks ----------------------------------------------------------------
#define ACC(name, size, kind) EXP void name(void* p) { if (on()) { Rt g; access(p, size, kind, PC); } }
#define ACCS(n)                                     \
    ACC(__tsan_read##n, n, RD)                      \
    ACC(__tsan_write##n, n, WR)                     \
    ACC(__tsan_volatile_read##n, n, RD)             \
    ACC(__tsan_volatile_write##n, n, WR)
ACCS(1) ACCS(2) ACCS(4) ACCS(8) ACCS(16)
#define ACCU(n)                                     \
    ACC(__tsan_unaligned_read##n, n, RD)            \
    ACC(__tsan_unaligned_write##n, n, WR)           \
    ACC(__tsan_unaligned_volatile_read##n, n, RD)   \
    ACC(__tsan_unaligned_volatile_write##n, n, WR)
ACCU(2) ACCU(4) ACCU(8) ACCU(16)
EXP void __tsan_read_range(void* p, unsigned long n) { if (on()) { Rt g; access(p, n, RD, PC); } }
EXP void __tsan_write_range(void* p, unsigned long n) { if (on()) { Rt g; access(p, n, WR, PC); } }
EXP void __tsan_vptr_update(void** p, void* v) { if (on() && *p != v) { Rt g; access(p, 8, WR, PC); } }
EXP void __tsan_vptr_read(void** p) { if (on()) { Rt g; access(p, 8, RD, PC); } }
EXP void __tsan_func_entry(void*) {}
EXP void __tsan_func_exit(void) {}
EXP void __tsan_init(void) {}

static void at_acq(void* p, int mo) {
    // consume is treated as acquire
    if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) acquire(obj(p)->vc);
    else join(F[cur].pend, obj(p)->vc);
}
static void at_rel(void* p, int mo, bool rmw) {
    Obj* o = obj(p);
    bool r = mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
    if (!rmw) memset((void*)&o->vc, 0, sizeof o->vc);     // a plain store heads a new release sequence
    if (r) release(o->vc);
    else join(o->vc, F[cur].rel);
}
template <class T> static T a_load(volatile T* p, int mo, void* pc) {
    if (on()) {
        Rt g;
        heap_check((uintptr_t)p, sizeof(T), pc);
        if (nf > 1) point_();
        access(p, sizeof(T), AT | RD, pc);
        at_acq((void*)p, mo);
    }
    return __atomic_load_n(p, __ATOMIC_SEQ_CST);
}
template <class T> static void a_store(volatile T* p, T v, int mo, void* pc) {
    if (on()) {
        Rt g;
        heap_check((uintptr_t)p, sizeof(T), pc);
        if (nf > 1) point_();
        access(p, sizeof(T), AT | WR, pc);
        at_rel((void*)p, mo, false);
    }
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);
}
template <class T, class Op> static T a_rmw(volatile T* p, int mo, void* pc, Op op) {
    if (on()) {
        Rt g;
        heap_check((uintptr_t)p, sizeof(T), pc);
        if (nf > 1) point_();
        access(p, sizeof(T), AT | WR, pc);
        at_acq((void*)p, mo);
        at_rel((void*)p, mo, true);
    }
    T o = __atomic_load_n(p, __ATOMIC_SEQ_CST);     // really atomic: the explorer shares memory between processes
    while (!__atomic_compare_exchange_n(p, &o, op(o), false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {}
    return o;
}
template <class T> static int a_cas(volatile T* p, T* e, T v, int mo, int fmo, void* pc) {
    if (on()) {
        Rt g;
        heap_check((uintptr_t)p, sizeof(T), pc);
        if (nf > 1) point_();
        bool ok = *p == *e;
        access(p, sizeof(T), AT | (ok ? WR : RD), pc);
        at_acq((void*)p, ok ? mo : fmo);
        if (ok) at_rel((void*)p, mo, true);
    }
    return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
}
#define ATOM(bits, T)                                                                                                              \
    EXP T __tsan_atomic##bits##_load(const volatile T* p, int mo) { return a_load((volatile T*)p, mo, PC); }                        \
    EXP void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { a_store(p, v, mo, PC); }                                     \
    EXP T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { return a_rmw(p, mo, PC, [&](T) { return v; }); }             \
    EXP T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { return a_rmw(p, mo, PC, [&](T o) { return (T)(o + v); }); } \
    EXP T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { return a_rmw(p, mo, PC, [&](T o) { return (T)(o - v); }); } \
    EXP T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { return a_rmw(p, mo, PC, [&](T o) { return (T)(o & v); }); } \
    EXP T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { return a_rmw(p, mo, PC, [&](T o) { return (T)(o | v); }); }  \
    EXP T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { return a_rmw(p, mo, PC, [&](T o) { return (T)(o ^ v); }); } \
    EXP T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { return a_rmw(p, mo, PC, [&](T o) { return (T)~(o & v); }); } \
    EXP int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int f) { return a_cas(p, e, v, mo, f, PC); } \
    EXP int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int f) { return a_cas(p, e, v, mo, f, PC); } \
    EXP T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int f) { a_cas(p, &e, v, mo, f, PC); return e; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
EXP void __tsan_atomic_thread_fence(int mo) {
    if (!on()) return;
    Rt g;
    if (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME) join(F[cur].vc, F[cur].pend);
    if (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST) { F[cur].rel = F[cur].vc; F[cur].vc.c[cur]++; }
}
EXP void __tsan_atomic_signal_fence(int) {}

// calls to these from instrumented objects (linked with --wrap)
extern "C" void* __real_memcpy(void*, const void*, size_t);
extern "C" void* __real_memmove(void*, const void*, size_t);
extern "C" void* __real_memset(void*, int, size_t);
EXP void* __wrap_memcpy(void* d, const void* s, size_t n) { if (on()) { Rt g; access(s, n, RD, PC); access(d, n, WR, PC); } return __real_memcpy(d, s, n); }
EXP void* __wrap_memmove(void* d, const void* s, size_t n) { if (on()) { Rt g; access(s, n, RD, PC); access(d, n, WR, PC); } return __real_memmove(d, s, n); }
EXP void* __wrap_memset(void* d, int c, size_t n) { if (on()) { Rt g; access(d, n, WR, PC); } return __real_memset(d, c, n); }
