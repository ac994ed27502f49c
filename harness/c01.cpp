// C01: a parallel section delivers every upstream block once, in order, bounded.
#include "par.hpp"
using namespace par;
namespace {
struct World {
    std::unique_ptr<Probe> src = std::make_unique<Probe>();
    std::unique_ptr<ParallelModule> p = std::make_unique<ParallelModule>();
    World() { p->link(src.get()); }
    ~World() { p.reset(); }
};
Opt opts(int pre, int spur = 0) { Opt o; o.preemptions = pre; o.spurious = spur; return o; }

// Reference: the section is a bounded queue between an endless producer and the caller.
void sequences(int depth, int pre, int spur) {
    World* W = nullptr;
    Opt o = opts(pre, spur);
    o.observe = [&] { return W ? (uint64_t)peek(W->src->seq) : 0; };
    sched::run([&] {
        World w;
        W = &w;
        ParallelModule& p = *w.p;
        bool multi = depth > 3 && choose(2);
        if (multi) { w.src->chans = 2; w.src->frames = 3; }
        auto deliver = [&] { p.meta_process(); return seq_of(p.get_buffer(), w.src->frames, w.src->chans); };
        std::size_t limit = 1 + choose(3);
        p.max_size(limit);
        S_CHECK(p.max_size() == limit, "max_size() is %zu after max_size(%zu)", p.max_size(), limit);
        mc::note("limit %zu, start", limit);
        p.start();
        bool running = true;
        std::size_t cap = limit;       // blocks that may be cached: the largest limit since the last rest
        long next = 0;                 // first acceptable block
        bool exact = true;             // next is the only acceptable block
        auto size = [&] {
            std::size_t n = p.size();
            S_CHECK(n <= cap, "%zu blocks are cached, the limit is %zu", n, cap);
            return n;
        };
        for (int d = 0; d < depth; ++d) {
            switch (choose(running ? 7 : 6)) {
            case 0: {   // take a block
                if (!running && size() == 0) return;   // nothing to take: another sequence covers the rest
                long q = deliver();
                mc::note("take -> %ld", q);
                S_CHECK(exact ? q == next : q >= next, "block %ld was delivered, %s %ld was due", q, exact ? "block" : "a block from", next);
                next = q + 1;
                exact = true;
                break;
            }
            case 1: {   // let everything come to rest
                settle();
                std::size_t n = size();
                mc::note("rest: %zu cached, limit %zu, produced %ld", n, limit, w.src->seq);
                if (running) {
                    S_CHECK(n >= limit, "production stopped with %zu of %zu blocks cached", n, limit);
                }
                if (n <= limit) cap = limit;    // a block begun under an older, larger limit may still arrive until here
                if (exact) S_CHECK((long)n == peek(w.src->seq) - next, "%zu blocks are cached, %ld were produced and not delivered", n, peek(w.src->seq) - next);
                break;
            }
            case 2: (void)size(); mc::note("size"); break;
            case 3: {   // change the limit
                std::size_t l = 1 + choose(4);
                mc::note("limit %zu -> %zu", limit, l);
                p.max_size(l);
                cap = std::max(cap, l);
                limit = l;
                break;
            }
            case 4: {   // restart
                long done = peek(w.src->seq);
                bool was = running;
                p.start();
                mc::note("start, %ld produced before", done);
                running = true;
                next = done;
                // blocks finished before the request are never delivered; one that was in production may also be dropped
                exact = !was;
                cap = limit;
                break;
            }
            case 5: {
                if (!running && d) return;
                p.stop();
                running = false;
                mc::note("stop, %ld produced", peek(w.src->seq));
                std::size_t n = size();
                if (exact) S_CHECK((long)n == peek(w.src->seq) - next, "after the stop %zu blocks are cached, %ld were produced and not delivered", n, peek(w.src->seq) - next);
                break;
            }
            case 6: {   // take as many as there are
                settle();
                std::size_t n = size();
                for (std::size_t i = 0; i < n; ++i) {
                    long q = deliver();
                    S_CHECK(exact ? q == next : q >= next, "block %ld was delivered, %s %ld was due", q, exact ? "block" : "a block from", next);
                    next = q + 1;
                    exact = true;
                }
                mc::note("took %zu", n);
                break;
            }
            }
        }
        p.stop();
        std::size_t n = size();
        for (; n > 0; --n) {
            long q = deliver();
            S_CHECK(exact ? q == next : q >= next, "after the stop block %ld was delivered, %s %ld was due", q, exact ? "block" : "a block from", next);
            next = q + 1;
            exact = true;
        }
        S_CHECK(p.size() == 0, "%zu blocks remain", p.size());
        if (exact) S_CHECK(next == w.src->seq, "%ld blocks were produced, the last one delivered is %ld", w.src->seq, next - 1);
        mc::Hash h;
        h << next << limit;
        mc::outcome(h.get());
        W = nullptr;
    }, o);
}
}  // namespace

MC_SCENARIO(c01_sequences, 5) { sequences(mc::thorough() ? 5 : 4, 1, 0); }
MC_SCENARIO(c01_sequences_deep_schedules, 5) { sequences(mc::thorough() ? 3 : 2, mc::thorough() ? 4 : 3, 1); }

// The consumer is a thread of its own, the controller changes the limit and looks at the size.
MC_SCENARIO(c01_consumer, 5) {
    World* W = nullptr;
    Opt o = opts(mc::thorough() ? 3 : 2, mc::thorough() ? 1 : 0);
    o.observe = [&] { return W ? (uint64_t)peek(W->src->seq) : 0; };
    sched::run([&] {
        World w;
        W = &w;
        ParallelModule& p = *w.p;
        std::size_t limit = 1 + choose(3);
        int op = choose(5), op2 = choose(5), n = 1 + choose(mc::thorough() ? 4 : 3);
        mc::label("limit %zu ops %d %d blocks %d", limit, op, op2, n);
        p.max_size(limit);
        p.start();
        long got = 0;
        std::thread consumer([&] {
            for (int i = 0; i < n; ++i) {
                p.meta_process();
                long q = seq_of(p.get_buffer());
                S_CHECK(q == i, "block %ld was delivered, block %d was due", q, i);
                ++got;
            }
        });
        std::size_t cap = limit;
        for (int k : {op, op2}) {
            switch (k) {
            case 0: break;
            case 1: p.max_size(limit = 4); cap = std::max(cap, limit); break;
            case 2: p.max_size(limit = 1); break;
            case 3: { std::size_t s = p.size(); S_CHECK(s <= cap, "%zu blocks are cached, the limit is %zu", s, cap); break; }
            case 4: settle(); { std::size_t s = p.size(); S_CHECK(s >= limit && s <= cap, "at rest %zu blocks are cached, the limit is %zu", s, limit); break; }
            }
        }
        consumer.join();
        S_CHECK(got == n, "%ld of %d blocks arrived", got, n);
        settle();
        std::size_t s = p.size();
        S_CHECK(s >= limit && s <= cap, "at rest %zu blocks are cached, the limit is %zu", s, limit);
        S_CHECK((long)s == w.src->seq - n, "%zu blocks cached, %ld produced and %d delivered", s, w.src->seq, n);
        p.stop();
        long next = n;
        while (p.size()) {
            p.meta_process();
            long q = seq_of(p.get_buffer());
            S_CHECK(q == next, "after the stop block %ld was delivered, block %ld was due", q, next);
            ++next;
        }
        S_CHECK(next == w.src->seq, "%ld blocks were produced, the last one delivered is %ld", w.src->seq, next - 1);
        mc::outcome(next);
        W = nullptr;
    }, o);
}

// A whole chain, with modules before and behind the section(s), delivers what the serial chain delivers.
MC_SCENARIO(c01_chain, 5) {
    Opt o = opts(mc::thorough() ? 2 : 1);
    sched::run([&] {
        int shape = choose(4);       // 0 one section, 1 two in a row, 2 two merged, 3 section before a module that re-uses its block
        int limit = 1 + choose(2), n = 1 + choose(mc::thorough() ? 4 : 3);
        int sync = choose(2);
        mc::label("shape %d limit %d blocks %d sync %d", shape, limit, n, sync);
        auto mk = [] { return std::make_unique<ParallelModule>(); };
        auto sink = std::make_unique<SinkModule<>>();
        auto s1 = std::make_unique<Probe>();
        auto s2 = std::make_unique<Probe>();
        auto a = std::make_unique<AmplitudeScale<>>(2);
        auto b = std::make_unique<AmplitudeAdd<>>(3);
        auto mix = std::make_unique<ModuleMixDown>();
        auto p1 = mk();
        auto p2 = mk();
        p1->max_size(limit);
        p2->max_size(limit);
        switch (shape) {
        case 0: sink->link(b.get())->link(p1.get())->link(a.get())->link(s1.get()); break;
        case 1: sink->link(p1.get())->link(b.get())->link(p2.get())->link(a.get())->link(s1.get()); break;
        case 2: sink->link(mix.get()); mix->link(p1.get())->link(s1.get()); mix->link(p2.get())->link(s2.get()); break;
        case 3: sink->link(b.get())->link(a.get())->link(p1.get())->link(s1.get()); break;
        }
        sink->get_chain_info()->buffer_size = 2;
        if (sync || shape == 2) sink->meta_info_sync();
        sink->meta_start();
        for (int i = 0; i < n; ++i) {
            sink->meta_process();
            AudioBuffer r = std::move(sink->get_buffer());
            S_CHECK(r.size() == 2, "a block of %zu samples arrived", r.size());
            for (int k = 0; k < 2; ++k) {
                double v = value(i, k), e = shape == 2 ? v + v : 2 * v + 3;
                S_CHECK(r.at(k) == e, "block %d sample %d is %g, the serial chain gives %g", i, k, r.at(k), e);
            }
        }
        sink->meta_stop();
        S_CHECK(threads_alive() == 1, "%d background threads are left after the chain was stopped", threads_alive() - 1);
        S_CHECK(s1->seq >= n && s1->seq <= n + 2 * limit + 1, "%ld blocks were produced for %d", s1->seq, n);
        mc::outcome(s1->seq);
    }, o);
}
