// C02: starting, stopping, restarting and destroying a parallel section always ends.
#include "par.hpp"
using namespace par;
namespace {
Opt opts(int pre, int spur = 0) { Opt o; o.preemptions = pre; o.spurious = spur; return o; }

// one controller, every sequence of requests
void sequences(int depth, int pre, int spur) {
    Probe* S = nullptr;
    Opt o = opts(pre, spur);
    o.observe = [&] { return S ? (uint64_t)peek(S->seq) : 0; };
    sched::run([&] {
        auto src = std::make_unique<Probe>();
        auto p = std::make_unique<ParallelModule>();
        p->link(src.get());
        S = src.get();
        p->max_size(1 + choose(2));
        bool running = false;
        for (int d = 0; d < depth; ++d) {
            int op = choose(7);
            static const char* nm[] = {"end", "start", "stop", "take", "meta_start", "meta_stop", "rest"};
            mc::note("%s", nm[op]);
            if (op == 0) break;
            switch (op) {
            case 1: p->start(); running = true; break;
            case 2: p->stop(); running = false; break;
            case 3: p->meta_process(); break;     // running: waits for a block; otherwise returns at once
            case 4: p->meta_start(); running = true; break;
            case 5: p->meta_stop(); running = false; break;
            case 6: settle(); break;
            }
            if (!running) {
                S_CHECK(threads_alive() == 1, "a background thread is alive after stop returned");
                long q = peek(src->seq);
                settle();
                S_CHECK(q == peek(src->seq), "upstream was processed after stop returned");
            } else S_CHECK(threads_alive() <= 2, "%d background threads are alive after a restart", threads_alive() - 1);
        }
        mc::note("destroy");
        p.reset();
        S_CHECK(threads_alive() == 1, "a background thread outlives the section");
        mc::outcome(src->seq * 16 + threads_created());
        S = nullptr;
    }, o);
}
}  // namespace
MC_SCENARIO(c02_sequences, 4) { sequences(mc::thorough() ? 5 : 4, 2, 0); }
MC_SCENARIO(c02_sequences_deep_schedules, 4) { sequences(mc::thorough() ? 3 : 2, mc::thorough() ? 5 : 4, 1); }

// a consumer thread waits for blocks while the controller makes requests
static void consumer(int blocks, int requests, int pre, int spur) {
    Probe* S = nullptr;
    Opt o = opts(pre, spur);
    o.observe = [&] { return S ? (uint64_t)peek(S->seq) : 0; };
    sched::run([&] {
        auto src = std::make_unique<Probe>();
        auto p = std::make_unique<ParallelModule>();
        p->link(src.get());
        S = src.get();
        p->max_size(1 + choose(2));
        int n = 1 + choose(blocks);      // blocks the consumer asks for
        int before = choose(2);                           // consumer begins before the section is started
        int ops[3];
        int k = 1 + choose(requests);
        for (int i = 0; i < k; ++i) ops[i] = choose(4);   // stop, start, meta_stop, meta_start
        mc::note("consumer asks for %d, begins %s start, %d requests %d %d", n, before ? "before" : "after", k, ops[0], k > 1 ? ops[1] : -1);
        int done = 0;
        auto body = [&] { for (int i = 0; i < n; ++i) { p->meta_process(); AudioBuffer t = std::move(p->get_buffer()); poke(done, i + 1); } };
        std::thread c;
        if (before) c = std::thread(body);
        p->meta_start();
        if (!before) c = std::thread(body);
        for (int i = 0; i < k; ++i) {
            switch (ops[i]) {
            case 0: p->stop(); break;
            case 1: p->start(); break;
            case 2: p->meta_stop(); break;
            case 3: p->meta_start(); break;
            }
            if (ops[i] == 0 || ops[i] == 2) {
                long q = peek(src->seq);
                settle();
                S_CHECK(q == peek(src->seq), "upstream was processed after stop returned");
                S_CHECK(threads_alive() == 1, "%d threads are alive after stop: the consumer was not released or the worker still runs", threads_alive());
            }
        }
        settle();
        S_CHECK(peek(done) == n, "the consumer waits forever with %d of %d blocks", peek(done), n);
        c.join();
        p.reset();
        S_CHECK(threads_alive() == 1, "a background thread outlives the section");
        mc::outcome(src->seq * 16 + threads_created());
        S = nullptr;
    }, o);
}
MC_SCENARIO(c02_consumer, 5) { consumer(3, 2, mc::thorough() ? 3 : 2, 0); }
MC_SCENARIO(c02_consumer_spurious, 5) { consumer(mc::thorough() ? 3 : 2, mc::thorough() ? 2 : 1, 2, 1); }
MC_SCENARIO(c02_consumer_long, 5) { if (!mc::thorough()) { mc::outcome(0); mc::step(); return; } consumer(3, 3, 2, 0); }

// sections behind sections and side by side: chain-wide requests end as well
MC_SCENARIO(c02_nested, 5) {
    Opt o = opts(mc::thorough() ? 2 : 1);
    sched::run([&] {
        auto s1 = std::make_unique<Probe>();
        auto s2 = std::make_unique<Probe>();
        auto p1 = std::make_unique<ParallelModule>();
        auto p2 = std::make_unique<ParallelModule>();
        auto mix = std::make_unique<ModuleMixDown>();
        auto sink = std::make_unique<SinkModule<>>();
        int shape = choose(2);
        if (shape == 0) sink->link(p1.get())->link(p2.get())->link(s1.get());
        else { sink->link(mix.get()); mix->link(p1.get())->link(s1.get()); mix->link(p2.get())->link(s2.get()); }
        sink->get_chain_info()->buffer_size = 2;
        sink->meta_info_sync();
        int depth = mc::thorough() ? 4 : 3;
        bool running = false;
        for (int d = 0; d < depth; ++d) {
            int op = choose(7);
            static const char* nm[] = {"end", "sink start", "sink stop", "take", "finish", "stop first section", "stop second section"};
            mc::note("%s", nm[op]);
            if (op == 0) break;
            switch (op) {
            case 1: sink->meta_start(); running = true; break;
            case 2: sink->meta_stop(); running = false; break;
            case 3: sink->meta_process(); break;
            case 4: sink->meta_finish(); break;
            case 5: p1->stop(); break;
            case 6: p2->stop(); break;
            }
            if (!running) S_CHECK(threads_alive() == 1, "%d background threads are alive after stop returned", threads_alive() - 1);
        }
        bool order = choose(2);
        mc::note("destroy %d", order);
        if (order) {
            if (shape == 0) p1->stop();    // destroying what a running section works on is a misuse
            p2.reset();
        }
        p1.reset();
        p2.reset();
        S_CHECK(threads_alive() == 1, "%d background threads outlive their sections", threads_alive() - 1);
        mc::outcome(s1->seq * 64 + s2->seq * 8 + threads_created());
    }, o);
}
