// C03: upstream of a parallel section is touched by one thread at a time.
// The probe reports overlapping hooks and processing while stopped; the runtime reports
// every pair of accesses to the same memory that is not ordered by synchronisation.
#include "par.hpp"
using namespace par;
namespace {
Opt opts(int pre, int spur = 0) { Opt o; o.preemptions = pre; o.spurious = spur; return o; }
// an ordinary upstream module that watches itself
struct Mid : AudioModule<> {
    int inside = 0, running = 0, starts = 0, stops = 0, finishes = 0;
    void enter(const char* w) {
        S_CHECK(peek(inside) == 0, "%s of an upstream module runs while another thread is inside it", w);
        poke(inside, 1);
        point();
    }
    void process() override {
        enter("processing");
        S_CHECK(running, "an upstream module is processed although it is stopped");
        for (auto& x : this->buff) x += 1;
        poke(inside, 0);
    }
    void start() override { enter("start"); running = 1; ++starts; AudioModule<>::start(); poke(inside, 0); }
    void stop() override { enter("stop"); running = 0; ++stops; AudioModule<>::stop(); poke(inside, 0); }
    void finish() override { enter("finish"); ++finishes; AudioModule<>::finish(); poke(inside, 0); }
    void info_sync() override { enter("info sync"); AudioModule<>::info_sync(); poke(inside, 0); }
};

// every sequence of chain-wide requests, made at the sink or at the section
void requests(int depth, int pre, bool mid) {
    Probe* S = nullptr;
    Opt o = opts(pre);
    o.observe = [&] { return S ? (uint64_t)peek(S->seq) : 0; };
    sched::run([&] {
        auto src = std::make_unique<Probe>();
        src->need_start = true;
        S = src.get();
        auto m = std::make_unique<Mid>();
        auto amp = std::make_unique<AmplitudeScale<>>(1);
        auto p = std::make_unique<ParallelModule>();
        auto sink = std::make_unique<SinkModule<>>();
        if (mid) sink->link(amp.get())->link(p.get())->link(m.get())->link(src.get());
        else sink->link(p.get())->link(src.get());
        int mods = mid ? 5 : 3;
        sink->meta_info_sync();
        p->max_size(1 + choose(2));
        bool atsink = choose(2);
        auto& top = atsink ? static_cast<BaseModule&>(*sink) : static_cast<BaseModule&>(*p);
        mc::note("requests at the %s", atsink ? "sink" : "section");
        bool running = false;
        int starts = 0, stops = 0, fins = 0;
        for (int d = 0; d < depth; ++d) {
            int op = choose(8);
            static const char* nm[] = {"end", "start", "stop", "finish", "info sync", "take", "change settings", "rest"};
            mc::note("%s", nm[op]);
            if (op == 0) break;
            switch (op) {
            case 1: top.meta_start(); running = true; ++starts; break;
            case 2: top.meta_stop(); running = false; ++stops; break;
            case 3: top.meta_finish(); ++fins; break;
            case 4: sink->meta_info_sync(); break;
            case 5: top.meta_process(); break;
            case 6: sink->get_chain_info()->buffer_size = 7; sink->get_chain_info()->sample_rate = 8000; top.meta_info_sync(); break;
            case 7: settle(); break;
            }
            if (op == 2) {
                S_CHECK(threads_alive() == 1, "the background thread is alive after the chain was stopped");
                S_CHECK(src->running == 0 && (!mid || m->running == 0), "an upstream module is not stopped");
            }
            S_CHECK(peek(src->starts) == starts && peek(src->stops) == stops && peek(src->finishes) == fins, "upstream saw %d starts, %d stops, %d finishes; %d, %d, %d were requested", peek(src->starts), peek(src->stops), peek(src->finishes), starts, stops, fins);
        }
        top.meta_stop();
        int want = fins * (atsink ? mods : mods - (mid ? 2 : 1));
        S_CHECK(sink->get_chain_info()->module_finish == want, "%d modules reported to be done, %d did", sink->get_chain_info()->module_finish, want);
        long q = src->seq;
        p.reset();
        S_CHECK(q == src->seq, "upstream was processed after the stop");
        mc::outcome(src->seq * 64 + starts * 8 + stops);
        S = nullptr;
    }, o);
}
}  // namespace
MC_SCENARIO(c03_requests, 5) { requests(mc::thorough() ? 5 : 4, 2, false); }
MC_SCENARIO(c03_requests_long_chain, 5) { requests(mc::thorough() ? 4 : 3, 2, true); }
MC_SCENARIO(c03_requests_deep_schedules, 4) { requests(mc::thorough() ? 3 : 2, mc::thorough() ? 4 : 3, false); }

// a consumer thread of its own takes blocks from the section while the controller makes requests
MC_SCENARIO(c03_consumer, 5) {
    Probe* S = nullptr;
    Opt o = opts(mc::thorough() ? 3 : 2);
    o.observe = [&] { return S ? (uint64_t)peek(S->seq) : 0; };
    sched::run([&] {
        auto src = std::make_unique<Probe>();
        src->need_start = true;
        S = src.get();
        auto p = std::make_unique<ParallelModule>();
        auto sink = std::make_unique<SinkModule<>>();
        sink->link(p.get())->link(src.get());
        sink->meta_info_sync();
        p->max_size(1 + choose(2));
        int n = 1 + choose(2), k = 1 + choose(mc::thorough() ? 3 : 2), ops[3];
        for (int i = 0; i < k; ++i) ops[i] = choose(5);
        p->meta_start();
        std::thread c([&] { for (int i = 0; i < n; ++i) { p->meta_process(); AudioBuffer t = std::move(p->get_buffer()); } });
        for (int i = 0; i < k; ++i) switch (ops[i]) {
            case 0: p->meta_stop(); S_CHECK(src->running == 0, "upstream is not stopped"); break;
            case 1: p->meta_start(); break;
            case 2: p->meta_finish(); break;
            case 3: p->meta_info_sync(); break;
            case 4: (void)p->size(); p->max_size(3); (void)p->max_size(); break;
        }
        p->meta_stop();
        c.join();
        p.reset();
        mc::outcome(src->seq * 8 + src->starts);
        S = nullptr;
    }, o);
}

// modules that are done only some blocks after the finish request: every one is counted
MC_SCENARIO(c03_deferred_done, 5) {
    Opt o = opts(mc::thorough() ? 4 : 3);
    sched::run([&] {
        auto s1 = std::make_unique<Probe>();
        auto p = std::make_unique<ParallelModule>();
        auto amp = std::make_unique<AmplitudeScale<>>(1);
        auto sink = std::make_unique<SinkModule<>>();
        sink->link(amp.get())->link(p.get())->link(s1.get());
        sink->meta_info_sync();
        s1->defer = 1 + choose(2);
        p->max_size(1 + choose(2));
        int pre = choose(2), post = s1->defer + 2;
        sink->meta_start();
        for (int i = 0; i < pre; ++i) sink->meta_process();
        sink->meta_finish();
        for (int i = 0; i < post; ++i) sink->meta_process();
        sink->meta_stop();
        int n = sink->get_chain_info()->module_finish;
        S_CHECK(n == 4, "%d of 4 modules were counted as done", n);
        mc::outcome(s1->seq);
    }, o);
}

// sections in a row: requests reach a module behind two sections
MC_SCENARIO(c03_nested, 5) {
    Opt o = opts(mc::thorough() ? 2 : 1);
    sched::run([&] {
        auto s1 = std::make_unique<Probe>();
        s1->need_start = true;
        auto m = std::make_unique<Mid>();
        auto p1 = std::make_unique<ParallelModule>();
        auto p2 = std::make_unique<ParallelModule>();
        auto sink = std::make_unique<SinkModule<>>();
        sink->link(p1.get())->link(m.get())->link(p2.get())->link(s1.get());
        sink->meta_info_sync();
        int depth = mc::thorough() ? 4 : 3;
        sink->meta_start();
        for (int d = 0; d < depth; ++d) {
            int op = choose(6);
            static const char* nm[] = {"end", "start", "stop", "finish", "info sync", "take"};
            mc::note("%s", nm[op]);
            if (op == 0) break;
            switch (op) {
            case 1: sink->meta_start(); break;
            case 2: sink->meta_stop(); S_CHECK(threads_alive() == 1, "background threads are alive after the chain was stopped"); break;
            case 3: sink->meta_finish(); break;
            case 4: sink->meta_info_sync(); break;
            case 5: sink->meta_process(); break;
            }
        }
        sink->meta_stop();
        S_CHECK(s1->running == 0 && m->running == 0, "an upstream module is not stopped");
        mc::outcome(s1->seq);
    }, o);
}

// a long session: the section's storage has been used for many blocks
MC_SCENARIO(c03_long, 5) {
    Probe* S = nullptr;
    Opt o = opts(mc::thorough() ? 2 : 1); o.max_ops = 2000000;
    o.observe = [&] { return S ? (uint64_t)peek(S->seq) : 0; };
    sched::run([&] {
        auto src = std::make_unique<Probe>();
        src->need_start = true;
        S = src.get();
        auto p = std::make_unique<ParallelModule>();
        auto sink = std::make_unique<SinkModule<>>();
        sink->link(p.get())->link(src.get());
        sink->meta_info_sync();
        static const int lim[] = {1, 3, 40};
        int limit = lim[choose(3)], n = mc::thorough() ? 60 : 140, ask = choose(2);
        mc::label("limit %d, %d blocks%s", limit, n, ask ? ", asking for the size" : "");
        p->max_size(limit);
        p->meta_start();
        for (int i = 0; i < n; ++i) {
            p->meta_process();
            long q = seq_of(p->get_buffer());
            S_CHECK(q == i, "block %ld was delivered, block %d was due", q, i);
            if (ask && i % 8 == 0) { std::size_t s = p->size(); S_CHECK(s <= (std::size_t)limit, "%zu blocks are cached, the limit is %d", s, limit); }
        }
        p->meta_stop();
        S_CHECK(src->running == 0 && threads_alive() == 1, "the section is not stopped");
        p.reset();
        mc::outcome(src->seq * 8 + limit);
        S = nullptr;
    }, o);
}
