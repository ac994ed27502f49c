// Shared parts of the C checks: an upstream module that watches itself.
#pragma once
#include "parallel.hpp"
#include "source_module.hpp"
#include "sink_module.hpp"
#include "amp_module.hpp"
#include "meta_audio.hpp"
#include "module_mixer.hpp"
#include "sched.hpp"
#include <memory>
#include <thread>
#include <vector>
namespace par {
using namespace sched;
// plain reads of shared counters by the harness itself are not accesses of the program
template <class T> __attribute__((no_sanitize("thread"), noinline)) T peek(const T& v) { return v; }
template <class T> __attribute__((no_sanitize("thread"), noinline)) void poke(T& v, T x) { v = x; }
inline double value(long seq, int i) { return double(seq) * 16 + i; }

struct Probe : SourceModule {
    long seq = 0;              // blocks completed
    int frames = 2, chans = 1; // what is produced
    int inside = 0;            // somebody is inside one of the hooks
    int running = 0;           // started and not stopped since
    bool need_start = false;   // processing is only legal while running
    int starts = 0, stops = 0, finishes = 0, syncs = 0;
    int defer = -1;            // finish: done() is reported by the defer-th block after it (-1: at once)
    int left = -1;
    void enter(const char* w) {
        int o = peek(inside);
        S_CHECK(o == 0, "%s of an upstream module runs while another thread is inside it", w);
        poke(inside, 1);
        point();
    }
    void leave() { poke(inside, 0); }
    void process() override {
        enter("processing");
        if (need_start) S_CHECK(running, "an upstream module is processed although it is stopped");
        this->reserve(frames, chans);
        for (int i = 0; i < frames * chans; ++i) this->buff.at(i) = value(seq, i);
        if (left > 0 && --left == 0) this->done();
        ++seq;
        leave();
    }
    void start() override { enter("start"); running = 1; ++starts; SourceModule::start(); leave(); }
    void stop() override { enter("stop"); running = 0; ++stops; SourceModule::stop(); leave(); }
    void finish() override { enter("finish"); ++finishes; if (defer < 0) done(); else if (defer == 0) done(); else left = defer; leave(); }
    void info_sync() override { enter("info sync"); ++syncs; SourceModule::info_sync(); leave(); }
};
// the sequence number of a delivered block; checks that it is whole
inline long seq_of(AudioBuffer&& b, int frames = 2, int chans = 1) {
    AudioBuffer t = std::move(b);
    S_CHECK((int)t.size() == frames * chans, "a block of %zu samples was delivered, produced were %d", t.size(), frames * chans);
    S_CHECK((int)t.channels() == chans, "a block with %d channels was delivered, produced were %d", (int)t.channels(), chans);
    long q = (long)(t.at(0) / 16);
    for (int i = 0; i < frames * chans; ++i)
        S_CHECK(t.at(i) == value(q, i), "a torn block was delivered: sample %d is %g in a block that begins with %g", i, t.at(i), t.at(0));
    return q;
}
}  // namespace par
