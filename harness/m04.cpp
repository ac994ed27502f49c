// M04: amplitude modules scale or offset every sample and nothing else.
#include "mc.hpp"
#include "scale.hpp"
#include "amp_module.hpp"
#include "meta_audio.hpp"
#include "sink_module.hpp"
#include <cmath>
#include <functional>
#include <memory>
using namespace mc;
namespace {
struct Src : SourceModule {
    int frames = 1, ch = 1, runs = 0; double rate = 8000; std::vector<double> last;
    void process() override {
        static const double vals[] = {0.5, -1, 0, 1e-300, 3.25, -0.0, 1e300, -0.125};
        AudioBuffer b; b.set_channels(ch); b.set_samplerate(rate); b.resize(frames * ch); last.clear();
        for (int i = 0; i < frames * ch; ++i) { b.at(i) = vals[(runs * 5 + i) % 8]; last.push_back(b.at(i)); }
        ++runs; set_buffer(std::move(b));
    }
};
void result(AudioBuffer b, const Src& s, const std::vector<std::pair<bool, double>>& ops) {
    MC_CHECK(b.size() == s.last.size() && b.channels() == s.ch && b.get_samplerate() == s.rate, "block of %zu samples, %d channels at %g; the input had %zu, %d at %g", b.size(), b.channels(), b.get_samplerate(), s.last.size(), s.ch, s.rate);
    for (size_t i = 0; i < s.last.size(); ++i) {
        double v = s.last[i]; for (auto& o : ops) v = o.first ? v * o.second : v + o.second;
        MC_CHECK(b.at(i) == v || (std::isnan(v) && std::isnan(b.at(i))), "sample %zu is %.17g, expected %.17g (input %.17g)", i, b.at(i), v, s.last[i]);
    }
}
double value() { return pick({0., 1., -1., 0.5, 2., -3.75, 1e10, 1e-10}); }
// type-erased amplitude module
struct Amp { BaseModule* m; bool scale; std::function<void(double)> set; std::function<double()> get; double v; };
template <class T> Amp wrap(T* p, bool scale, double v) { return {p, scale, [p](double x) { p->set_value(x); }, [p] { return p->get_value(); }, v}; }
}

MC_SCENARIO(values, 3) {
    Src s; s.ch = range(1, thorough() ? 6 : 4); s.frames = range(0, thorough() ? 9 : 5); bool scale = flip(); double v = value(); bool ctor = flip();
    AmplitudeScale<> a = ctor ? AmplitudeScale<>(v) : AmplitudeScale<>(); AmplitudeAdd<> b = ctor ? AmplitudeAdd<>(v) : AmplitudeAdd<>();
    AmplitudeScale<Src> ea; AmplitudeAdd<Src> eb; bool emb = flip();
    Amp m = emb ? (scale ? wrap(&ea, true, v) : wrap(&eb, false, v)) : scale ? wrap(&a, true, v) : wrap(&b, false, v);
    Src* src = emb ? (scale ? &ea.backward() : &eb.backward()) : &s;
    if (emb) { src->ch = s.ch; src->frames = s.frames; } else m.m->link(src);
    label("scale=%d channels=%d frames=%d value=%g embedded=%d", scale, s.ch, s.frames, v, emb);
    if (!ctor || emb) m.set(v);
    for (int i = 0; i < 3; ++i) {
        MC_CHECK(m.get() == v, "value %g, configured %g", m.get(), v);
        m.m->meta_process(); step();
        MC_CHECK(src->runs == i + 1, "upstream was run %d times in %d passes", src->runs, i + 1);
        result(m.m->get_buffer(), *src, {{scale, v}});
        if (i == 0 && flip()) { v = value(); m.set(v); }
    }
    outcome((Hash() << scale << v << s.ch << s.frames << emb).get());
}
// cascades of up to 3 modules, values changed between passes
MC_SCENARIO(cascades, 4) {
    std::vector<std::unique_ptr<BaseModule>> own; std::vector<Amp> amps; Src* src = nullptr; std::unique_ptr<Src> sp;
    auto keep = [&](auto* p) { own.emplace_back(p); return p; };
    int n = range(1, 3); std::string d; BaseModule* prev = nullptr;
    auto linkto = [&](BaseModule* m) { if (prev) prev->link(m); prev = m; };
    bool closed = false;
    while ((int)amps.size() < n && !closed) {
        double v = 0.5 + amps.size();
        switch (choose(7)) {
        case 0: { auto* p = keep(new AmplitudeScale<>(v)); linkto(p); amps.push_back(wrap(p, true, v)); d += "S"; break; }
        case 1: { auto* p = keep(new AmplitudeAdd<>(v)); linkto(p); amps.push_back(wrap(p, false, v)); d += "A"; break; }
        case 2: { auto* p = keep(new AmplitudeScale<AmplitudeAdd<>>(v)); linkto(p); amps.push_back(wrap(p, true, v)); auto* q = &p->backward(); q->set_value(v + 1); amps.push_back(wrap(q, false, v + 1)); prev = q; d += "S!A"; break; }
        case 3: { auto* p = keep(new AmplitudeAdd<AmplitudeScale<>>(v)); linkto(p); amps.push_back(wrap(p, false, v)); auto* q = &p->backward(); q->set_value(v + 1); amps.push_back(wrap(q, true, v + 1)); prev = q; d += "A!S"; break; }
        case 4: { auto* p = keep(new AmplitudeScale<Src>(v)); linkto(p); amps.push_back(wrap(p, true, v)); src = &p->backward(); closed = true; d += "S!"; break; }
        case 5: { auto* p = keep(new AmplitudeAdd<AmplitudeScale<Src>>(v)); linkto(p); amps.push_back(wrap(p, false, v)); auto* q = &p->backward(); q->set_value(v + 1); amps.push_back(wrap(q, true, v + 1)); src = &q->backward(); closed = true; d += "A!S!"; break; }
        case 6: { auto* p = keep(new Counter); linkto(p); d += "."; if (d.size() > 4) prune(); break; }
        }
    }
    if (!closed) { sp = std::make_unique<Src>(); src = sp.get(); linkto(src); }
    src->ch = range(1, 2); src->frames = range(0, 2);
    label("%s channels=%d frames=%d", d.c_str(), src->ch, src->frames);
    BaseModule* front = own[0].get();
    for (int i = 0; i < (thorough() ? 3 : 2); ++i) {
        int c = choose((int)amps.size() + 1);
        if (c < (int)amps.size()) { amps[c].v = pick({-2., 0.25}); amps[c].set(amps[c].v); }
        front->meta_process(); step();
        std::vector<std::pair<bool, double>> ops; for (auto it = amps.rbegin(); it != amps.rend(); ++it) ops.push_back({it->scale, it->v});
        result(front->get_buffer(), *src, ops);
        for (auto& a : amps) MC_CHECK(a.get() == a.v, "value %g, configured %g", a.get(), a.v);
    }
    outcome((Hash() << d << src->ch << src->frames).get());
}
// in a synchronised chain with start and stop in between
MC_SCENARIO(sessions, 3) {
    SinkModule<> sink; AmplitudeScale<> a(2); AmplitudeAdd<> b(1); ConstModule c(0.25); double va = 2, vb = 1;
    sink.link(&a)->link(&b)->link(&c); int ch = 1, n = 2; auto* ci = sink.get_chain_info(); ci->buffer_size = n; sink.meta_info_sync();
    for (int d = thorough() ? 7 : 6; d--;) {
        switch (choose(6)) {
        case 0: sink.meta_start(); break;
        case 1: sink.meta_stop(); break;
        case 2: a.set_value(va = va + 0.5); break;
        case 3: b.set_value(vb = -vb); break;
        case 4: ch = ch % 3 + 1; n = (n + 1) % 4; ci->channels = ch; ci->buffer_size = n; sink.meta_info_sync(); break;
        case 5: {
            sink.meta_process(); AudioBuffer o = sink.get_buffer();
            MC_CHECK((int)o.size() == n * ch && o.channels() == ch, "block of %zu samples and %d channels", o.size(), o.channels());
            for (size_t i = 0; i < o.size(); ++i) MC_CHECK(o.at(i) == (0.25 + vb) * va, "sample %zu is %g, expected %g", i, o.at(i), (0.25 + vb) * va); }
        }
        step(); state((Hash() << ch << n << va << vb).get());
        MC_CHECK(a.get_value() == va && b.get_value() == vb, "values %g, %g, configured %g, %g", a.get_value(), b.get_value(), va, vb);
    }
    outcome((Hash() << ch << n << va << vb).get());
}
// any block size and channel count, long cascades
MC_SCENARIO(scale_blocks, 3) {
    auto g = scale::shape(thorough() ? 140000 : 20000, 2);
    Src s; s.ch = g.chans; s.frames = g.frames; s.rate = 96000; int kind = choose(4);
    label("%d frames, %d channels, kind %d", g.frames, g.chans, kind);
    std::vector<std::pair<bool, double>> ops; double v = pick({-3.75, 0.1, 0.0});
    AudioBuffer out;
    AmplitudeScale<> a; AmplitudeAdd<> b; AmplitudeScale<Src> ea; AmplitudeAdd<AmplitudeScale<Src>> eb;
    BaseModule* f; Src* src = &s;
    a.set_value(v); b.set_value(v); ea.set_value(v); eb.set_value(v); eb.backward().set_value(2);
    if (kind == 0) { a.link(&s); f = &a; ops = {{true, v}}; } else if (kind == 1) { b.link(&s); f = &b; ops = {{false, v}}; }
    else if (kind == 2) { f = &ea; src = &ea.backward(); ops = {{true, v}}; } else { f = &eb; src = &eb.backward().backward(); ops = {{true, 2.0}, {false, v}}; }
    src->ch = g.chans; src->frames = g.frames; src->rate = 96000;
    for (int i = 0; i < 2; ++i) { f->meta_process(); step(); result(f->get_buffer(), *src, ops); }
    outcome((Hash() << g.frames << g.chans << kind << v).get());
}
MC_SCENARIO(scale_cascade, 1) {
    int n = pick({4, 8, 9, 17, 33, 100, 257}); Src s; s.ch = 2; s.frames = 4;
    std::vector<std::unique_ptr<BaseModule>> own; std::vector<std::pair<bool, double>> ops;
    for (int i = 0; i < n; ++i) {
        double v = i % 2 ? 1.0 + 1.0 / (i + 2) : i * 0.5 - 3;
        if (i % 2) own.emplace_back(new AmplitudeScale<>(v)); else own.emplace_back(new AmplitudeAdd<>(v));
        ops.push_back({i % 2 == 1, v});
        own[i]->link(i ? own[i - 1].get() : (BaseModule*)&s);
    }
    label("cascade of %d", n);
    for (int p = 0; p < 3; ++p) { own.back()->meta_process(); step(); MC_CHECK(s.runs == p + 1, "source ran %d times", s.runs); result(own.back()->get_buffer(), s, ops); }
    outcome(n);
}
