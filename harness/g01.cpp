// G01: all views of an audio buffer agree on which sample is where
#include "audio_buffer.hpp"
#include "mc.hpp"
#include "scale.hpp"
using namespace mc;

template <class Buf> struct Check {
    Buf b;
    int C, F, n;
    std::vector<double> model;  // storage order: model[c + C*s]
    Check(Buf&& bb, int c, int f) : b(std::move(bb)), C(c), F(f), n(c * f), model(n) {
        for (int i = 0; i < n; ++i) { model[i] = 100 + i; b.at(i) = model[i]; }
    }
    int seqpos(int i) const { int c = i / F, s = i % F; return c + C * s; }
    void verify(const char* what) {
        MC_CHECK((int)b.size() == n, "%s: size %zu want %d", what, b.size(), n);
        for (int i = 0; i < n; ++i) MC_CHECK(b.at(i) == model[i], "%s: storage[%d]=%g want %g", what, i, b.at(i), model[i]);
    }
    void traversals() {
        step();
        const Buf& cb = b;
        MC_CHECK((int)b.channels() == C, "channels");
        MC_CHECK((int)b.channel_capacity() == F, "frames per channel %zu want %d", b.channel_capacity(), F);
        for (int s = 0; s < F; ++s)
            for (int c = 0; c < C; ++c) {
                MC_CHECK(b.at(c, s) == model[c + C * s], "at(%d,%d)=%g", c, s, b.at(c, s));
                MC_CHECK(cb.at(c, s) == model[c + C * s], "const at(%d,%d)", c, s);
                MC_CHECK(&b.at(c, s) == &b.at(c + C * s), "at(ch,s) not an alias of at(i)");
                step();
            }
        auto inter = [&](auto it, auto end, const char* w) {
            int i = 0;
            for (; it != end; ++it, ++i) {
                MC_CHECK(i < n, "%s visits more than %d samples", w, n);
                MC_CHECK(*it == model[i], "%s[%d]=%g want %g", w, i, *it, model[i]);
                MC_CHECK(it.get_index() == i && it.get_channel() == i % C && it.get_sample() == i / C, "%s[%d] reports ch %d s %d", w, i, it.get_channel(), it.get_sample());
                step();
            }
            MC_CHECK(i == n, "%s visits %d of %d", w, i, n);
        };
        inter(b.ibegin(), b.iend(), "interleaved");
        inter(b.begin(), b.end(), "default");
        inter(cb.icbegin(), cb.icend(), "const interleaved");
        auto seq = [&](auto it, auto end, const char* w) {
            int i = 0;
            for (; it != end; ++it, ++i) {
                MC_CHECK(i < n, "%s visits more than %d samples", w, n);
                MC_CHECK(*it == model[seqpos(i)], "%s[%d]=%g want %g", w, i, *it, model[seqpos(i)]);
                MC_CHECK(it.get_index() == i && it.get_channel() == i / F && it.get_sample() == i % F, "%s[%d] reports ch %d s %d", w, i, it.get_channel(), it.get_sample());
                step();
            }
            MC_CHECK(i == n, "%s visits %d of %d", w, i, n);
        };
        seq(b.sbegin(), b.send(), "sequential");
        seq(cb.scbegin(), cb.scend(), "const sequential");
        int i = n;
        for (auto it = b.irbegin(); it != b.irend(); ++it) { --i; MC_CHECK(i >= 0 && *it == model[i], "reverse interleaved at %d", i); step(); }
        MC_CHECK(i == 0, "reverse interleaved visits %d", n - i);
        i = n;
        for (auto it = b.srbegin(); it != b.srend(); ++it) { --i; MC_CHECK(i >= 0 && *it == model[seqpos(i)], "reverse sequential at %d", i); step(); }
        MC_CHECK(i == 0, "reverse sequential visits %d", n - i);
        // standard algorithms over the views
        std::vector<double> v(n, 0);
        std::copy(b.ibegin(), b.iend(), v.begin());
        for (int k = 0; k < n; ++k) MC_CHECK(v[k] == model[k], "std::copy interleaved [%d]", k);
        std::fill(v.begin(), v.end(), 0);
        std::copy(b.sbegin(), b.send(), v.begin());
        for (int k = 0; k < n; ++k) MC_CHECK(v[k] == model[seqpos(k)], "std::copy sequential [%d]", k);
        verify("after traversals");
    }
    void writes(int way, int pos) {
        step();
        double w = 7777;
        int at = way == 1 || way == 3 ? seqpos(pos) : pos;
        switch (way) {
            case 0: *(b.ibegin() + pos) = w; break;
            case 1: *(b.sbegin() + pos) = w; break;
            case 2: { auto it = b.ibegin(); it[pos] = w; break; }
            case 3: { auto it = b.sbegin(); it[pos] = w; break; }
            case 4: b.at(pos) = w; break;
            case 5: b.at(pos % C, pos / C) = w; break;
            case 6: { auto it = b.irbegin(); for (int k = 0; k < n - 1 - pos; ++k) ++it; *it = w; break; }
            case 7: { auto it = b.begin(); it += pos; *it = w; break; }
        }
        model[at] = w;
        verify("after write");
        traversals();
        std::copy_n(model.begin(), n, b.sbegin());  // sequential fill of the whole buffer
        for (int k = 0; k < n; ++k) MC_CHECK(b.at(seqpos(k)) == model[k], "sequential fill [%d]", k);
    }
    template <class It> void move(It begin, int p, int q, int kind, bool sequential) {
        auto val = [&](int i) { return sequential ? model[seqpos(i)] : model[i]; };
        It it = begin;
        it += p;
        int d = q - p;
        step();
        switch (kind) {
            case 0: it += d; break;
            case 1: it -= -d; break;
            case 2: it = it + d; break;
            case 3: it = it - (-d); break;
            case 4: if (d >= 0) it += (unsigned int)d; else it -= -d; break;
            case 5: if (d >= 0) it += (long unsigned int)d; else it -= -d; break;
            case 6: it += (int64_t)d; break;
            case 7: while (d > 0) { ++it; --d; } while (d < 0) { --it; ++d; } break;
            case 8: while (d > 0) { int o = it.get_index(); It old = it++; MC_CHECK(old.get_index() == o, "post++ value"); --d; }
                    while (d < 0) { int o = it.get_index(); It old = it--; MC_CHECK(old.get_index() == o, "post-- value"); ++d; } break;
            case 9: it.set_index(q); break;
            case 10: it = it + (int64_t)d; break;
            case 11: if (d >= 0) it = it + (unsigned int)d; else it = it - (-d); break;
        }
        MC_CHECK(it.get_index() == q && (int)it == q, "move %d->%d kind %d ended at %d", p, q, kind, it.get_index());
        if (q < n) MC_CHECK(*it == val(q), "after move %d->%d kind %d: value %g want %g", p, q, kind, *it, val(q));
        if (q < n) MC_CHECK(it[q] == val(q), "subscript %d", q);
        It a = begin; a.set_index(p);
        MC_CHECK((a == it) == (p == q) && (a != it) == (p != q) && (a < it) == (p < q) && (a > it) == (p > q) && (a <= it) == (p <= q) && (a >= it) == (p >= q),
                 "comparison of positions %d and %d", p, q);
        MC_CHECK((int)(it - a) == q - p, "distance %d", (int)(it - a));
        if (q < n && p < n) {  // a copy keeps its own position
            It c = it; ++c;
            MC_CHECK(*it == val(q), "copying an iterator moved the original");
        }
        verify("after moves");
    }
    void seeks(int c, int s) {
        step();
        auto si = b.sbegin();
        si.set_position(c, s);
        MC_CHECK(*si == model[c + C * s] && si.get_channel() == c && si.get_sample() == s && si.get_index() == c * F + s, "sequential set_position(%d,%d)", c, s);
        auto ii = b.ibegin();
        ii.set_position(c, s);
        MC_CHECK(*ii == model[c + C * s] && ii.get_channel() == c && ii.get_sample() == s && ii.get_index() == c + C * s, "interleaved set_position(%d,%d)", c, s);
        si.set_channel(c);
        MC_CHECK(*si == model[c] && si.get_index() == c * F, "set_channel(%d)", c);
        ii.set_sample(s);
        MC_CHECK(*ii == model[C * s] && ii.get_index() == C * s, "set_sample(%d)", s);
        const Buf& cb = b;
        auto cs = cb.scbegin();
        cs.set_position(c, s);
        MC_CHECK(*cs == model[c + C * s], "const set_position");
        auto ci = cb.icbegin();
        ci.set_position(c, s);
        MC_CHECK(*ci == model[c + C * s], "const interleaved set_position");
    }
    void go() {
        { Hash h; h << C << F << typeid(Buf).name(); state(h.get()); }
        int mode = n ? choose(4) : 0;
        if (mode == 0) { addlabel(" traversals"); traversals(); }
        else if (mode == 1) {
            int way = choose(8), pos = choose(n);
            addlabel(" write way=%d pos=%d", way, pos);
            writes(way, pos);
        } else if (mode == 2) {
            int p = choose(n + 1), q = choose(n + 1), kind = choose(12);
            addlabel(" move %d->%d kind=%d", p, q, kind);
            { Hash h; h << C << F << p << q << kind; state(h.get()); }
            const Buf& cb = b;
            move(b.ibegin(), p, q, kind, false);
            move(b.sbegin(), p, q, kind, true);
            (void)cb;
        } else {
            int c = choose(C), s = choose(F);
            addlabel(" seek c=%d s=%d", c, s);
            { Hash h; h << C << F << c << s << 99; state(h.get()); }
            seeks(c, s);
        }
        Hash h;
        h << model;
        outcome(h.get());
    }
};

MC_SCENARIO(dynamic_buffer, 3) {
    int C = range(1, thorough() ? 6 : 4), F = range(0, thorough() ? 6 : 4);
    label("dynamic C=%d F=%d", C, F);
    Check<AudioBuffer> c(AudioBuffer(F, C), C, F);
    c.go();
}
MC_SCENARIO(dynamic_buffer_int16, 3) {
    int C = range(1, 3), F = range(0, 3);
    label("int16 C=%d F=%d", C, F);
    Check<dsp::buff::Buffer<int16_t>> c(dsp::buff::Buffer<int16_t>(F, C), C, F);
    c.go();
}
MC_SCENARIO(resized_buffer, 3) {  // shape reached by editing rather than construction
    int C = range(1, 3), F = range(0, 3);
    label("resized C=%d F=%d", C, F);
    AudioBuffer b;
    b.set_channels(C);
    b.resize(C * F);
    Check<AudioBuffer> c(std::move(b), C, F);
    c.go();
}
template <int N> static void stat() {
    std::vector<int> divs;
    for (int c = 1; c <= N; ++c) if (N % c == 0) divs.push_back(c);
    int C = pick(divs);
    label("static N=%d C=%d", N, C);
    dsp::buff::StaticBuffer<double, N> b(C, 8000.);
    MC_CHECK(b.get_samplerate() == 8000., "sample rate");
    Check<dsp::buff::StaticBuffer<double, N>> c(std::move(b), C, N / C);
    c.go();
}
MC_SCENARIO(static_buffer, 3) {
    switch (choose(4)) { case 0: stat<1>(); break; case 1: stat<4>(); break; case 2: stat<6>(); break; default: stat<12>(); }
}
// any size: traversals, and moves, writes and seeks around the edges
MC_SCENARIO(scale_shapes, 3) {
    auto g = scale::shape(thorough() ? 70000 : 6000, 1);
    int C = g.chans, F = g.frames, n = C * F;
    int mode = choose(4);
    label("dynamic C=%d F=%d mode %d", C, F, mode);
    Check<AudioBuffer> c(AudioBuffer(F, C), C, F);
    std::vector<int> P{0, 1, C - 1, C, F - 1, F, n / 2, n - 1};
    for (int& p : P) p = std::max(0, std::min(p, n - 1));
    if (mode == 0) c.traversals();
    else if (mode == 1) { int p = P[choose((int)P.size())]; c.writes(choose(8), p); }
    else if (mode == 2) { int kind = choose(12); P.push_back(n); for (int p : P) for (int q : P) { if (n > 3000 && (kind == 7 || kind == 8) && std::abs(p - q) > 2000) continue; 
        auto it = c.b.ibegin(); (void)it; if ((long)p * q % 3 && n > 20000) continue; c.move(c.b.ibegin(), p, q, kind, false); c.move(c.b.sbegin(), p, q, kind, true); } }
    else for (int a : {0, 1, C / 2, C - 1}) for (int s : {0, 1, F / 2, F - 1}) { a = std::min(a, C - 1); c.seeks(a, s); }
    outcome((Hash() << C << F << mode).get());
}
