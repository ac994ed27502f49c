// G02: buffers keep their samples and settings through editing, copying and moving
#include <numeric>
#include "audio_buffer.hpp"
#include "mc.hpp"
#include "scale.hpp"
using namespace mc;

struct Model {
    std::vector<double> v;
    int ch = 1;
    double sr = dsp::consts::SAMPLE_RATE;
};
static void same(AudioBuffer& b, const Model& m, const char* who) {
    const AudioBuffer& c = b;
    MC_CHECK(c.size() == m.v.size(), "%s: size %zu want %zu", who, c.size(), m.v.size());
    MC_CHECK((int)c.channels() == m.ch, "%s: channels %zu want %d", who, c.channels(), m.ch);
    MC_CHECK(c.get_samplerate() == m.sr, "%s: sample rate %g want %g", who, c.get_samplerate(), m.sr);
    MC_CHECK(c.channel_capacity() == m.v.size() / m.ch, "%s: frames %zu want %zu", who, c.channel_capacity(), m.v.size() / m.ch);
    for (size_t i = 0; i < m.v.size(); ++i) MC_CHECK(c.at((int)i) == m.v[i], "%s: sample %zu is %g want %g", who, i, c.at((int)i), m.v[i]);
    size_t k = 0;
    for (auto it = b.begin(); it != b.end(); ++it, ++k) MC_CHECK(k < m.v.size() && *it == m.v[k], "%s: iteration at %zu", who, k);
    MC_CHECK(k == m.v.size(), "%s: iteration visits %zu", who, k);
}
static void edit_history() {
    AudioBuffer A, B;
    Model a, b;
    int depth = thorough() ? 5 : 4;
    label("");
    double fresh = 1;
    for (int d = 0; d < depth; ++d) {
        int op = choose(21);
        step();
        static const char* names[] = {"stop", "A.push", "A.resize3", "A.resize1", "A.clear", "A.assign_vec", "A=B", "B=A", "A=move(B)", "A.copy_ctor", "A.set_ch2", "A.set_sr", "A.write", "A.from_list", "B.ctor(2,2,8000)", "swap", "A.ctor_iters", "A=move(vec)", "A.shrink", "A.assign", "A=A"};
        if (op == 0) break;
        addlabel("%s%s", d ? "," : "", names[op]);
        switch (op) {
            case 1: A.push_back(fresh); a.v.push_back(fresh); fresh += 1; break;
            case 2: A.resize(3); a.v.resize(3); break;
            case 3: A.resize(1); a.v.resize(1); break;
            case 4: A.clear(); a.v.clear(); break;
            case 5: { std::vector<double> x{fresh, fresh + 1, fresh + 2, fresh + 3}; fresh += 4; A = x; a.v = x; break; }
            case 6: A = B; a = b; break;
            case 7: B = A; b = a; break;
            case 8: A = std::move(B); a = b; B = AudioBuffer(1); b = Model{{0.}}; break;
            case 9: { AudioBuffer c(A); same(c, a, "copy"); c.push_back(-1); if (c.size() > 1) c.at(0) = -5; same(A, a, "original after its copy was changed");
                      AudioBuffer e(std::move(A)); same(e, a, "moved-to"); A = std::move(e); break; }
            case 10: A.set_channels(2); a.ch = 2; break;
            case 11: A.set_samplerate(96000.5); a.sr = 96000.5; break;
            case 12: if (!a.v.empty()) { int i = choose((int)a.v.size()); addlabel("%d", i); A.at(i) = fresh; a.v[i] = fresh; fresh += 1; } break;
            case 13: { A = AudioBuffer({fresh, fresh + 1, fresh + 2}, 3, 11025.); a = Model{{fresh, fresh + 1, fresh + 2}, 3, 11025.}; fresh += 3; break; }
            case 14: { B = AudioBuffer(2, 2, 8000.); b = Model{{0, 0, 0, 0}, 2, 8000.}; for (int i = 0; i < 4; ++i) { B.at(i) = fresh; b.v[i] = fresh; fresh += 1; } break; }
            case 15: std::swap(A, B); std::swap(a, b); break;
            case 17: { std::vector<double> x{fresh, fresh + 1, fresh + 2}; a.v = x; fresh += 3; A = std::move(x); break; }
            case 18: A.shrink(); break;
            case 19: { std::vector<double> x{fresh, fresh + 1, fresh + 2, fresh + 3, fresh + 4}; a.v = x; fresh += 5; if (d % 2) A.assign(x); else A.assign(std::move(x)); break; }
            case 20: { AudioBuffer& self = A; A = self; break; }
            case 16: { std::vector<double> x{fresh, fresh + 1}; fresh += 2; A = AudioBuffer(x.begin(), x.end(), 2, 22050.); a = Model{x, 2, 22050.}; break; }
        }
        same(A, a, "A");
        same(B, b, "B");
        A.reserve(a.v.size() + 3);
        same(A, a, "A after reserve");
        B.shrink();
        same(B, b, "B after shrink");
        Hash h; h << a.v << a.ch << a.sr << b.v << b.ch << b.sr;
        state(h.get());
    }
    Hash h; h << a.v << a.ch << b.v;
    outcome(h.get());
}
MC_SCENARIO(editing, 3) { edit_history(); }

MC_SCENARIO(constructors, 3) {
    int kind = choose(8), ch = range(1, 4), fr = range(0, 4);
    double sr = pick({44100., 8000.25});
    label("ctor kind=%d ch=%d frames=%d", kind, ch, fr);
    Model m;
    m.ch = ch; m.sr = sr;
    m.v.resize(ch * fr);
    std::iota(m.v.begin(), m.v.end(), 1.);
    step();
    AudioBuffer b;
    switch (kind) {
        case 0: b = AudioBuffer(fr, ch, sr); std::fill(m.v.begin(), m.v.end(), 0.); break;
        case 1: b = AudioBuffer((std::size_t)fr, ch, sr); std::fill(m.v.begin(), m.v.end(), 0.); break;
        case 2: b = AudioBuffer(m.v, ch, sr); break;
        case 3: b = AudioBuffer(m.v.begin(), m.v.end(), ch, sr); break;
        case 4: { auto p = create_buffer(fr, ch, sr); b = *p; std::fill(m.v.begin(), m.v.end(), 0.); break; }
        case 5: { auto p = create_buffer(fr, ch); b = std::move(*p); m.sr = dsp::consts::SAMPLE_RATE; std::fill(m.v.begin(), m.v.end(), 0.); break; }
        case 6: { AudioBuffer t(m.v, ch, sr); b = AudioBuffer(t.ibegin(), t.iend(), ch, sr); break; }
        case 7: { std::vector<double> x = m.v; b = std::move(x); m.ch = 1; m.sr = dsp::consts::SAMPLE_RATE; break; }
    }
    same(b, m, "constructed");
    Hash h; h << m.v << m.ch << m.sr; state(h.get()); outcome(h.get());
}
MC_SCENARIO(static_buffers, 1) {
    int ch = pick({1, 2, 3, 6});
    label("static ch=%d", ch);
    dsp::buff::StaticBuffer<double, 6> b(ch, 500.), c(1);
    std::vector<double> m(6, 0.);
    for (int d = 0; d < 3; ++d) {
        int op = choose(6);
        addlabel(",%d", op);
        step();
        switch (op) {
            case 0: { int i = choose(6); b.at(i) = 10 * d + i + 1; m[i] = 10 * d + i + 1; break; }
            case 1: c = b; break;
            case 2: { auto t(b); t.at(0) = -1; b = c = b; break; }
            case 3: { std::array<double, 6> x{1, 2, 3, 4, 5, 6}; b = x; m.assign(x.begin(), x.end()); break; }
            case 4: { auto t(std::move(b)); b = std::move(t); break; }
            case 5: std::fill(b.sbegin(), b.send(), 7.); std::fill(m.begin(), m.end(), 7.); break;
        }
        MC_CHECK(b.size() == 6 && (int)b.channels() == ch && b.get_samplerate() == 500. && (int)b.channel_capacity() == 6 / ch, "shape");
        for (int i = 0; i < 6; ++i) MC_CHECK(b.at(i) == m[i], "static sample %d is %g want %g", i, b.at(i), m[i]);
        Hash h; h << ch << m; state(h.get());
    }
    Hash h; h << ch << m; outcome(h.get());
}
MC_SCENARIO(flattening, 2) {
    int ch = range(1, 4), fr = range(0, 4), kind = choose(6);
    label("flatten ch=%d frames=%d kind=%d", ch, fr, kind);
    int n = ch * fr;
    AudioBuffer b(fr, ch);
    std::vector<double> store(n);
    for (int i = 0; i < n; ++i) { store[i] = (i % 2 ? -1. : 1.) * (0.05 * i + 0.01); b.at(i) = store[i]; }
    auto seq = [&](int k) { return store[(k / fr) + ch * (k % fr)]; };
    std::vector<double> od(n, 0.);
    std::vector<int16_t> oi(n, 0);
    std::vector<unsigned char> oc(n, 0);
    step();
    switch (kind) {
        case 0: squish_inter(&b, od.begin(), mf_null); for (int i = 0; i < n; ++i) MC_CHECK(od[i] == store[i], "inter [%d]", i); break;
        case 1: squish_seq(&b, od.begin(), mf_null); for (int i = 0; i < n; ++i) MC_CHECK(od[i] == seq(i), "seq [%d]=%g want %g", i, od[i], seq(i)); break;
        case 2: squish_inter(&b, oi.begin(), mf_int16); for (int i = 0; i < n; ++i) MC_CHECK(oi[i] == mf_int16(store[i]), "inter int16 [%d]", i); break;
        case 3: squish_seq(&b, oi.begin(), mf_int16); for (int i = 0; i < n; ++i) MC_CHECK(oi[i] == mf_int16(seq(i)), "seq int16 [%d]", i); break;
        case 4: squish_inter(&b, oc.begin(), mf_uchar); for (int i = 0; i < n; ++i) MC_CHECK(oc[i] == mf_uchar(store[i]), "inter uchar [%d]", i); break;
        case 5: squish_seq(&b, od.begin(), [](double x) { return 2 * x; }); for (int i = 0; i < n; ++i) MC_CHECK(od[i] == 2 * seq(i), "seq func [%d]", i); break;
    }
    for (int i = 0; i < n; ++i) MC_CHECK(b.at(i) == store[i], "flattening changed the buffer at %d", i);
    Hash h; h << ch << fr << kind; state(h.get()); outcome(h.get());
}
// construction from the values themselves, from pointers and from foreign containers
MC_SCENARIO(values, 1) {
    int kind = choose(12), stat = flip();
    label("values %d %s", kind, stat ? "static" : "dynamic");
    double x[5]; for (double& v : x) v = pick({0.5, -1.0});
    step();
    auto is = [&](auto& b, std::vector<double> w, int ch) {
        MC_CHECK(b.size() == w.size() && (int)b.channels() == ch, "%zu samples in %zu channels, expected %zu in %d", b.size(), (size_t)b.channels(), w.size(), ch);
        for (size_t i = 0; i < w.size(); ++i) MC_CHECK(b.at((int)i) == w[i], "sample %zu is %g, expected %g", i, b.at((int)i), w[i]);
    };
    if (stat) switch (kind) {
    case 0: { dsp::buff::StaticBuffer<double, 2> b(x[0], x[1]); is(b, {x[0], x[1]}, 1); break; }
    case 1: { dsp::buff::StaticBuffer<double, 3> b(x[0], x[1], x[2]); is(b, {x[0], x[1], x[2]}, 1); break; }
    case 2: { dsp::buff::StaticBuffer<double, 4> b(x[0], x[1], x[2], x[3]); is(b, {x[0], x[1], x[2], x[3]}, 1); break; }
    case 3: { dsp::buff::StaticBuffer<double, 3> b(x[0]); is(b, {x[0], 0, 0}, 1); break; }
    default: prune();
    } else switch (kind) {
    case 0: { AudioBuffer b(x[0]); is(b, {x[0]}, 1); break; }
    case 1: { AudioBuffer b(x[0], x[1]); is(b, {x[0], x[1]}, 1); break; }
    case 2: { AudioBuffer b(x[0], x[1], x[2]); is(b, {x[0], x[1], x[2]}, 1); break; }
    case 3: { AudioBuffer b(x[0], x[1], x[2], x[3]); is(b, {x[0], x[1], x[2], x[3]}, 1); break; }
    case 4: { AudioBuffer b(x[0], x[1], x[2], x[3], x[4]); is(b, {x[0], x[1], x[2], x[3], x[4]}, 1); break; }
    case 5: { AudioBuffer b(x[0], x[1], 1); is(b, {x[0], x[1], 1}, 1); break; }
    case 6: { AudioBuffer b({x[0], x[1]}, 2); is(b, {x[0], x[1]}, 2); break; }
    case 7: { AudioBuffer b(&x[0], &x[4], 2, 8000.); is(b, {x[0], x[1], x[2], x[3]}, 2); MC_CHECK(b.get_samplerate() == 8000, "rate"); break; }
    case 8: { const double* p = x; AudioBuffer b(p, p + 3); is(b, {x[0], x[1], x[2]}, 1); break; }
    case 9: { std::array<int, 4> a{1, 2, 3, 4}; AudioBuffer b(a.begin(), a.end(), 2); is(b, {1, 2, 3, 4}, 2); break; }
    case 10: { AudioBuffer t({x[0], x[1], x[2], x[3]}, 2); AudioBuffer b(t.sbegin(), t.send(), 2); is(b, {x[0], x[2], x[1], x[3]}, 2); break; }
    case 11: { dsp::buff::Buffer<float> b(0.5f, -1.f); is(b, {0.5, -1}, 1); dsp::buff::Buffer<int> c(4, 5, 6); is(c, {4, 5, 6}, 1); break; }
    }
    Hash h; for (double v : x) h << v; h << kind << stat; state(h.get()); outcome(h.get());
}
// any size: growing by appending, resizing up and down, copies, conversions
MC_SCENARIO(scale_editing, 3) {
    auto g = scale::shape(thorough() ? 70000 : 6000, 1);
    int n = g.frames * g.chans, how = choose(8);
    double sr = pick({44100.0, 192000.0});
    label("%d frames, %d channels, how %d", g.frames, g.chans, how);
    Model m; m.ch = g.chans; m.sr = sr; m.v.resize(n); std::iota(m.v.begin(), m.v.end(), 1.);
    AudioBuffer b;
    step();
    switch (how) {
    case 0: b.set_channels(g.chans); b.set_samplerate(sr); for (int i = 0; i < n; ++i) { b.push_back(i + 1); if ((i & (i + 1)) == 0) MC_CHECK(b.at(i) == i + 1 && b.at(0) == 1 && (int)b.size() == i + 1, "after appending %d samples", i + 1); } break;
    case 1: { b = AudioBuffer(m.v, g.chans, sr); b.resize(2 * n); MC_CHECK((int)b.size() == 2 * n && b.at(2 * n - 1) == 0, "grown"); b.resize(n); b.shrink(); break; }
    case 2: { b = AudioBuffer(m.v, g.chans, sr); b.reserve(3 * n); b.resize(n / 2); same(b, Model{std::vector<double>(m.v.begin(), m.v.begin() + n / 2), g.chans, sr}, "cut"); for (int i = n / 2; i < n; ++i) b.push_back(i + 1); break; }
    case 3: { AudioBuffer t(m.v, g.chans, sr); b = t; same(b, m, "copy"); t.at(n - 1) = -5; t.resize(1); break; }
    case 4: { AudioBuffer t(m.v, g.chans, sr); AudioBuffer u(std::move(t)); b = AudioBuffer(3, 2, 1.5); std::swap(b, u); same(u, Model{std::vector<double>(6, 0.), 2, 1.5}, "swapped"); break; }
    case 5: { b = AudioBuffer(n + 7, 1); std::vector<double> x = m.v; b = x; same(b, Model{m.v, 1, 44100}, "assigned"); b.set_channels(g.chans); b.set_samplerate(sr); break; }
    case 6: { b = AudioBuffer(g.frames, g.chans, sr); for (int i = 0; i < n; ++i) b.at(i) = m.v[i]; b.clear(); same(b, Model{{}, g.chans, sr}, "cleared"); b.assign(m.v); break; }
    case 7: { auto p = create_buffer(g.frames, g.chans, sr); same(*p, Model{std::vector<double>(n, 0.), g.chans, sr}, "created"); std::copy(m.v.begin(), m.v.end(), p->begin()); b = std::move(*p); break; }
    }
    same(b, m, "edited");
    std::vector<double> o(n, 0.); squish_seq(&b, o.begin(), mf_null);
    for (int i = 0; i < n; ++i) MC_CHECK(o[i] == m.v[(i / g.frames) + g.chans * (i % g.frames)], "sequential flattening at %d", i);
    squish_inter(&b, o.begin(), mf_null);
    MC_CHECK(o == m.v, "interleaved flattening");
    same(b, m, "after flattening");
    outcome((Hash() << g.frames << g.chans << how).get());
}
