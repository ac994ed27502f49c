// F01: chain time equals complete frames processed times the frame duration.
#include "mc.hpp"
#include "scale.hpp"
#include "chrono.hpp"
using namespace mc;
struct Ref { int64_t s = 0; int ch = 1; int64_t npf = 0; bool rated = true; };
static void check(const ChainTimer& t, const Ref& r) {
    step();
    MC_CHECK((int64_t)t.get_sample() == r.s, "sample %lld, expected %lld", (long long)t.get_sample(), (long long)r.s);
    MC_CHECK(t.get_channels() == r.ch, "channels %d, expected %d", t.get_channels(), r.ch);
    if (!r.rated) { MC_CHECK(t.get_time() == 0, "time %lld right after a reset", (long long)t.get_time()); return; }
    MC_CHECK(t.get_npf() == r.npf, "frame duration %lld, expected %lld", (long long)t.get_npf(), (long long)r.npf);
    int64_t want = r.s / r.ch * r.npf;
    MC_CHECK(t.get_time() == want, "time %lld after %lld samples of %d channels at %lld ns, expected %lld", (long long)t.get_time(), (long long)r.s, r.ch, (long long)r.npf, (long long)want);
    MC_CHECK(t.get_time(r.s, r.ch) == want, "stateless time %lld, expected %lld", (long long)t.get_time(r.s, r.ch), (long long)want);
    MC_CHECK(t.get_time(r.s) == r.s * r.npf, "mono time %lld of %lld samples, expected %lld", (long long)t.get_time(r.s), (long long)r.s, (long long)(r.s * r.npf));
    state((Hash() << r.s << r.ch << r.npf).get());
}
static void rate(ChainTimer& t, Ref& r, int hz) {
    t.set_samplerate(hz);
    int64_t n = t.get_npf();
    MC_CHECK(n * hz >= 1000000000LL - hz && n * hz <= 1000000000LL + hz, "frame duration %lld at %d Hz", (long long)n, hz);
    r.npf = n; r.rated = true;
}
MC_SCENARIO(histories, 3) {
    ChainTimer t; Ref r;
    r.npf = t.get_npf();
    MC_CHECK(r.npf >= 22675 && r.npf <= 22676, "default frame duration %lld", (long long)r.npf);
    check(t, r);
    for (int d = thorough() ? 7 : 6; d--;) {
        int64_t before = r.rated ? t.get_time() : 0;
        bool mono = false;
        // a reset also forgets the rate: it is configured again before time is asked for
        int op = r.rated ? choose(18) : 10 + choose(5);
        note("op %d", op);
        switch (op) {
        case 0: t.inc_sample(); ++r.s; mono = true; break;
        case 1: case 2: case 3: case 4: case 5: {
            int64_t n = (int64_t[]){0, 1, 7, 96000, 2147483647}[op - 1];
            t.add_sample(n); r.s += n; mono = true; break; }
        case 6: case 7: case 8: case 9: {
            int64_t n = (int64_t[]){0, 5, 1000001, 2147483646}[op - 6];
            t.set_sample(n); r.s = n; break; }
        case 10: rate(t, r, 1000); break;
        case 11: rate(t, r, 44100); break;
        case 12: rate(t, r, 3); break;
        case 13: t.set_npf(1); r.npf = 1; r.rated = true; break;
        case 14: t.set_npf(999999937); r.npf = 999999937; r.rated = true; break;
        case 15: r.ch = 1 + r.ch % 2; t.set_channels(r.ch); break;
        case 16: t.set_channels(r.ch = 3); break;
        case 17: t.reset(); r = Ref(); r.rated = false; break;
        }
        if (r.rated && (double)r.s * r.npf > 9e18) prune();
        check(t, r);
        if (mono) MC_CHECK(t.get_time() >= before, "time ran backwards: %lld after %lld", (long long)t.get_time(), (long long)before);
        ChainTimer c = t; check(c, r);
    }
    outcome((Hash() << r.s << r.ch << r.npf).get());
}
// every sample of a stream: time steps up exactly at frame boundaries
MC_SCENARIO(stream, 3) {
    ChainTimer t; Ref r;
    int ch = range(1, thorough() ? 8 : 4); t.set_channels(ch); r.ch = ch;
    rate(t, r, pick({1, 3, 8000, 44100, 48000, 192000, 1000000000}));
    int64_t base = pick<int64_t>({0, 95999, 2147483640LL, 8000000000LL});
    t.set_sample(base); r.s = base;
    if (r.npf > 1000000 && base > 4000000000LL) t.set_sample(r.s = 4000000000LL);
    int blk = range(1, 9);
    for (int i = 0; i < 40; ++i) {
        if (i % 2) { for (int k = 0; k < blk; ++k) { t.inc_sample(); ++r.s; check(t, r); } }
        else { t.add_sample(blk); r.s += blk; check(t, r); }
    }
    outcome((Hash() << ch << r.npf << r.s).get());
}
// every combination of channel count, rate, block size and position
MC_SCENARIO(scale_positions, 2) {
    ChainTimer t; Ref r; r.ch = scale::channels(); t.set_channels(r.ch);
    rate(t, r, pick({1, 8000, 11025, 22050, 44100, 48000, 96000, 192000, 384000, 2822400}));
    int f = scale::frames(); int64_t pos = pick<int64_t>({0, 1, 32767, 65536, 16777215, 16777217, 2147483646, 2147483648LL, 4294967295LL, 4294967297LL, 1000000000007LL});
    r.s = pos * r.ch; if ((double)r.s / r.ch * r.npf > 9e18 || (double)r.s * r.npf > 9e18) prune();
    label("%d channels, %d frames, position %lld", r.ch, f, (long long)pos);
    t.set_sample(r.s); check(t, r);
    for (int i = 0; i < 4; ++i) {
        int64_t n = (int64_t)f * r.ch - (i == 2); t.add_sample(n); r.s += n; check(t, r);
        if (i == 2) { t.inc_sample(); ++r.s; check(t, r); }
    }
    outcome((Hash() << r.ch << r.npf << r.s).get());
}
