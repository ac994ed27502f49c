// G03: ring buffer addressing modulo its size in both directions
#include "dsp/buffer.hpp"
#include "mc.hpp"
#include "scale.hpp"
using namespace mc;
template <class T> void run() {
    int N = range(1, thorough() ? 17 : 9);
    std::vector<T> m(N);
    for (int i = 0; i < N; ++i) m[i] = T(10 + i);
    dsp::buff::RingBuffer<T> r(m);
    auto wrap = [&](long i) { long k = i % N; return (int)(k < 0 ? k + N : k); };
    auto same = [&] {
        for (int i = 0; i < N; ++i) MC_CHECK(r[i] == m[i], "element %d is %g want %g", i, (double)r[i], (double)m[i]);
    };
    int op = choose(6);
    int span = 4 * N;
    MC_CHECK((int)r.size() == N, "size");
    int i = range(-span, span);
    label("size=%d op=%d index=%d", N, op, i);
    step();
    switch (op) {
        case 0:  // read
            MC_CHECK(r[i] == m[wrap(i)], "ring[%d]=%g want element %d", i, (double)r[i], wrap(i));
            break;
        case 1:  // write
            r[i] = T(99);
            m[wrap(i)] = T(99);
            break;
        case 2: {  // iterator subscript + write
            auto it = r.begin();
            MC_CHECK(it[i] == m[wrap(i)], "iterator[%d]", i);
            it[i] = T(77);
            m[wrap(i)] = T(77);
            break;
        }
        case 3: {  // stepping from a start position
            int p = range(-N, N);
            addlabel(" from=%d", p);
            auto it = r.begin();
            it += p;
            MC_CHECK(*it == m[wrap(p)], "begin+%d is %g want element %d", p, (double)*it, wrap(p));
            int q = p;
            while (q < i) { ++it; ++q; step(); MC_CHECK(*it == m[wrap(q)], "stepping up to %d gives %g want element %d", q, (double)*it, wrap(q)); }
            while (q > i) { --it; --q; step(); MC_CHECK(*it == m[wrap(q)], "stepping down to %d gives %g want element %d", q, (double)*it, wrap(q)); }
            *it = T(55);
            m[wrap(i)] = T(55);
            break;
        }
        case 4: {  // full traversals
            int k = 0;
            for (auto it = r.begin(); it != r.end(); ++it, ++k) { step(); MC_CHECK(k < N && *it == m[k], "traversal at %d", k); }
            MC_CHECK(k == N, "traversal visits %d", k);
            std::fill(r.begin(), r.end(), T(3));
            std::fill(m.begin(), m.end(), T(3));
            break;
        }
        case 5: {  // random access moves
            auto it = r.begin() + i;
            MC_CHECK(*it == m[wrap(i)], "begin()+%d", i);
            int j = range(-N, N);
            addlabel(" by=%d", j);
            it -= j;
            MC_CHECK(*it == m[wrap(i - j)], "-= %d", j);
            auto e = r.end();
            e -= 1;
            MC_CHECK(*e == m[N - 1], "end()-1");
            auto f = r.end() + 0;
            MC_CHECK(*f == m[0], "end() wraps to the first element");
            break;
        }
    }
    same();
    Hash h;
    h << N << op << i << m;
    state(h.get());
    outcome(h.get());
}
MC_SCENARIO(ring_double, 2) { run<double>(); }
MC_SCENARIO(ring_int, 2) { run<int>(); }
// a plain queue of the last N values kept in a ring by an ever increasing index
MC_SCENARIO(ring_history, 2) {
    int N = range(1, 6), steps = range(1, 3 * 6);
    dsp::buff::RingBuffer<double> r((std::size_t)N);
    std::vector<double> hist;
    label("history size=%d steps=%d", N, steps);
    for (int i = 0; i < steps; ++i) {
        r[i] = 1 + i;
        hist.push_back(1 + i);
        for (int k = 0; k < N; ++k) {
            step();
            double want = k <= i ? hist[i - k] : 0.;
            MC_CHECK(r[i - k] == want, "value written %d steps ago is %g want %g", k, r[i - k], want);
        }
        Hash h; h << N << i; state(h.get());
    }
    outcome(steps);
}
MC_SCENARIO(ring_shape, 1) {
    std::size_t n = choose(6), m = choose(6);
    label("shape %zu->%zu", n, m);
    dsp::buff::RingBuffer<double> r(n);
    MC_CHECK(r.size() == n, "size");
    r.reserve(m);
    MC_CHECK(r.size() == n, "reserve changed size");
    for (std::size_t i = 0; i < n; ++i) r[(int)i] = 5 + i;
    r.resize(m);
    MC_CHECK(r.size() == m, "resize");
    for (std::size_t i = 0; i < m; ++i) { step(); MC_CHECK(r[(int)i] == (i < n ? 5. + i : 0.), "resize lost element %zu", i); }
    Hash h; h << n << m; state(h.get()); outcome(h.get());
}
// rings of any size, indices near the multiples of the size
MC_SCENARIO(scale_rings, 3) {
    int N = scale::frames();
    int mul = pick({0, 1, -1, 2, -2, 7, -7, 1000, -1000}), d = pick({0, 1, -1, 2, -2});
    long idx = (long)mul * N + d;
    if (idx > 2000000000 || idx < -2000000000) prune();
    int i = (int)idx, w = (int)(((idx % N) + N) % N);
    label("size=%d index=%d", N, i);
    std::vector<double> m(N); for (int k = 0; k < N; ++k) m[k] = k + 10;
    dsp::buff::RingBuffer<double> r(m);
    MC_CHECK((int)r.size() == N, "size");
    MC_CHECK(r[i] == m[w], "ring[%d]=%g want element %d", i, r[i], w);
    auto it = r.begin(); it += i;
    MC_CHECK(*it == m[w], "begin()+%d is %g want element %d", i, *it, w);
    MC_CHECK(it[N / 2] == m[N / 2] && it[-1] == m[N - 1] && it[-N] == m[0] && it[i] == m[w], "subscripts of an iterator at %d", i);
    ++it; MC_CHECK(*it == m[(w + 1) % N], "stepping up from %d", i);
    --it; --it; MC_CHECK(*it == m[(w + N - 1) % N], "stepping down from %d", i);
    it -= i; MC_CHECK(*it == m[N - 1], "back to the start");
    r[i] = -1; m[w] = -1;
    int k = 0;
    for (auto x = r.begin(); x != r.end(); ++x, ++k) MC_CHECK(k < N && *x == m[k], "traversal at %d", k);
    MC_CHECK(k == N, "traversal visits %d of %d", k, N);
    step();
    outcome((Hash() << N << i).get());
}
// a delay line of any length fed for several turns
MC_SCENARIO(scale_history, 2) {
    int N = scale::frames(); if (N > 50000) prune();
    label("history size=%d", N);
    dsp::buff::RingBuffer<double> r((std::size_t)N);
    for (int i = 0; i < 3 * N + 5; ++i) {
        r[i] = i + 1;
        for (int k : {0, 1, N / 2, N - 1}) MC_CHECK(r[i - k] == (k <= i ? i - k + 1 : 0.), "value written %d steps ago (step %d) is %g", k, i, r[i - k]);
    }
    step();
    outcome(N);
}
