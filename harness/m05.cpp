// M05: a collection owns each object exactly once.
#include "mc.hpp"
#include "utils.hpp"
#include <memory>
#include <vector>
using namespace mc;
namespace {
int DEAD[512], MADE;
struct Base { virtual ~Base() = default; };
struct Obj : Base { int id; Obj() : id(MADE++) {} ~Obj() override { ++DEAD[id]; } };
template <class T> void run(int depth) {
    MADE = 0; for (int& d : DEAD) d = 0;
    std::vector<int> slots; std::vector<int> dead(32, 0); std::vector<Obj*> objs; std::vector<std::unique_ptr<T>> mine;
    auto c = std::make_unique<Collection<T>>();
    auto check = [&] {
        step();
        if (c) {
            MC_CHECK(c->num_objects() == (int)slots.size(), "%d objects, expected %zu", c->num_objects(), slots.size());
            for (size_t i = 0; i < slots.size(); ++i) MC_CHECK(c->get_object((int)i) == (slots[i] < 0 ? nullptr : (T*)objs[slots[i]]), "wrong object at position %zu", i);
        }
        for (int i = 0; i < MADE; ++i) MC_CHECK(DEAD[i] == dead[i], "object %d was destroyed %d times, expected %d", i, DEAD[i], dead[i]);
        state((Hash() << slots << mine.size()).get());
    };
    check();
    for (; depth-- && c;) {
        switch (choose(7)) {
        case 0: { if (MADE > 20) prune(); auto* o = new Obj; objs.push_back(o); std::unique_ptr<T> p(o); c->add_object(p); slots.push_back(o->id);
                  MC_CHECK(!p, "the caller still owns the object"); break; }
        case 1: { if (slots.empty()) prune(); int i = choose((int)slots.size()); T* p = c->release_object(i);
                  MC_CHECK(p == (slots[i] < 0 ? nullptr : (T*)objs[slots[i]]), "another object than the one at position %d was released", i);
                  slots[i] = -1; if (p) mine.emplace_back(p); break; }
        case 2: { if (slots.empty()) prune(); int i = choose((int)slots.size()); if (slots[i] >= 0) ++dead[slots[i]]; c->free_object(i); slots.erase(slots.begin() + i); break; }
        case 3: for (int s : slots) if (s >= 0) ++dead[s]; slots.clear(); c->clear(); break;
        case 4: { if (mine.empty()) prune(); for (auto& m : mine) ++dead[static_cast<Obj*>(m.get())->id]; mine.clear(); break; }
        case 5: for (int s : slots) if (s >= 0) ++dead[s]; slots.clear(); c.reset(); break;
        case 6: { if (mine.empty()) prune(); slots.push_back(static_cast<Obj*>(mine.back().get())->id); c->add_object(mine.back()); mine.pop_back(); break; }   // handed back again
        }
        check();
    }
    if (c) { for (int s : slots) if (s >= 0) ++dead[s]; c.reset(); check(); }
    for (auto& m : mine) ++dead[static_cast<Obj*>(m.get())->id];
    mine.clear(); check();
    for (int i = 0; i < MADE; ++i) MC_CHECK(DEAD[i] == 1, "object %d was destroyed %d times in all", i, DEAD[i]);
    outcome((Hash() << MADE << slots).get());
}
}
MC_SCENARIO(histories, 3) { run<Obj>(thorough() ? 9 : 8); }
MC_SCENARIO(base_pointer, 3) { run<Base>(thorough() ? 8 : 7); }
// many objects: order kept over growth of the storage
MC_SCENARIO(many, 1) {
    MADE = 0; for (int& d : DEAD) d = 0;
    Collection<Obj> c; int n = range(0, 30); std::vector<Obj*> v;
    for (int i = 0; i < n; ++i) { auto p = std::make_unique<Obj>(); v.push_back(p.get()); c.add_object(p); step(); for (int k = 0; k <= i; ++k) MC_CHECK(c.get_object(k) == v[k], "wrong object at position %d of %d", k, i + 1); }
    Collection<Obj> d(std::move(c)); MC_CHECK(d.num_objects() == n, "%d objects after moving the collection", d.num_objects());
    for (int k = 0; k < n; ++k) { MC_CHECK(d.get_object(k) == v[k], "wrong object at position %d after moving", k); MC_CHECK(!DEAD[k], "object %d destroyed early", k); }
    d.clear(); for (int k = 0; k < n; ++k) MC_CHECK(DEAD[k] == 1, "object %d destroyed %d times", k, DEAD[k]);
    outcome(n);
}
MC_SCENARIO(scale_many, 1) {
    MADE = 0; for (int& d : DEAD) d = 0;
    int n = pick({63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300}); int how = choose(3);
    Collection<Obj> c; std::vector<Obj*> v;
    for (int i = 0; i < n; ++i) { auto p = std::make_unique<Obj>(); v.push_back(p.get()); c.add_object(p); step(); MC_CHECK(c.num_objects() == i + 1, "%d objects, expected %d", c.num_objects(), i + 1); }
    for (int k = 0; k < n; ++k) { MC_CHECK(c.get_object(k) == v[k], "wrong object at position %d of %d", k, n); MC_CHECK(!DEAD[k], "object %d destroyed early", k); }
    if (how == 0) c.clear();
    else if (how == 1) { Collection<Obj> d(std::move(c)); for (int k = 0; k < n; ++k) MC_CHECK(d.get_object(k) == v[k], "wrong object at position %d after moving", k); }
    else { Collection<Obj> d; d = std::move(c); MC_CHECK(d.num_objects() == n, "%d objects after moving", d.num_objects()); }
    for (int k = 0; k < n; ++k) MC_CHECK(DEAD[k] == 1, "object %d destroyed %d times", k, DEAD[k]);
    state((Hash() << n << how).get()); outcome((Hash() << n << how).get());
}
