// World: users of one integer map, some of which are in the middle of a
// traversal while others add and remove entries.
// Real: collections/intmap.c and the typed wrapper macros of intmap.h.
// Simulated: the users and their interleaving, the heap.
// Reference: std::map, and for every iterator the set of entries it owes.
#include "dst.hpp"
#include <memory>
extern "C" {
#include "embc/platform.h"
#include "embc/collections/intmap.h"
#include "embc/ec.h"
EMBC_INTMAP_DECLARE(typed, char *)
}
using namespace dst;

namespace {

constexpr uint32_t C15 = P(15);
typedef embc_size_t Key;

// The same operations through either interface.
struct Api {
    bool t = false;
    struct embc_intmap_s * m = 0;
    struct typed_s * tm = 0;
    void create() { if (t) { tm = typed_new(); } else { m = embc_intmap_new(); } }
    void destroy() { if (t) { typed_free(tm); } else { embc_intmap_free(m); } }
    Key length() { return t ? typed_length(tm) : embc_intmap_length(m); }
    int put(Key k, void * v, void ** old) { return t ? typed_put(tm, k, (char *) v, (char **) old) : embc_intmap_put(m, k, v, old); }
    int get(Key k, void ** v) { return t ? typed_get(tm, k, (char **) v) : embc_intmap_get(m, k, v); }
    int remove(Key k, void ** old) { return t ? typed_remove(tm, k, (char **) old) : embc_intmap_remove(m, k, old); }
    void * iter() { return t ? (void *) typed_iterator_new(tm) : (void *) embc_intmap_iterator_new(m); }
    int next(void * i, Key * k, void ** v) { return t ? typed_iterator_next((struct typed_iterator_s *) i, k, (char **) v) : embc_intmap_iterator_next((struct embc_intmap_iterator_s *) i, k, v); }
    void iter_free(void * i) { if (t) { typed_iterator_free((struct typed_iterator_s *) i); } else { embc_intmap_iterator_free((struct embc_intmap_iterator_s *) i); } }
};

struct Iter {
    void * it;
    std::set<Key> owed;     // present at creation, not removed, not visited
    std::set<Key> seen;     // visited, and not removed since
    bool ended = false;
};

struct Map {
    Api a;
    std::map<Key, void *> ref;
    std::vector<std::unique_ptr<Iter>> iters;
    int style = 0;
    uintptr_t value = 0;
    size_t peak = 0;

    Key key() {
        switch (style) {
            case 0: return (Key) draw(APP, 40);
            case 1: return (Key) draw(APP, 12) * 8;                   // one bin at first
            case 2: return (Key) draw(APP, 30) * 32 + (Key) draw(APP, 2);
            case 3: return (Key) draw(APP, 30) - 15;
            case 4: return (Key) draw(APP, 300);
            case 5: return pick<Key>(APP, {0, -1, INTPTR_MAX, INTPTR_MIN, 7, 8, 31, 32, 1, 255, 256, -8});
            case 6: return (Key) draw_u32(APP) * (draw(APP, 2) ? 1 : 0x100000001ll);
            default: return (Key) draw(APP, 2000) * 4;
        }
    }
    Key some_key() {
        if (ref.size() && !chance(APP, 1, 4)) {
            auto i = ref.begin();
            std::advance(i, draw(APP, (uint32_t) ref.size()));
            return i->first;
        }
        return key();
    }
    void put(Key k) {
        void * v = (void *) (++value * 16);
        if (chance(APP, 1, 16)) { v = 0; }
        void * old = (void *) 0x1111;
        bool want_old = !chance(APP, 1, 4);
        ev("put", k, (int64_t) (uintptr_t) v);
        int rc = a.put(k, v, want_old ? &old : 0);
        auto i = ref.find(k);
        void * expect = i == ref.end() ? 0 : i->second;
        if (rc) { violate(C15, "put", "put(%lld) returns %d", (long long) k, rc); }
        if (want_old && old != expect) { violate(C15, "put", "put(%lld) returns old value %p, expected %p", (long long) k, old, expect); }
        if (i == ref.end() && iters.size()) { probe("entry added during a traversal"); }
        ref[k] = v;
        peak = std::max(peak, ref.size());
    }
    void get(Key k) {
        void * v = (void *) 0x1111;
        int rc = a.get(k, &v);
        auto i = ref.find(k);
        ev("get", k, rc);
        if (i == ref.end() ? (rc != EMBC_ERROR_NOT_FOUND || v) : (rc || v != i->second)) {
            violate(C15, "get", "get(%lld) returns %d and %p, expected %s", (long long) k, rc, v, i == ref.end() ? "nothing" : "the value put");
        }
    }
    void remove(Key k) {
        void * old = (void *) 0x1111;
        bool want_old = !chance(APP, 1, 4);
        int rc = a.remove(k, want_old ? &old : 0);
        auto i = ref.find(k);
        ev("remove", k, rc);
        if (i == ref.end()) {
            if (rc != EMBC_ERROR_NOT_FOUND) { violate(C15, "remove", "remove(%lld) returns %d, but there is no such entry", (long long) k, rc); }
            return;
        }
        if (rc || (want_old && old != i->second)) { violate(C15, "remove", "remove(%lld) returns %d and %p", (long long) k, rc, old); }
        for (auto & it : iters) {
            if (it->owed.erase(k)) { probe("unvisited entry removed during a traversal"); }
            it->seen.erase(k);
        }
        ref.erase(i);
    }
    void iter_new() {
        std::unique_ptr<Iter> i(new Iter());
        for (auto & p : ref) { i->owed.insert(p.first); }
        i->it = a.iter();
        ev("iter", (int64_t) iters.size());
        if (iters.size()) { probe("several traversals at once"); }
        iters.push_back(std::move(i));
    }
    void iter_next(Iter & i) {
        Key k = 0x7777;
        void * v = (void *) 0x1111;
        int rc = a.next(i.it, &k, &v);
        ev("next", rc, k);
        if (rc) {
            if (rc != EMBC_ERROR_NOT_FOUND) { violate(C15, "next", "iterator next returns %d", rc); }
            if (i.owed.size()) { violate(C15, "missed", "the iterator ends without %zu entries, such as %lld", i.owed.size(), (long long) *i.owed.begin()); }
            i.ended = true;
            return;
        }
        auto r = ref.find(k);
        if (r == ref.end()) { violate(C15, "stale", "the iterator visits %lld which is not in the map", (long long) k); return; }
        if (v != r->second) { violate(C15, "value", "the iterator visits %lld with value %p, expected %p", (long long) k, v, r->second); }
        if (i.seen.count(k)) { violate(C15, "revisit", "the iterator visits %lld twice", (long long) k); return; }
        if (i.ended) { probe("iterator resumes after its end"); }
        i.owed.erase(k);
        i.seen.insert(k);
    }
    void iter_free(size_t n) {
        ev("iter_free", (int64_t) n);
        a.iter_free(iters[n]->it);
        iters.erase(iters.begin() + (long) n);
    }
    void check_length() {
        if (a.length() != (Key) ref.size()) { violate(C15, "length", "length is %lld, expected %zu", (long long) a.length(), ref.size()); }
    }
};

void run_world() {
    embc_allocator_set([](embc_size_t n) -> void * { return heap_alloc((size_t) n); }, [](void * p) { heap_free(p); });
    set_step_limit(100000);
    size_t before = heap().live_blocks;
    int maps = 1 + (draw(CFG, 4) == 3);
    std::vector<std::unique_ptr<Map>> all;
    for (int i = 0; i < maps; ++i) {
        all.emplace_back(new Map());
        all.back()->a.t = chance(CFG, 1, 4);
        all.back()->style = (int) draw(CFG, 8);
        all.back()->a.create();
    }
    int max_iters = (int) draw(CFG, 4);
    int removes = 1 + (int) draw(CFG, 6);
    int ops = pick(CFG, {30, 80, 200, 500});
    ops = 1 + (int) draw(CFG, (uint32_t) ops);
    if (chance(CFG, 1, 80)) { ops *= 10; }
    for (int i = 0; i < ops; ++i) {
        step();
        Map & m = *all[maps == 1 ? 0 : draw(SCHED, 2)];
        uint32_t k = draw(SCHED, 20);
        if (k < 8) { m.put(chance(APP, 1, 8) ? m.some_key() : m.key()); }
        else if (k < 8u + (uint32_t) removes / 2) { m.remove(m.some_key()); }
        else if (k < 13) { m.get(m.some_key()); }
        else if (k == 13) { if ((int) m.iters.size() < max_iters) { m.iter_new(); } }
        else if (k == 14) {
            if (m.iters.size()) {
                size_t n = draw(SCHED, (uint32_t) m.iters.size());
                if (m.iters[n]->ended || chance(APP, 1, 4)) { m.iter_free(n); }
            }
        } else if (k == 15) {   // a long burst: internal growth
            int n = (int) draw(APP, 40);
            bool had = m.iters.size();
            for (int j = 0; j < n; ++j) { m.put(m.key()); }
            if (n && !had) { probe("burst without a traversal"); }
        } else {
            if (m.iters.size()) {
                Iter & it = *m.iters[draw(SCHED, (uint32_t) m.iters.size())];
                int n = chance(APP, 1, 3) ? 1 + (int) draw(APP, 12) : 1;
                for (int j = 0; j < n && !it.ended; ++j) { m.iter_next(it); }
            }
        }
        m.check_length();
        cover(mix2(mix2(m.ref.size() / 2, m.iters.size()), (uint64_t) m.style * 2 + m.a.t));
    }
    bool traversed = false;
    for (auto & p : all) {
        Map & m = *p;
        for (auto & r : m.ref) { m.get(r.first); }
        while (m.iters.size()) {
            Iter & it = *m.iters.back();
            for (size_t n = 0; n < 3 * m.peak + 20 && !it.ended; ++n) { m.iter_next(it); }
            if (!it.ended) { violate(C15, "endless", "the iterator does not end"); }
            m.iter_free(m.iters.size() - 1);
        }
        m.iter_new();
        for (size_t n = 0; n < m.ref.size() + 1; ++n) { m.iter_next(*m.iters[0]); }
        if (!m.iters[0]->ended) { violate(C15, "endless", "the iterator does not end"); }
        m.iter_free(0);
        traversed |= m.peak > 3;
        if (m.peak > 14) { probe("grown map"); }
        m.a.destroy();
    }
    if (heap().live_blocks != before) { violate(C15, "leak", "%zu blocks remain allocated", heap().live_blocks - before); }
    if (traversed) { nontrivial(); }
}

}  // namespace

World const dst::world = {"intmap", {15}, run_world, {}};
