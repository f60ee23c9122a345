// World: several users share lists, string maps and hash maps; some are in
// the middle of a traversal while items come and go.
// Real: collections/list.h and list.c, collections/strmap.c, collections/hashmap.c.
// Simulated: the users and their interleaving, key ownership, hash functions, heap.
// Reference: vectors and std::map.
#include "dst.hpp"
#include <memory>
extern "C" {
#include "embc/platform.h"
#include "embc/collections/list.h"
#include "embc/collections/strmap.h"
#include "embc/collections/hashmap.h"
#include "embc/ec.h"
}
using namespace dst;

namespace {

constexpr uint32_t C20 = P(20);

// --- lists -------------------------------------------------------------------
struct Entry {      // participates in two kinds of lists at the same time
    int id;
    struct embc_list_s a;
    int guard;
    struct embc_list_s b;
};

struct Lists {
    int kind;                                  // which member of the entry
    std::vector<struct embc_list_s *> lists;   // heap allocated
    std::vector<std::vector<int>> ref;
    std::vector<Entry *> * entries;

    struct embc_list_s * item(int e) { return kind ? &(*entries)[(size_t) e]->b : &(*entries)[(size_t) e]->a; }
    int id(struct embc_list_s * i) {
        if (!i) { return -1; }
        return kind ? embc_list_entry(i, Entry, b)->id : embc_list_entry(i, Entry, a)->id;
    }
    void ref_remove(int e) {
        for (auto & r : ref) { r.erase(std::remove(r.begin(), r.end(), e), r.end()); }
    }
    int where(int e) {
        for (size_t l = 0; l < ref.size(); ++l) { if (std::find(ref[l].begin(), ref[l].end(), e) != ref[l].end()) { return (int) l; } }
        return -1;
    }
    void check(size_t l) {
        auto & r = ref[l];
        struct embc_list_s * p = lists[l];
        size_t n = 0;
        struct embc_list_s * i;
        embc_list_foreach_unsafe(p, i) {
            if (n >= r.size() || id(i) != r[n]) { violate(C20, "list", "list %zu holds entry %d at %zu, expected %d", l, id(i), n, n < r.size() ? r[n] : -1); return; }
            if (i->next->prev != i || i->prev->next != i) { violate(C20, "list", "broken links"); return; }
            ++n;
        }
        if (n != r.size()) { violate(C20, "list", "list %zu has %zu items, expected %zu", l, n, r.size()); return; }
        n = r.size();
        embc_list_foreach_reverse_unsafe(p, i) {
            if (n == 0 || id(i) != r[n - 1]) { violate(C20, "list", "list %zu backwards holds entry %d", l, id(i)); return; }
            --n;
        }
        if (n) { violate(C20, "list", "list %zu backwards is short", l); }
        if (embc_list_length(p) != (embc_size_t) r.size()) { violate(C20, "list", "length %ld of %zu", (long) embc_list_length(p), r.size()); }
        if (embc_list_is_empty(p) != r.empty()) { violate(C20, "list", "is_empty of %zu items", r.size()); }
        if (id(embc_list_peek_head(p)) != (r.size() ? r.front() : -1)) { violate(C20, "list", "wrong head"); }
        if (id(embc_list_peek_tail(p)) != (r.size() ? r.back() : -1)) { violate(C20, "list", "wrong tail"); }
    }
    void check_all() { for (size_t l = 0; l < lists.size(); ++l) { check(l); } }

    void add(bool head, size_t l, int e) {
        ev(head ? "add_head" : "add_tail", kind, (int64_t) l, e);
        if (where(e) >= 0) { probe("item moved between lists"); }
        ref_remove(e);
        if (head) { embc_list_add_head(lists[l], item(e)); ref[l].insert(ref[l].begin(), e); }
        else { embc_list_add_tail(lists[l], item(e)); ref[l].push_back(e); }
    }
    void insert(bool before, int pos, int e) {
        ev(before ? "insert_before" : "insert_after", kind, pos, e);
        ref_remove(e);
        int l = where(pos);
        auto & r = ref[(size_t) l];
        auto i = std::find(r.begin(), r.end(), pos);
        if (before) { embc_list_insert_before(item(pos), item(e)); r.insert(i, e); }
        else { embc_list_insert_after(item(pos), item(e)); r.insert(i + 1, e); }
    }
    void remove(int e) {
        ev("remove", kind, e);
        embc_list_remove(item(e));
        ref_remove(e);
    }

    // What another user does while item e of list l is visited and the
    // traversal has already noted the item which follows (keep, or -1).
    void meanwhile(size_t l, int e, int keep, bool & moved) {
        auto & r = ref[l];
        switch (draw(SCHED, 8)) {
            case 1: remove(e); fault("current item removed during a traversal"); break;
            case 2: {   // moved to another list
                size_t to = draw(SCHED, (uint32_t) lists.size());
                if (to == l) { if (moved) { break; } moved = true; }
                fault("current item moved during a traversal");
                add(chance(SCHED, 1, 2), to, e);
                break;
            }
            case 3: case 4: {   // other items come
                int o = (int) draw(SCHED, (uint32_t) entries->size());
                if (o == e || o == keep || (int) l == where(o)) { break; }
                fault("item inserted during a traversal");
                switch (draw(SCHED, 4)) {
                    case 0: add(true, l, o); break;
                    case 1: add(false, l, o); break;
                    case 2: insert(true, e, o); break;
                    default: insert(false, e, o); break;
                }
                break;
            }
            case 5: {   // or go
                if (r.empty()) { break; }
                int o = r[draw(SCHED, (uint32_t) r.size())];
                if (o == keep || o == e) { break; }
                fault("other item removed during a traversal");
                remove(o);
                break;
            }
            default: break;
        }
    }
    void traverse(size_t l, bool reverse, bool mutate) {
        struct embc_list_s * p = lists[l];
        struct embc_list_s * i;
        auto next_of = [&](int e) {    // -1: end
            auto & r = ref[l];
            auto k = std::find(r.begin(), r.end(), e);
            if (k == r.end()) { return -1; }
            if (reverse) { return k == r.begin() ? -1 : *(k - 1); }
            return k + 1 == r.end() ? -1 : *(k + 1);
        };
        int want = ref[l].empty() ? -1 : (reverse ? ref[l].back() : ref[l].front());
        bool moved = false;
        ev("traverse", kind, (int64_t) l, reverse, mutate);
        size_t visits = 0;
        auto body = [&](int e) {
            step();
            ++visits;
            if (e != want) { violate(C20, "traverse", "the traversal visits entry %d, expected %d", e, want); return false; }
            want = next_of(e);
            if (mutate) { meanwhile(l, e, want, moved); }
            return true;
        };
        if (reverse) { embc_list_foreach_reverse(p, i) { if (!body(id(i))) { return; } } }
        else { embc_list_foreach(p, i) { if (!body(id(i))) { return; } } }
        if (want != -1) { violate(C20, "traverse", "the traversal ends before entry %d", want); }
        if (visits > 2) { probe("long traversal"); }
        if (visits && mutate) { nontrivial(); }
    }
    void op() {
        size_t l = draw(APP, (uint32_t) lists.size());
        int e = (int) draw(APP, (uint32_t) entries->size());
        switch (draw(APP, 16)) {
            case 0: case 1: add(false, l, e); break;
            case 2: add(true, l, e); break;
            case 3: {
                struct embc_list_s * i = embc_list_remove_head(lists[l]);
                ev("remove_head", kind, (int64_t) l, id(i));
                int w = ref[l].size() ? ref[l].front() : -1;
                if (id(i) != w) { violate(C20, "list", "remove_head returns %d, expected %d", id(i), w); }
                if (w >= 0) { ref[l].erase(ref[l].begin()); }
                if (i && !embc_list_is_empty(i)) { violate(C20, "list", "a removed item still has links"); }
                break;
            }
            case 4: {
                struct embc_list_s * i = embc_list_remove_tail(lists[l]);
                ev("remove_tail", kind, (int64_t) l, id(i));
                int w = ref[l].size() ? ref[l].back() : -1;
                if (id(i) != w) { violate(C20, "list", "remove_tail returns %d, expected %d", id(i), w); }
                if (w >= 0) { ref[l].pop_back(); }
                if (i && !embc_list_is_empty(i)) { violate(C20, "list", "a removed item still has links"); }
                break;
            }
            case 5: remove(e); break;
            case 6: case 7: {
                if (ref[l].empty()) { break; }
                int pos = ref[l][draw(APP, (uint32_t) ref[l].size())];
                if (pos != e) { insert(chance(APP, 1, 2), pos, e); }
                break;
            }
            case 8: {
                size_t o = draw(APP, (uint32_t) lists.size());
                if (o == l) { break; }
                ev("append", kind, (int64_t) l, (int64_t) o);
                embc_list_append(lists[l], lists[o]);
                ref[l].insert(ref[l].end(), ref[o].begin(), ref[o].end());
                ref[o].clear();
                break;
            }
            case 9: {
                embc_size_t n = (embc_size_t) draw(APP, (uint32_t) ref[l].size() + 3) - 1;
                struct embc_list_s * i = embc_list_index(lists[l], n);
                int w = n >= 0 && (size_t) n < ref[l].size() ? ref[l][(size_t) n] : -1;
                if (id(i) != w) { violate(C20, "list", "index %ld is %d, expected %d", (long) n, id(i), w); }
                break;
            }
            case 10: {
                auto & r = ref[l];
                auto k = std::find(r.begin(), r.end(), e);
                long w = k == r.end() ? -1 : k - r.begin();
                if (embc_list_index_of(lists[l], item(e)) != w) { violate(C20, "list", "index_of returns %ld, expected %ld", (long) embc_list_index_of(lists[l], item(e)), w); }
                if (embc_list_contains(lists[l], item(e)) != (w >= 0)) { violate(C20, "list", "contains is wrong"); }
                break;
            }
            case 11: case 12: case 13: traverse(l, chance(APP, 1, 2), true); break;
            case 14: traverse(l, chance(APP, 1, 2), false); break;
            default: break;
        }
        check_all();
    }
};

// --- maps --------------------------------------------------------------------
struct StrMap {
    struct embc_strmap_s * m = 0;
    std::map<std::string, void *> ref;
    int style = 0;
    uintptr_t value = 0;

    std::string key() {
        std::string k;
        switch (style) {
            case 0: k = std::string(1, (char) ('a' + draw(APP, 26))); break;
            case 1: {   // different keys with the same hash: "aB" and "b!" (33 apart)
                int n = (int) draw(APP, chance(APP, 1, 2) ? 10 : 5);
                for (int i = 0; i < n; ++i) { k += chance(APP, 1, 2) ? "aB" : "b!"; }
                break;
            }
            case 2: { int n = (int) draw(APP, 40); k.assign((size_t) n, 'x'); break; }
            case 3: { int n = (int) draw(APP, 4); for (int i = 0; i < n; ++i) { k += (char) (1 + draw(APP, 255)); } break; }
            case 5: { int n = 120 + (int) draw(APP, 200); k.assign((size_t) n, 'y'); k[draw(APP, (uint32_t) n)] = (char) (0x80 + draw(APP, 3)); break; }
            case 6: k = std::to_string(draw(APP, 4000)); break;
            default: k = "key" + std::to_string(draw(APP, 400)); break;
        }
        return k;
    }
    std::string some_key() {
        if (ref.size() && !chance(APP, 1, 4)) { auto i = ref.begin(); std::advance(i, draw(APP, (uint32_t) ref.size())); return i->first; }
        return key();
    }
    void op() {
        std::string k;
        void * old = (void *) 0x1111;
        bool want_old = !chance(APP, 1, 4);
        uint32_t o = draw(APP, 8);
        k = o < 4 ? key() : some_key();
        // the key belongs to the caller, who reuses its memory afterwards
        char * c = (char *) heap_alloc(k.size() + 1);
        memcpy(c, k.c_str(), k.size() + 1);
        auto i = ref.find(k);
        ev("strmap", o, (int64_t) k.size(), (int64_t) mix(std::hash<std::string>()(k)), want_old);
        if (o < 4) {
            void * v = chance(APP, 1, 12) ? 0 : (void *) (++value * 16);
            int rc = embc_strmap_put(m, c, v, want_old ? &old : 0);
            void * w = i == ref.end() ? 0 : i->second;
            if (rc) { violate(C20, "strmap", "put returns %d", rc); }
            if (want_old && old != w) { violate(C20, "strmap", "put of \"%s\" returns the old value %p, expected %p", c, old, w); }
            ref[k] = v;
        } else if (o < 6) {
            int rc = embc_strmap_get(m, c, want_old ? &old : 0);
            if ((rc == 0) != (i != ref.end())) { violate(C20, "strmap", "get of \"%s\" returns %d", c, rc); }
            if (want_old && i != ref.end() && old != i->second) { violate(C20, "strmap", "get of \"%s\" returns %p, expected %p", c, old, i->second); }
            if (want_old && i == ref.end() && old != 0) { violate(C20, "strmap", "get of a missing key returns %p", old); }
        } else {
            int rc = embc_strmap_remove(m, c, want_old ? &old : 0);
            if ((rc == 0) != (i != ref.end())) { violate(C20, "strmap", "remove of \"%s\" returns %d", c, rc); }
            if (i != ref.end()) {
                if (want_old && old != i->second) { violate(C20, "strmap", "remove of \"%s\" returns %p, expected %p", c, old, i->second); }
                ref.erase(i);
                nontrivial();
            }
        }
        memset(c, '?', k.size());
        heap_free(c);
        if (embc_strmap_length(m) != (embc_size_t) ref.size()) { violate(C20, "strmap", "length %ld of %zu", (long) embc_strmap_length(m), ref.size()); }
    }
    void sweep() {
        for (auto & i : ref) {
            void * v = 0;
            if (embc_strmap_get(m, i.first.c_str(), &v) || v != i.second) { violate(C20, "strmap", "\"%s\" is lost", i.first.c_str()); }
        }
    }
};

int hash_style;
uint64_t hash_calls;
embc_size_t hash_fn(void * k) {
    step();
    ++hash_calls;
    uintptr_t v = *(uintptr_t *) k;
    switch (hash_style) {
        case 0: return (embc_size_t) v;
        case 1: return 5;                           // everything collides
        case 2: return (embc_size_t) (v * 8);       // one bin, different hashes
        case 3: return -(embc_size_t) v;            // negative
        case 4: return (embc_size_t) (v / 3);       // some equal hashes
        default: return (embc_size_t) mix(v);
    }
}
bool equiv_fn(void * a, void * b) { step(); return *(uintptr_t *) a == *(uintptr_t *) b; }

struct HashMap {
    struct embc_hashmap_s * m = 0;
    std::map<uintptr_t, void *> ref;
    std::deque<uintptr_t> keys;     // keys belong to the user and stay valid
    int range_ = 10;
    uintptr_t value = 0;

    void op() {
        keys.push_back(draw(APP, (uint32_t) range_));
        uintptr_t * k = &keys.back();
        void * old = (void *) 0x1111;
        bool want_old = !chance(APP, 1, 4);
        auto i = ref.find(*k);
        uint32_t o = draw(APP, 4);
        ev("hashmap", o, (int64_t) *k, want_old);
        if (o < 2) {
            void * v = chance(APP, 1, 12) ? 0 : (void *) (++value * 16);
            int rc = embc_hashmap_put(m, k, v, want_old ? &old : 0);
            void * w = i == ref.end() ? 0 : i->second;
            if (rc) { violate(C20, "hashmap", "put returns %d", rc); }
            if (want_old && old != w) { violate(C20, "hashmap", "put returns the old value %p, expected %p", old, w); }
            if (i != ref.end()) { nontrivial(); }
            ref[*k] = v;
        } else {
            // the key of a query belongs to the caller
            uintptr_t * q = (uintptr_t *) heap_alloc(sizeof(*q));
            *q = *k;
            int rc = embc_hashmap_get(m, q, want_old ? &old : 0);
            *q = ~*k;
            heap_free(q);
            if (rc != (i != ref.end() ? 0 : EMBC_ERROR_NOT_FOUND)) { violate(C20, "hashmap", "get returns %d", rc); }
            void * w = i == ref.end() ? 0 : i->second;
            if (want_old && old != w) { violate(C20, "hashmap", "get returns %p, expected %p", old, w); }
        }
        if (embc_hashmap_length(m) != (embc_size_t) ref.size()) { violate(C20, "hashmap", "length %ld of %zu", (long) embc_hashmap_length(m), ref.size()); }
    }
    void sweep() {
        for (auto & i : ref) {
            uintptr_t k = i.first;
            void * v = 0;
            if (embc_hashmap_get(m, &k, &v) || v != i.second) { violate(C20, "hashmap", "key %zu is lost", (size_t) k); }
        }
    }
};

void run_world() {
    set_step_limit(400000);
    embc_allocator_set((embc_alloc_fn) heap_alloc, (embc_free_fn) heap_free);
    size_t before = heap().live_blocks;
    std::vector<Entry *> entries;
    int n = 1 + (int) draw(CFG, chance(CFG, 1, 100) ? 400 : 10);
    for (int i = 0; i < n; ++i) {
        Entry * e = (Entry *) heap_alloc(sizeof(Entry));
        e->id = i;
        e->guard = 0x5a5a;
        embc_list_initialize(&e->a);
        embc_list_initialize(&e->b);
        entries.push_back(e);
    }
    Lists ls[2];
    for (int k = 0; k < 2; ++k) {
        ls[k].kind = k;
        ls[k].entries = &entries;
        int c = 1 + (int) draw(CFG, 3);
        for (int i = 0; i < c; ++i) {
            struct embc_list_s * p = (struct embc_list_s *) heap_alloc(sizeof(*p));
            embc_list_initialize(p);
            ls[k].lists.push_back(p);
        }
        ls[k].ref.resize((size_t) c);
    }
    int mix_ = (int) draw(CFG, 4);      // 0: everything
    StrMap sm[2];
    HashMap hm[2];
    for (auto & s : sm) { s.style = (int) draw(CFG, 7); s.m = embc_strmap_new(); }
    hash_style = (int) draw(CFG, 6);
    hash_calls = 0;
    if (embc_hashmap_new(0, equiv_fn) || embc_hashmap_new(hash_fn, 0)) { violate(C20, "hashmap", "new without a hash or equivalence function succeeds"); }
    for (auto & h : hm) { h.range_ = pick<int>(CFG, {10, 3, 40, 200, 4000}); h.m = embc_hashmap_new(hash_fn, equiv_fn); }
    int ops = 1 + (int) draw(CFG, 120);
    if (chance(CFG, 1, 60)) { ops *= 10; }
    for (int i = 0; i < ops; ++i) {
        step();
        int what = mix_ ? mix_ : 1 + (int) draw(SCHED, 3);
        int who = (int) draw(SCHED, 2);
        if (what == 1) { ls[who].op(); }
        else if (what == 2) { sm[who].op(); }
        else { hm[who].op(); }
        uint64_t h = 0;
        for (auto & l : ls) { for (auto & r : l.ref) { h = mix2(h, r.size()); } }
        cover(mix2(h, mix2(sm[0].ref.size() * 64 + sm[1].ref.size(), hm[0].ref.size() * 64 + hm[1].ref.size())));
    }
    for (auto & s : sm) { s.sweep(); embc_strmap_free(s.m); }
    for (auto & h : hm) { h.sweep(); embc_hashmap_free(h.m); }
    for (auto & l : ls) { l.check_all(); for (auto p : l.lists) { heap_free(p); } }
    for (auto e : entries) {
        if (e->guard != 0x5a5a) { violate(C20, "list", "an entry was overwritten"); }
        heap_free(e);
    }
    embc_strmap_free(0);
    embc_hashmap_free(0);
    if (heap().live_blocks != before) { violate(C20, "leak", "%zu blocks are leaked", heap().live_blocks - before); }
}

}  // namespace

World const dst::world = {"coll", {20}, run_world, {}};
