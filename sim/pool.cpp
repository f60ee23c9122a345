// World: several owners of memory pool blocks and of reference counted objects.
// Real: memory/pool.c, memory/object_pool.c.
// Simulated: owners, their scheduling, constructors and destructors, heap.
#include "dst.hpp"
#include <memory>
extern "C" {
#include "embc/memory/pool.h"
#include "embc/memory/object_pool.h"
}
using namespace dst;

namespace {

constexpr uint32_t C10 = P(10);
typedef std::vector<uint8_t> Bytes;

struct Block {
    uint8_t * p;
    Bytes mem;
    int owner, serial;
};
struct Pool {
    struct embc_pool_s * self;
    int32_t count, size;
    std::vector<Block> live;
};

struct Obj {
    uint8_t * p = 0;
    int pool = 0, serial = 0;
    int refs = 0;                 // references held by owners and parents
    bool constructing = false, destructing = false;
    Bytes mem;
    std::vector<Obj *> children;  // references held by this object
};
struct OPool {
    struct embc_object_pool_s * self;
    int32_t count, size;
    bool ctor, dtor;
    int out = 0;
};

struct Sim;
Sim * S = 0;

struct Sim {
    ~Sim() { for (Obj * o : objs) { delete o; } }
    std::vector<Pool> pools;
    std::vector<OPool> opools;
    std::vector<Obj *> objs;                 // live ones
    std::vector<std::vector<Obj *>> refs;    // per owner
    std::map<uint8_t *, Obj *> by_ptr;
    Obj * allocating = 0;
    int serial = 0, depth = 0, ctor_calls = 0, dtor_calls = 0;

    void check_blocks() {
        for (auto & p : pools) {
            for (auto & b : p.live) {
                if (memcmp(b.p, b.mem.data(), b.mem.size())) { violate(C10, "content", "block %d of %d bytes was changed while it was live", b.serial, p.size); }
            }
        }
        for (Obj * o : objs) {
            if (!o->constructing && !o->destructing && memcmp(o->p, o->mem.data(), o->mem.size())) {
                violate(C10, "object-content", "object %d was changed while %d references exist", o->serial, o->refs);
            }
        }
    }
    bool disjoint(uint8_t * p, size_t n, char const * what) {
        auto hit = [&](uint8_t * q, size_t k) { return p < q + k && q < p + n; };
        for (auto & x : pools) { for (auto & b : x.live) { if (hit(b.p, b.mem.size())) { violate(C10, "overlap", "a new %s overlaps live block %d", what, b.serial); return false; } } }
        for (Obj * o : objs) { if (hit(o->p, o->mem.size())) { violate(C10, "overlap", "a new %s overlaps live object %d", what, o->serial); return false; } }
        if (!heap_owns(p, n)) { violate(C10, "outside", "a %s lies outside of the pool's memory", what); return false; }
        return true;
    }
    void scribble(uint8_t * p, Bytes & mem) {
        Prng g(draw_u32(DATA));
        for (auto & b : mem) { b = (uint8_t) g.next(); }
        memcpy(p, mem.data(), mem.size());
    }
    Obj * obj_alloc(int pool, bool nested);
    bool obj_decr(Obj * o);
    void act(size_t owner);
    void nested();
};

// constructors and destructors use the pools themselves
void construct(int pool, void * p) {
    step();
    Sim & s = *S;
    ++s.ctor_calls;
    Obj * o = s.allocating;
    ev("construct", pool);
    if (!o || o->pool != pool || o->p) { violate(C10, "construct", "a constructor runs without an allocation, or twice"); return; }
    o->p = (uint8_t *) p;
    s.disjoint(o->p, (size_t) s.opools[(size_t) pool].size, "object");
    o->constructing = true;
    s.by_ptr[o->p] = o;
    s.objs.push_back(o);
    s.allocating = 0;
    s.scribble(o->p, o->mem);
    if (s.depth < 3 && chance(APP, 1, 3)) {
        probe("constructor allocates");
        Obj * c = s.obj_alloc((int) draw(APP, (uint32_t) s.opools.size()), true);
        if (c) { o->children.push_back(c); }
    }
    if (s.depth < 5 && chance(APP, 1, 8)) { s.nested(); }
    o->constructing = false;
}

void destruct(int pool, void * p) {
    step();
    Sim & s = *S;
    ++s.dtor_calls;
    ev("destruct", pool);
    auto it = s.by_ptr.find((uint8_t *) p);
    if (it == s.by_ptr.end()) { violate(C10, "destruct", "a destructor runs for something that is not live"); return; }
    Obj * o = it->second;
    if (o->pool != pool) { violate(C10, "destruct", "the destructor of another pool runs"); return; }
    if (o->refs != 0) { violate(C10, "destruct", "object %d is destructed with %d references left", o->serial, o->refs); }
    if (o->destructing) { violate(C10, "destruct", "object %d is destructed twice", o->serial); return; }
    if (memcmp(o->p, o->mem.data(), o->mem.size())) { violate(C10, "object-content", "object %d was changed before its destructor", o->serial); }
    o->destructing = true;
    while (o->children.size()) {   // drop what this object refers to
        Obj * c = o->children.back();
        o->children.pop_back();
        s.obj_decr(c);
        probe("destructor releases another object");
    }
    if (s.depth < 3 && chance(APP, 1, 4)) {
        Obj * c = s.obj_alloc(chance(APP, 1, 2) ? pool : (int) draw(APP, (uint32_t) s.opools.size()), true);
        if (c) { s.refs[0].push_back(c); probe("destructor allocates"); }
    }
    s.scribble(o->p, o->mem);
}

template <int N> void ctor_n(void * p) { construct(N, p); }
template <int N> void dtor_n(void * p) { destruct(N, p); }
embc_object_pool_constructor const ctors[4] = {ctor_n<0>, ctor_n<1>, ctor_n<2>, ctor_n<3>};
embc_object_pool_destructor const dtors[4] = {dtor_n<0>, dtor_n<1>, dtor_n<2>, dtor_n<3>};

Obj * Sim::obj_alloc(int pool, bool inner) {
    OPool & op = opools[(size_t) pool];
    bool full = op.out >= op.count;
    if (inner && full) { return 0; }
    Obj * o = new Obj;
    o->pool = pool;
    o->serial = ++serial;
    o->refs = 1;
    o->mem.assign((size_t) op.size, 0);
    ++op.out;
    Obj * outer = allocating;
    allocating = o;
    ++depth;
    int before = ctor_calls;
    void * p = 0;
    bool bad = false;
    if (inner) { p = embc_object_pool_alloc(op.self); } else { bad = asserts([&]() { p = embc_object_pool_alloc(op.self); }); }
    --depth;
    allocating = outer;
    ev("obj_alloc", pool, o->serial, bad);
    if (full) {
        fault("pool exhausted");
        if (!bad) { violate(C10, "exhausted", "an object pool with all %d objects out hands out another", op.count); }
        --op.out;
        delete o;
        return 0;
    }
    if (bad || !p) { violate(C10, "exhausted", "an object pool with %d of %d objects out fails", op.out - 1, op.count); --op.out; delete o; return 0; }
    if (op.ctor) {
        if (o->p != p) { violate(C10, "construct", "the constructor of object %d did not run exactly once for it", o->serial); }
    } else {
        o->p = (uint8_t *) p;
        if (!disjoint(o->p, (size_t) op.size, "object")) { --op.out; delete o; return 0; }
        for (int i = 0; i < op.size; ++i) { if (o->p[i]) { violate(C10, "zero", "a new object of a pool without constructor is not zero at %d", i); break; } }
        by_ptr[o->p] = o;
        objs.push_back(o);
        if (ctor_calls != before) { violate(C10, "construct", "a pool without constructor constructs"); }
    }
    if (((uintptr_t) p) % 8) { violate(C10, "align", "an object at %p is not aligned", p); }
    if (chance(DATA, 3, 4)) { scribble(o->p, o->mem); } else { o->mem.assign(o->p, o->p + op.size); }
    return o;
}

bool Sim::obj_decr(Obj * o) {
    OPool & op = opools[(size_t) o->pool];
    --o->refs;
    bool last = o->refs == 0;
    int before = dtor_calls;
    ++depth;
    bool r = embc_object_pool_decr(o->p);
    --depth;
    ev("obj_decr", o->serial, o->refs, r);
    if (r != last) { violate(C10, "count", "decr returns %d with %d references left", r, o->refs); }
    if (last) {
        if (op.dtor ? !o->destructing : dtor_calls != before) { violate(C10, "destruct", "the destructor of object %d did not run as configured", o->serial); }
        std::vector<Obj *> kids;
        kids.swap(o->children);
        by_ptr.erase(o->p);
        objs.erase(std::find(objs.begin(), objs.end(), o));
        --op.out;
        for (Obj * c : kids) { obj_decr(c); }   // no destructor: the owner releases the children
        delete o;
    }
    return last;
}

void Sim::nested() {
    // plain blocks from within a constructor
    Pool & p = pools[draw(APP, (uint32_t) pools.size())];
    void * b = embc_pool_alloc_unsafe(p.self);
    bool full = (int) p.live.size() >= p.count;
    if ((b == 0) != full) { violate(C10, "exhausted", "alloc_unsafe returns %s with %zu of %d blocks out", b ? "a block" : "null", p.live.size(), p.count); }
    if (b) { embc_pool_free(p.self, b); }
}

void Sim::act(size_t owner) {
    auto & mine = refs[owner];
    int k = (int) draw(APP, 12);
    if (k < 3) {
        Pool & p = pools[draw(APP, (uint32_t) pools.size())];
        bool full = (int) p.live.size() >= p.count;
        bool unsafe = chance(APP, 1, 2);
        if (full) { fault("pool exhausted"); }
        if ((embc_pool_is_empty(p.self) != 0) != full) { violate(C10, "empty", "is_empty is %d with %zu of %d blocks out", embc_pool_is_empty(p.self), p.live.size(), p.count); }
        void * b = 0;
        bool bad = asserts([&]() { b = unsafe ? embc_pool_alloc_unsafe(p.self) : embc_pool_alloc(p.self); });
        ev("alloc", &p - &pools[0], unsafe, bad, b != 0);
        if (bad != (full && !unsafe)) { violate(C10, "exhausted", "alloc%s %s with %zu of %d blocks out", unsafe ? "_unsafe" : "", bad ? "asserts" : "does not assert", p.live.size(), p.count); }
        if (bad) { return; }
        if ((b == 0) != full) { violate(C10, "exhausted", "alloc returns %s with %zu of %d blocks out", b ? "a block" : "null", p.live.size(), p.count); }
        if (!b) { return; }
        if (((uintptr_t) b) % sizeof(int *)) { violate(C10, "align", "a block at %p is not aligned", b); }
        if (!disjoint((uint8_t *) b, (size_t) p.size, "block")) { return; }
        Block x = {(uint8_t *) b, Bytes((size_t) p.size), (int) owner, ++serial};
        p.live.push_back(x);
        scribble(p.live.back().p, p.live.back().mem);
    } else if (k < 5) {
        Pool & p = pools[draw(APP, (uint32_t) pools.size())];
        if (p.live.empty()) { return; }
        size_t i = draw(APP, (uint32_t) p.live.size());
        Block x = p.live[i];
        p.live.erase(p.live.begin() + (long) i);
        ev("free", &p - &pools[0], x.serial);
        memset(x.p, 0xFF, x.mem.size());
        embc_pool_free(p.self, x.p);
        if (embc_pool_is_empty(p.self)) { violate(C10, "empty", "the pool is empty after a free"); }
    } else if (k < 8) {
        Obj * o = obj_alloc((int) draw(APP, (uint32_t) opools.size()), false);
        if (o) { mine.push_back(o); }
    } else if (k == 8 && mine.size()) {   // share
        Obj * o = mine[draw(APP, (uint32_t) mine.size())];
        if (o->refs >= 60000) { return; }
        embc_object_pool_incr(o->p);
        ++o->refs;
        refs[draw(APP, (uint32_t) refs.size())].push_back(o);
        ev("share", o->serial, o->refs);
    } else if (k == 9 && mine.size()) {   // one object refers to another (no cycles: only to older ones)
        Obj * o = mine[draw(APP, (uint32_t) mine.size())];
        Obj * c = mine[draw(APP, (uint32_t) mine.size())];
        if (c->serial < o->serial && o->children.size() < 4) {
            embc_object_pool_incr(c->p);
            ++c->refs;
            o->children.push_back(c);
            ev("refer", o->serial, c->serial);
        }
    } else if (mine.size()) {
        size_t i = draw(APP, (uint32_t) mine.size());
        Obj * o = mine[i];
        mine.erase(mine.begin() + (long) i);
        bool final = o->refs == 1;
        if (!final && chance(DATA, 1, 2)) { scribble(o->p, o->mem); }
        obj_decr(o);
    }
}

void run_world() {
    set_step_limit(100000);
    std::unique_ptr<Sim> sim(new Sim);
    S = sim.get();
    Sim & s = *S;
    auto size = [&]() { return chance(CFG, 1, 6) ? 1 + (int) draw(CFG, 300) : 1 + (int) draw(CFG, 40); };
    int np = 1 + (int) draw(CFG, 3), no = 1 + (int) draw(CFG, 4);
    for (int i = 0; i < np; ++i) {
        Pool p;
        p.count = 1 + (int) draw(CFG, chance(CFG, 1, 5) ? 64 : 8);
        p.size = size();
        if (chance(CFG, 1, 40)) { p.count = 250 + (int) draw(CFG, 20); }
        else if (chance(CFG, 1, 400)) { p.count = 65530 + (int) draw(CFG, 40); p.size = 1 + (int) draw(CFG, 8); }
        else if (chance(CFG, 1, 200)) { p.count = 1 + (int) draw(CFG, 4); p.size = 65530 + (int) draw(CFG, 40); }
        size_t n = (size_t) embc_pool_instance_size(p.count, p.size);
        p.self = (struct embc_pool_s *) heap_alloc(n);
        memset((void *) p.self, 0xA5, n);
        if (embc_pool_initialize(p.self, p.count, p.size)) { violate(C10, "init", "pool initialize fails"); }
        s.pools.push_back(p);
    }
    for (int i = 0; i < no; ++i) {
        OPool p;
        p.count = 1 + (int) draw(CFG, 8);
        p.size = size();
        if (chance(CFG, 1, 40)) { p.count = 250 + (int) draw(CFG, 20); }
        else if (chance(CFG, 1, 200)) { p.size = 65530 + (int) draw(CFG, 40); }
        p.ctor = chance(CFG, 2, 3);
        p.dtor = chance(CFG, 2, 3);
        size_t n = (size_t) embc_object_pool_instance_size(p.count, p.size);
        p.self = (struct embc_object_pool_s *) heap_alloc(n);
        memset((void *) p.self, 0xA5, n);
        if (embc_object_pool_initialize(p.self, p.count, p.size, p.ctor ? ctors[i] : 0, p.dtor ? dtors[i] : 0)) { violate(C10, "init", "object pool initialize fails"); }
        s.opools.push_back(p);
    }
    size_t owners = 1 + draw(CFG, 4);
    s.refs.resize(owners);
    int n = 10 + (int) draw(CFG, 150);
    note("pools %d object pools %d owners %zu steps %d", np, no, owners, n);
    for (int i = 0; i < n; ++i) {
        step();
        s.act(draw(SCHED, (uint32_t) owners));
        s.check_blocks();
    }
    uint64_t shape = 0;
    for (auto & p : s.pools) { shape = mix2(shape, p.live.size()); }
    for (auto & p : s.opools) { shape = mix2(shape, (uint64_t) p.out); }
    cover(shape);
    // the reference counter reaches its limit
    if (chance(CFG, 1, 200)) {
        for (auto & r : s.refs) {
            if (r.empty()) { continue; }
            Obj * o = r[0];
            int extra = 0;
            for (int i = 0; i < 66000; ++i) {
                if (asserts([&]() { embc_object_pool_incr(o->p); })) { break; }
                ++extra;
            }
            probe("reference counter at its limit");
            for (int i = 0; i < extra; ++i) { if (embc_object_pool_decr(o->p)) { violate(C10, "count", "object freed after %d of %d references were dropped", i + 1, extra + o->refs); break; } }
            break;
        }
    }
    // everything is released, in any order
    for (int guard = 0; guard < 5000; ++guard) {
        bool any = false;
        for (auto & r : s.refs) {
            if (r.empty()) { continue; }
            any = true;
            size_t i = draw(SCHED, (uint32_t) r.size());
            Obj * o = r[i];
            r.erase(r.begin() + (long) i);
            s.obj_decr(o);
        }
        if (!any) { break; }
    }
    for (auto & p : s.pools) {
        while (p.live.size()) {
            size_t i = draw(SCHED, (uint32_t) p.live.size());
            embc_pool_free(p.self, p.live[i].p);
            p.live.erase(p.live.begin() + (long) i);
        }
        std::set<void *> got;
        void * b;
        while ((int) got.size() <= p.count && (b = embc_pool_alloc_unsafe(p.self))) { if (!got.insert(b).second) { violate(C10, "overlap", "the same block twice"); break; } }
        if ((int) got.size() != p.count) { violate(C10, "conservation", "%zu of %d blocks are available after all were freed", got.size(), p.count); }
        embc_pool_finalize(p.self);
    }
    for (size_t i = 0; i < s.opools.size(); ++i) {
        auto & p = s.opools[i];
        if (p.out) { violate(C10, "conservation", "model: %d objects left", p.out); }
        std::vector<Obj *> got;
        for (int k = 0; k < p.count; ++k) { s.depth = 5; Obj * o = s.obj_alloc((int) i, false); if (!o) { break; } got.push_back(o); }
        if ((int) got.size() != p.count) { violate(C10, "conservation", "%zu of %d objects are available after all were released", got.size(), p.count); }
        for (Obj * o : got) { s.obj_decr(o); }
        for (Obj * o : std::vector<Obj *>(s.refs[0])) { s.obj_decr(o); }
        s.refs[0].clear();
        embc_object_pool_finalize(p.self);
    }
    if (s.serial > 6) { nontrivial(); }
}

}  // namespace

namespace dst {
World const world = {"pool", {10}, run_world, {}};
}
