// World: owners of variable sized regions of a block allocator.
// Real: memory/block.c.  Simulated: owners, scheduling, heap.
// Reference: one flag per block, lowest sufficient run of free blocks.
#include "dst.hpp"
extern "C" {
#include "embc/memory/block.h"
}
using namespace dst;

namespace {

constexpr uint32_t C11 = P(11);
typedef std::vector<uint8_t> Bytes;
struct Region { uint8_t * p; int32_t size; int at, blocks, owner; uint8_t v; };
struct A {
    struct embc_mblock_s * self;
    uint8_t * mem;
    int32_t size, block;
    std::vector<bool> used;
    std::vector<Region> live;
    int find(int64_t blocks) {
        int64_t run = 0;
        for (size_t i = 0; i < used.size(); ++i) {
            run = used[i] ? 0 : run + 1;
            if (run >= blocks) { return (int) (i + 1 - (size_t) blocks); }
        }
        return -1;
    }
};

void run_world() {
    set_step_limit(100000);
    int n = 1 + (int) draw(CFG, 2);
    std::vector<A> as;
    for (int i = 0; i < n; ++i) {
        A a;
        a.block = pick(CFG, {1, 2, 8, 16, 64, -1});
        if (a.block < 0) { a.block = 1 + (int) draw(CFG, 100); }
        int blocks = chance(CFG, 1, 3) ? 1 + (int) draw(CFG, 300) : 1 + (int) draw(CFG, 40);
        if (chance(CFG, 1, 150)) { blocks = 65530 + (int) draw(CFG, 8000); }
        a.size = a.block * blocks + (int) draw(CFG, (uint32_t) a.block);   // a partial last block is not used
        a.mem = (uint8_t *) heap_alloc((size_t) a.size);
        memset(a.mem, 0, (size_t) a.size);
        size_t sz = (size_t) embc_mblock_instance_size(a.size, a.block);
        a.self = (struct embc_mblock_s *) heap_alloc(sz);
        memset((void *) a.self, 0xA5, sz);
        if (embc_mblock_initialize(a.self, a.mem, a.size, a.block)) { violate(C11, "init", "initialize fails"); }
        a.used.assign((size_t) blocks, false);
        as.push_back(a);
    }
    int owners = 1 + (int) draw(CFG, 4);
    int steps_n = 10 + (int) draw(CFG, 190);
    int phase_len = 1 + (int) draw(CFG, 60);
    int allocs = 0, failed = 0;
    note("allocators %d owners %d steps %d", n, owners, steps_n);
    for (int i = 0; i < steps_n; ++i) {
        step();
        A & a = as[draw(SCHED, (uint32_t) n)];
        int owner = (int) draw(SCHED, (uint32_t) owners);
        if (chance(APP, 1, 150)) {   // start over
            if (embc_mblock_initialize(a.self, a.mem, a.size, a.block)) { violate(C11, "init", "initialize fails"); }
            a.live.clear();
            a.used.assign(a.used.size(), false);
            ev("initialize", &a - &as[0]);
            probe("initialized again");
        }
        bool grow = (i / phase_len) % 2 == 0;
        if (chance(APP, grow ? 3 : 1, 4) || a.live.empty()) {
            int32_t sz;
            int nb = (int) a.used.size();
            switch (draw(APP, 5)) {
                case 0: sz = 1 + (int32_t) draw(APP, (uint32_t) a.block * 3); break;
                case 1: sz = a.block * (1 + (int32_t) draw(APP, (uint32_t) std::max(1, nb / 4))); break;
                case 2: sz = 1 + (int32_t) draw(APP, (uint32_t) a.size); break;
                case 3: {   // around the longest free run
                    int best = 0, run = 0;
                    for (bool u : a.used) { run = u ? 0 : run + 1; best = std::max(best, run); }
                    sz = std::max(1, best * a.block + range(APP, -1, 1));
                    break;
                }
                default: sz = pick<int32_t>(APP, {1, a.size, a.size + 1, INT32_MAX, INT32_MAX - a.block, 1 << 30}); break;
            }
            int64_t blocks = ((int64_t) sz + a.block - 1) / a.block;
            int at = a.find(blocks);
            bool unsafe = chance(APP, 1, 2);
            uint8_t * p = 0;
            bool bad = asserts([&]() { p = (uint8_t *) (unsafe ? embc_mblock_alloc_unsafe(a.self, sz) : embc_mblock_alloc(a.self, sz)); });
            ev("alloc", &a - &as[0], sz, at, p ? p - a.mem : -1);
            if (at < 0) { fault("allocator exhausted"); ++failed; }
            if (bad != (at < 0 && !unsafe)) { violate(C11, "alloc-assert", "alloc%s of %d bytes %s", unsafe ? "_unsafe" : "", sz, bad ? "asserts" : "does not assert"); }
            if (bad) { continue; }
            if ((p == 0) != (at < 0)) { violate(C11, "alloc-result", "alloc of %d bytes (%lld blocks of %d) returns %s, the longest free run would %s", sz, (long long) blocks, a.block, p ? "memory" : "null", at < 0 ? "not suffice" : "suffice"); continue; }
            if (!p) { continue; }
            if (p < a.mem || p + sz > a.mem + a.size) { violate(C11, "outside", "a region of %d bytes lies outside of the memory", sz); continue; }
            if ((p - a.mem) % a.block) { violate(C11, "boundary", "a region starts at %ld, blocks are %d bytes", (long) (p - a.mem), a.block); }
            for (auto & r : a.live) { if (p < r.p + r.size && r.p < p + sz) { violate(C11, "overlap", "a new region overlaps a live one"); } }
            if (p - a.mem != (long) at * a.block) { violate(C11, "first-fit", "%lld blocks were allocated at block %ld, the lowest free run is at %d", (long long) blocks, (long) (p - a.mem) / a.block, at); continue; }
            Region r = {p, sz, at, (int) blocks, owner, (uint8_t) draw(DATA, 256)};
            memset(p, r.v, (size_t) sz);
            for (int k = 0; k < r.blocks; ++k) { a.used[(size_t) (at + k)] = true; }
            a.live.push_back(r);
            ++allocs;
        } else {
            size_t k = draw(APP, (uint32_t) a.live.size());
            Region r = a.live[k];
            for (int32_t j = 0; j < r.size; ++j) { if (r.p[j] != r.v) { violate(C11, "content", "byte %d of a live region changed", j); break; } }
            a.live.erase(a.live.begin() + (long) k);
            bool bad = asserts([&]() { embc_mblock_free(a.self, r.p, r.size); });
            ev("free", &a - &as[0], r.at, r.blocks, bad);
            if (bad) { violate(C11, "free-assert", "the free of a live region asserts"); }
            for (int j = 0; j < r.blocks; ++j) { a.used[(size_t) (r.at + j)] = false; }
        }
    }
    uint64_t h = 0;
    for (auto & a : as) { for (bool u : a.used) { h = h * 3 + u + 1; } }
    cover(mix(h));
    for (auto & a : as) {
        while (a.live.size()) {
            size_t k = draw(SCHED, (uint32_t) a.live.size());
            Region r = a.live[k];
            a.live.erase(a.live.begin() + (long) k);
            if (asserts([&]() { embc_mblock_free(a.self, r.p, r.size); })) { violate(C11, "free-assert", "the free of a live region asserts"); }
        }
        int32_t full = a.block * (int32_t) a.used.size();
        void * p = 0;
        if (asserts([&]() { p = embc_mblock_alloc(a.self, full); }) || p != a.mem) { violate(C11, "conservation", "the full capacity is not available after everything was freed"); }
        if (embc_mblock_alloc_unsafe(a.self, 1)) { violate(C11, "alloc-result", "memory beyond the full capacity was allocated"); }
        embc_mblock_finalize(a.self);
    }
    if (allocs > 2 && failed) { nontrivial(); }
}

}  // namespace

namespace dst {
World const world = {"mblock", {11}, run_world, {}};
}
