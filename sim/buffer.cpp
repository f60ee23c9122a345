// World: several owners which allocate, fill, pass on and free buffers.
// Real: memory/buffer.c and the inline functions of buffer.h, list.h.
// Simulated: the owners and their scheduling, the heap, exhaustion.
// Reference: one byte array per live buffer, one counter per size class.
#include "dst.hpp"
#include <memory>
extern "C" {
#include "embc/memory/buffer.h"
#include "embc/collections/list.h"
#include "embc/platform.h"
}
using namespace dst;

namespace {

typedef std::vector<uint8_t> Bytes;
constexpr uint32_t C09 = P(9);

struct Alloc {
    struct embc_buffer_allocator_s * self = 0;
    bool own_memory = false;
    std::vector<embc_size_t> sizes;   // configured counts
    std::vector<int> out;             // live per class
    size_t bytes = 0;
};

struct Model {
    struct embc_buffer_s * b = 0;
    int alloc = -1, cls = -1;         // -1: static
    uint16_t capacity = 0, cursor = 0, length = 0, reserve = 0, id = 0, flags = 0;
    uint8_t * data = 0;
    struct embc_buffer_manager_s const * manager = 0;
    Bytes mem;
    int owner = 0;
    int serial = 0;
    bool wrapped = false;
};

// A module which wants to know when its buffer is released.
struct Wrapper {
    struct embc_buffer_manager_s m;
    struct embc_buffer_manager_s const * original = 0;
    struct embc_buffer_s * b = 0;
    int freed = 0;
};

struct StaticBuf {
    uint8_t b_mem_[61];
    uint8_t guard[3];
    alignas(8) struct embc_buffer_s b;
};

struct Sim {
    ~Sim() { for (Model * m : live) { delete m; } for (Wrapper * w : wrappers) { delete w; } }
    std::vector<Alloc> allocs;
    std::vector<Model *> live;
    struct Owner { struct embc_list_s inbox; std::vector<Model *> has; };
    std::vector<Owner> owners;
    std::map<struct embc_buffer_s *, Model *> by_ptr;
    std::vector<Wrapper *> wrappers;
    int serial = 0;

    void check(Model & m, bool content) {
        struct embc_buffer_s * b = m.b;
        if (b->data != m.data || b->capacity != m.capacity) { violate(C09, "identity", "buffer %d: its data pointer or capacity changed", m.serial); }
        if (b->cursor != m.cursor || b->length != m.length || b->reserve != m.reserve) {
            violate(C09, "position", "buffer %d: cursor %d length %d reserve %d, expected %d %d %d", m.serial, b->cursor, b->length, b->reserve, m.cursor, m.length, m.reserve);
        }
        if (b->buffer_id != m.id || b->flags != m.flags || b->manager != m.manager) { violate(C09, "fields", "buffer %d: its id, flags or manager changed", m.serial); }
        if (embc_buffer_capacity(b) != m.capacity || embc_buffer_length(b) != m.length || embc_buffer_cursor_get(b) != m.cursor
            || embc_buffer_write_remaining(b) != (embc_size_t) m.capacity - m.cursor - m.reserve
            || embc_buffer_read_remaining(b) != (embc_size_t) m.length - m.cursor) {
            violate(C09, "accessor", "buffer %d: an accessor disagrees with the buffer", m.serial);
        }
        if (content && memcmp(m.data, m.mem.data(), m.mem.size())) {
            size_t i = 0;
            while (m.data[i] == m.mem[i]) { ++i; }
            violate(C09, "content", "buffer %d: byte %zu of %d is 0x%02x, expected 0x%02x (cursor %d length %d)", m.serial, i, m.capacity, m.data[i], m.mem[i], m.cursor, m.length);
        }
    }
    void check_all(Model * busy) {
        for (Model * m : live) { check(*m, m->mem.size() <= 512 || m == busy || (m->serial & 7) == (int) (steps() & 7)); }
    }
    void adopt(Model * m) {   // a fresh buffer
        struct embc_buffer_s * b = m->b;
        m->capacity = b->capacity;
        m->data = b->data;
        m->manager = b->manager;
        m->serial = ++serial;
        if (b->cursor || b->length || b->reserve || b->buffer_id || b->flags) {
            violate(C09, "fresh", "a new buffer has cursor %d length %d reserve %d id %d flags %d", b->cursor, b->length, b->reserve, b->buffer_id, b->flags);
            b->cursor = b->length = b->reserve = b->buffer_id = b->flags = 0;
        }
        if (b->item.next != &b->item || b->item.prev != &b->item) { violate(C09, "item", "a new buffer is still in a list"); }
        auto overlap = [](void const * p, size_t n, void const * q, size_t k) { return (uint8_t const *) p < (uint8_t const *) q + k && (uint8_t const *) q < (uint8_t const *) p + n; };
        if (overlap(b, sizeof(*b), m->data, m->capacity)) { violate(C09, "overlap", "the data of a buffer overlaps its own header"); }
        for (Model * o : live) {
            if (overlap(b, sizeof(*b), o->b, sizeof(*b)) || overlap(b, sizeof(*b), o->data, o->capacity)
                || overlap(m->data, m->capacity, o->b, sizeof(*b)) || overlap(m->data, m->capacity, o->data, o->capacity)) {
                violate(C09, "overlap", "new buffer %d overlaps live buffer %d", m->serial, o->serial);
            }
        }
        m->mem.assign(m->data, m->data + m->capacity);
        live.push_back(m);
        by_ptr[b] = m;
    }
    void drop(Model * m) {
        live.erase(std::find(live.begin(), live.end(), m));
        auto & h = owners[(size_t) m->owner].has;
        h.erase(std::find(h.begin(), h.end(), m));
        by_ptr.erase(m->b);
    }
    // scribble over the data and header of a buffer we own: others must not notice
    void fill(Model & m, uint8_t v) {
        memset(m.data, v, m.capacity);
        std::fill(m.mem.begin(), m.mem.end(), v);
    }
    void do_alloc(size_t owner);
    void do_free(size_t owner);
    void do_op(Model & m);
    void do_static();
};

void wrapper_free(struct embc_buffer_manager_s const * self, struct embc_buffer_s * b) {
    Wrapper * w = (Wrapper *) ((uint8_t *) self - offsetof(Wrapper, m));
    ++w->freed;
    w->b = b;
    b->manager = w->original;
    embc_buffer_free(b);
}

void Sim::do_alloc(size_t owner) {
    int ai = (int) draw(APP, (uint32_t) allocs.size());
    Alloc & a = allocs[(size_t) ai];
    embc_size_t max = a.sizes.empty() ? 0 : 32 << (a.sizes.size() - 1);
    embc_size_t sz = 0;
    switch (draw(APP, 4)) {
        case 0: { embc_size_t base = 32 << draw(APP, (uint32_t) a.sizes.size()); sz = base + range(APP, -1, 1); break; }
        case 1: sz = 1 + (embc_size_t) draw(APP, (uint32_t) max); break;
        case 2: sz = 32 << draw(APP, (uint32_t) a.sizes.size()); break;
        default: sz = pick<embc_size_t>(APP, {1, 2, 31, 32, 33, 0, -1, max, max + 1, 2 * max}); break;
    }
    bool legal = sz >= 1 && sz <= max;
    int cls = 0;
    if (legal) { while ((32 << cls) < sz) { ++cls; } }
    bool empty = legal && a.out[(size_t) cls] >= a.sizes[(size_t) cls];
    bool unsafe = chance(APP, 1, 2);
    struct embc_buffer_s * b = 0;
    bool asserted = asserts([&]() { b = unsafe ? embc_buffer_alloc_unsafe(a.self, sz) : embc_buffer_alloc(a.self, sz); });
    ev("alloc", (int64_t) owner, sz, asserted, b != 0);
    if (empty) { fault("allocator exhausted"); }
    bool want_assert = !legal || (empty && !unsafe);
    if (asserted != want_assert) {
        violate(C09, "alloc-assert", "alloc%s of %ld bytes %s (%d of %d out)", unsafe ? "_unsafe" : "", (long) sz, asserted ? "asserts" : "does not assert", legal ? a.out[(size_t) cls] : -1, legal ? (int) a.sizes[(size_t) cls] : -1);
    }
    if (asserted) { return; }
    if ((b == 0) != (!legal || empty)) {
        violate(C09, "alloc-result", "alloc of %ld bytes returns %s with %d of %d buffers out", (long) sz, b ? "a buffer" : "null", legal ? a.out[(size_t) cls] : -1, legal ? (int) a.sizes[(size_t) cls] : -1);
        return;
    }
    if (!b) { return; }
    if (!heap_owns(b, sizeof(*b)) || !heap_owns(b->data, b->capacity)) { violate(C09, "outside", "a buffer lies outside of the allocator's memory"); }
    if (by_ptr.count(b)) { violate(C09, "twice", "a live buffer was handed out again"); return; }
    if (b->capacity < sz) { violate(C09, "capacity", "a request for %ld bytes got a buffer of %d", (long) sz, b->capacity); }
    ++a.out[(size_t) cls];
    Model * m = new Model;
    m->b = b; m->alloc = ai; m->cls = cls; m->owner = (int) owner;
    adopt(m);
    owners[owner].has.push_back(m);
    if (chance(APP, 1, 2)) { fill(*m, (uint8_t) draw(DATA, 256)); }
}

void Sim::do_free(size_t owner) {
    auto & h = owners[owner].has;
    if (h.empty()) { return; }
    Model * m = h[draw(APP, (uint32_t) h.size())];
    ev("free", (int64_t) owner, m->serial);
    if (m->alloc < 0) { embc_buffer_free(m->b); return; }   // static: stays as it is
    if (chance(APP, 1, 2)) { fill(*m, 0xDD); }
    Wrapper * w = 0;
    for (Wrapper * x : wrappers) { if (x->b == m->b && !x->freed) { w = x; } }
    drop(m);
    embc_buffer_free(m->b);
    --allocs[(size_t) m->alloc].out[(size_t) m->cls];
    if (w && w->freed != 1) { violate(C09, "manager", "the wrapped manager was called %d times", w->freed); }
    delete m;
}

void Sim::do_op(Model & m) {
    struct embc_buffer_s * b = m.b;
    int wr = (int) m.capacity - m.cursor - m.reserve, rd = m.length - m.cursor;
    // a size around what is possible
    auto around = [&](int limit) {
        switch (draw(DATA, 5)) {
            case 0: return std::max(0, (int) draw(DATA, 9));
            case 1: return std::max(0, limit);
            case 2: return std::max(0, limit) + 1;
            case 3: return limit > 0 ? limit - 1 : 0;
            default: return (int) draw(DATA, (uint32_t) std::max(0, limit) + 4);
        }
    };
    auto put = [&](Bytes const & d) {
        memcpy(m.mem.data() + m.cursor, d.data(), d.size());
        m.cursor = (uint16_t) (m.cursor + d.size());
        m.length = std::max(m.length, m.cursor);
    };
    auto random = [&](int n) {
        Prng g(draw_u32(DATA));
        Bytes d;
        for (int i = 0; i < n; ++i) { d.push_back((uint8_t) g.next()); }
        return d;
    };
    auto expect = [&](char const * what, bool asserted, bool want, int n) {
        if (want) { probe("documented assertion"); }
        if (asserted != want) {
            violate(C09, "assert", "%s of %d bytes %s (capacity %d cursor %d length %d reserve %d)", what, n, asserted ? "asserts" : "does not assert", m.capacity, m.cursor, m.length, m.reserve);
        }
    };
    int op = (int) draw(APP, 19);
    switch (op) {
        case 0: {
            Bytes d = random(around(wr));
            bool bad = asserts([&]() { embc_buffer_write(b, d.data(), (embc_size_t) d.size()); });
            bool want = d.size() > 0 && (int) d.size() > wr;
            ev("write", m.serial, (int64_t) d.size(), bad);
            expect("write", bad, want, (int) d.size());
            if (!want && !bad) { put(d); }
            break;
        }
        case 1: {
            int n = around(rd);
            Bytes d((size_t) n + 4, 0xEE);
            bool bad = asserts([&]() { embc_buffer_read(b, d.data(), n); });
            bool want = n > 0 && n > rd;
            ev("read", m.serial, n, bad);
            expect("read", bad, want, n);
            if (!bad && !want) {
                if (memcmp(d.data(), m.mem.data() + m.cursor, (size_t) n)) { violate(C09, "read", "buffer %d: read of %d bytes at %d returns other data", m.serial, n, m.cursor); }
                for (int i = n; i < n + 4; ++i) { if (d[(size_t) i] != 0xEE) { violate(C09, "read", "read of %d bytes writes %d", n, i + 1); } }
                m.cursor = (uint16_t) (m.cursor + n);
            }
            break;
        }
        case 2: case 3: {   // integers
            int width = 1 << draw(APP, 4);
            bool be = width > 1 && chance(APP, 1, 2);
            uint64_t v = ((uint64_t) draw_u32(DATA) << 32) | draw_u32(DATA);
            bool bad = asserts([&]() {
                switch (width) {
                    case 1: embc_buffer_write_u8(b, (uint8_t) v); break;
                    case 2: if (be) { embc_buffer_write_u16_be(b, (uint16_t) v); } else { embc_buffer_write_u16_le(b, (uint16_t) v); } break;
                    case 4: if (be) { embc_buffer_write_u32_be(b, (uint32_t) v); } else { embc_buffer_write_u32_le(b, (uint32_t) v); } break;
                    default: if (be) { embc_buffer_write_u64_be(b, v); } else { embc_buffer_write_u64_le(b, v); } break;
                }
            });
            ev("write_int", m.serial, width, be, bad);
            expect("integer write", bad, width > wr, width);
            if (!bad && width <= wr) {
                Bytes d;
                for (int i = 0; i < width; ++i) { d.push_back((uint8_t) (v >> (8 * (be ? width - 1 - i : i)))); }
                put(d);
            }
            break;
        }
        case 4: case 5: {
            int width = 1 << draw(APP, 4);
            bool be = width > 1 && chance(APP, 1, 2);
            uint64_t v = 0;
            bool bad = asserts([&]() {
                switch (width) {
                    case 1: v = embc_buffer_read_u8(b); break;
                    case 2: v = be ? embc_buffer_read_u16_be(b) : embc_buffer_read_u16_le(b); break;
                    case 4: v = be ? embc_buffer_read_u32_be(b) : embc_buffer_read_u32_le(b); break;
                    default: v = be ? embc_buffer_read_u64_be(b) : embc_buffer_read_u64_le(b); break;
                }
            });
            ev("read_int", m.serial, width, be, bad);
            expect("integer read", bad, width > rd, width);
            if (!bad && width <= rd) {
                uint64_t w = 0;
                for (int i = 0; i < width; ++i) { w |= (uint64_t) m.mem[(size_t) (m.cursor + i)] << (8 * (be ? width - 1 - i : i)); }
                if (v != w) { violate(C09, "read", "buffer %d: %d byte %s read at %d returns 0x%llx, expected 0x%llx", m.serial, width, be ? "be" : "le", m.cursor, (unsigned long long) v, (unsigned long long) w); }
                m.cursor = (uint16_t) (m.cursor + width);
            }
            break;
        }
        case 6: case 7: {   // strings
            int n = around(wr);
            Bytes d = random(n);
            for (auto & c : d) { c = (uint8_t) (c % 255 + 1); }
            char * s = (char *) heap_alloc((size_t) n + 1);
            memcpy(s, d.data(), (size_t) n);
            s[n] = 0;
            bool trunc = op == 7, ok = true, bad = false;
            bad = asserts([&]() { if (trunc) { ok = embc_buffer_write_str_truncate(b, s); } else { embc_buffer_write_str(b, s); } });
            heap_free(s);
            int fit = std::max(0, wr);
            ev("write_str", m.serial, n, trunc, bad * 2 + ok);
            expect("string write", bad, !trunc && n > fit, n);
            if (trunc && ok != (n <= fit)) { violate(C09, "truncate", "write_str_truncate of %d bytes into %d returns %d", n, fit, ok); }
            if (n <= fit) { if (!bad) { put(d); } }
            else if (trunc) { d.resize((size_t) fit); put(d); }
            else if (bad) {   // some prefix may have been written
                int k = (int) b->cursor - m.cursor;
                if (k < 0 || k > fit) { violate(C09, "position", "a failed string write moved the cursor by %d with %d available", k, fit); k = 0; b->cursor = m.cursor; b->length = m.length; }
                d.resize((size_t) k);
                put(d);
                // bytes beyond the cursor but inside the writable region
                for (int i = m.cursor; i < m.cursor + (fit - k); ++i) { m.mem[(size_t) i] = m.data[i]; }
                if (b->length == m.length || b->length <= b->cursor) { b->length = m.length; }
            }
            break;
        }
        case 8: {
            int at = range(DATA, -1, m.length + 1);
            if (chance(DATA, 1, 4)) { at = pick<int>(DATA, {0, (int) m.length}); }
            bool bad = asserts([&]() { embc_buffer_cursor_set(b, at); });
            ev("cursor_set", m.serial, at, bad);
            expect("seek", bad, at < 0 || at > m.length, at);
            if (!bad && at >= 0 && at <= m.length) { m.cursor = (uint16_t) at; }
            break;
        }
        case 9: if (chance(APP, 1, 2)) { embc_buffer_reset(b); m.cursor = m.length = 0; ev("reset", m.serial); } break;
        case 10:
            if (chance(APP, 1, 2)) {
                embc_buffer_clear(b);
                m.cursor = m.length = 0;
                std::fill(m.mem.begin(), m.mem.end(), 0);
                ev("clear", m.serial);
            }
            break;
        case 11: case 12: case 13: {  // erase
            int lo = range(DATA, -1, m.length + 1), hi = range(DATA, -1, m.length + 1);
            if (op == 13 && m.length) { lo = (int) draw(DATA, m.length); hi = range(DATA, lo, m.length); }
            bool bad = asserts([&]() { embc_buffer_erase(b, lo, hi); });
            bool want = lo < 0 || lo > m.length - 1 || hi < 0 || hi > m.length;
            ev("erase", m.serial, lo, hi, bad);
            expect("erase", bad, want, hi - lo);
            if (!want && !bad && hi > lo) {
                Bytes old = m.mem;
                for (int i = hi; i < m.length; ++i) { m.mem[(size_t) (lo + i - hi)] = old[(size_t) i]; }
                int n = hi - lo;
                if (m.cursor >= hi) { m.cursor = (uint16_t) (m.cursor - n); } else if (m.cursor > lo) { m.cursor = (uint16_t) lo; }
                m.length = (uint16_t) (m.length - n);
                // what lies between the new and the old length is unspecified
                for (int i = m.length; i < m.length + n; ++i) { m.mem[(size_t) i] = m.data[i]; }
            }
            break;
        }
        case 14: {
            m.reserve = b->reserve = (uint16_t) (chance(DATA, 1, 8) ? draw(DATA, (uint32_t) m.capacity + 1) : draw(DATA, 9));
            m.id = b->buffer_id = (uint16_t) draw(DATA, 65536);
            m.flags = b->flags = (uint16_t) draw(DATA, 65536);
            ev("reserve", m.serial, m.reserve);
            break;
        }
        case 15: case 16: {  // copy from any other buffer of the same owner
            auto & h = owners[(size_t) m.owner].has;
            Model & s = *h[draw(APP, (uint32_t) h.size())];
            if (&s == &m) { break; }
            int n = around(std::min(wr, s.length - s.cursor));
            bool want = n > s.length - s.cursor || n > wr;
            bool bad = asserts([&]() { embc_buffer_copy(b, s.b, n); });
            ev("copy", m.serial, s.serial, n, bad);
            expect("copy", bad, want, n);
            if (!bad && !want) { put(Bytes(s.mem.begin() + s.cursor, s.mem.begin() + s.cursor + n)); }
            break;
        }
        case 17: {
            if (m.alloc < 0 || m.wrapped) { break; }
            Wrapper * w = new Wrapper;
            w->m.free = wrapper_free;
            w->original = b->manager;
            w->b = b;
            b->manager = &w->m;
            m.manager = b->manager;
            m.wrapped = true;
            wrappers.push_back(w);
            ev("wrap", m.serial);
            probe("manager wrapped");
            break;
        }
        default: fill(m, (uint8_t) draw(DATA, 256)); ev("fill", m.serial); break;
    }
}

void Sim::do_static() {
    StaticBuf * sp = (StaticBuf *) heap_alloc(sizeof(StaticBuf));
    memset((void *) sp, 0xC3, sizeof(*sp));
    EMBC_BUFFER_STATIC_INITIALIZE(sp->b);
    if (sp->b.capacity != sizeof(sp->b_mem_) || sp->b.data != sp->b_mem_) { violate(C09, "static", "a static buffer has capacity %d", sp->b.capacity); }
    Model * m = new Model;
    m->b = &sp->b;
    m->owner = 0;
    adopt(m);
    owners[0].has.push_back(m);
    ev("static");
}

void run_world() {
    embc_allocator_set([](embc_size_t n) -> void * { return heap_alloc((size_t) n); }, [](void * p) { heap_free(p); });
    set_step_limit(100000);
    std::unique_ptr<Sim> sim(new Sim);
    Sim & S = *sim;
    int nalloc = 1 + (int) draw(CFG, 3), nown = 1 + (int) draw(CFG, 4);
    // no new allocator without memory: documented assertion
    if (chance(CFG, 1, 16)) {
        embc_size_t one[1] = {1};
        bool failed = false;
        heap_fail_hook([&](size_t) { failed = true; return true; });
        bool bad = asserts([&]() { embc_buffer_allocator_new(one, 1); });
        heap_fail_hook(nullptr);
        fault("allocation failure");
        if (failed && !bad) { violate(C09, "alloc-assert", "a new allocator without memory does not assert"); }
    }
    for (int i = 0; i < nalloc; ++i) {
        Alloc a;
        int len = 1 + (int) draw(CFG, 8);
        if (chance(CFG, 1, 16)) { len = 9 + (int) draw(CFG, 3); }
        for (int k = 0; k < len; ++k) { a.sizes.push_back((embc_size_t) draw(CFG, 6)); }
        if (chance(CFG, 1, 60)) { a.sizes[draw(CFG, (uint32_t) std::min(len, 4))] = 250 + (embc_size_t) draw(CFG, 60); }
        a.out.assign((size_t) len, 0);
        a.own_memory = chance(CFG, 1, 2);
        size_t before = heap().live_bytes;
        if (a.own_memory) {
            a.bytes = (size_t) embc_buffer_allocator_instance_size(a.sizes.data(), len);
            a.self = (struct embc_buffer_allocator_s *) heap_alloc(a.bytes);
            memset((void *) a.self, 0xA5, a.bytes);
            embc_buffer_allocator_initialize(a.self, a.sizes.data(), len);
        } else {
            a.self = embc_buffer_allocator_new(a.sizes.data(), len);
        }
        (void) before;
        S.allocs.push_back(a);
    }
    S.owners.resize((size_t) nown);
    for (auto & o : S.owners) { embc_list_initialize(&o.inbox); }
    if (chance(CFG, 1, 2)) { S.do_static(); }
    int n = 10 + (int) draw(CFG, 190);
    int hungry = (int) draw(CFG, 3);   // 2: keep the allocators exhausted
    note("allocators %d owners %d steps %d", nalloc, nown, n);
    int allocated = 0, passed = 0;
    for (int i = 0; i < n; ++i) {
        step();
        size_t o = draw(SCHED, (uint32_t) nown);
        auto & own = S.owners[o];
        // whatever was passed to this owner
        while (!embc_list_is_empty(&own.inbox) && chance(SCHED, 3, 4)) {
            struct embc_list_s * item = embc_list_remove_head(&own.inbox);
            struct embc_buffer_s * b = embc_list_entry(item, struct embc_buffer_s, item);
            auto it = S.by_ptr.find(b);
            if (it == S.by_ptr.end()) { violate(C09, "list", "an unknown buffer came out of a queue"); continue; }
            it->second->owner = (int) o;
            own.has.push_back(it->second);
            ev("take", (int64_t) o, it->second->serial);
        }
        Model * busy = 0;
        uint32_t k = draw(APP, 16);
        if (k < 8 && own.has.size()) {
            busy = own.has[draw(APP, (uint32_t) own.has.size())];
            S.do_op(*busy);
        } else if (k < (uint32_t) (12 + hungry)) {
            S.do_alloc(o);
            ++allocated;
        } else if (k < 14 && own.has.size()) {
            Model * m = own.has[draw(APP, (uint32_t) own.has.size())];
            size_t to = draw(APP, (uint32_t) nown);
            own.has.erase(std::find(own.has.begin(), own.has.end(), m));
            m->owner = -1;
            embc_list_add_tail(&S.owners[to].inbox, &m->b->item);
            ev("pass", (int64_t) o, (int64_t) to, m->serial);
            ++passed;
        } else {
            S.do_free(o);
        }
        S.check_all(busy);
    }
    // everybody frees everything, whoever owns it, in any order
    for (auto & o : S.owners) {
        struct embc_list_s * item;
        while (0 != (item = embc_list_remove_head(&o.inbox))) {
            Model * m = S.by_ptr.at(embc_list_entry(item, struct embc_buffer_s, item));
            m->owner = (int) (&o - &S.owners[0]);
            o.has.push_back(m);
        }
    }
    uint64_t shape = 0;
    for (auto & a : S.allocs) { for (size_t c = 0; c < a.out.size(); ++c) { shape = mix2(shape, (uint64_t) (a.out[c] * 8 + a.sizes[c])); } }
    cover(shape);
    for (size_t guard = 0; guard < 10000; ++guard) {
        size_t left = 0;
        for (auto & o : S.owners) { for (Model * m : o.has) { left += m->alloc >= 0; } }
        if (!left) { break; }
        S.do_free(draw(SCHED, (uint32_t) nown));
    }
    // conservation: every configured buffer is available again
    for (auto & a : S.allocs) {
        for (size_t c = 0; c < a.sizes.size(); ++c) {
            int k = 0;
            while (k <= a.sizes[c] && embc_buffer_alloc_unsafe(a.self, 32 << c)) { ++k; }
            if (k != a.sizes[c]) { violate(C09, "conservation", "class %zu: %d of %d buffers are available after all were freed", c, k, (int) a.sizes[c]); }
        }
        embc_buffer_allocator_finalize(a.self);
    }
    if (allocated > 2 && passed > 0) { nontrivial(); }
}

}  // namespace

namespace dst {
World const world = {"buffer", {9}, run_world, {}};
}
