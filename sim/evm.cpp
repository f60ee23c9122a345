// World: clients which schedule and cancel timed events, also from callbacks.
// Real: event_manager.c, collections/list.h.
// Simulated: the clock, the processing loop, the clients, the heap.
// Reference: the set of pending events ordered by (timestamp, scheduling order).
#include "dst.hpp"
extern "C" {
#include "embc/event_manager.h"
#include "embc/time.h"
extern int32_t embc_dst_event_counter;
}
using namespace dst;

namespace {

constexpr uint32_t C12 = P(12);
int64_t later(int64_t t, int64_t d) { return t > INT64_MAX - d ? INT64_MAX : t + d; }

struct Mgr;
struct Event {
    Mgr * mgr;
    int32_t id = 0;
    int64_t ts = 0;
    uint64_t seq = 0;
    bool pending = false, fired = false, cancelled = false;
};

struct Mgr {
    struct embc_evm_s * self = 0;
    std::vector<Event *> all;
    std::map<std::pair<int64_t, uint64_t>, Event *> pending;
    int64_t now = 0, processing_time = 0;
    bool processing = false;
    int fired_now = 0, budget = 0;
    int32_t last_id = 0;
    uint64_t seq = 0;
    int index = 0;

    void queries() {
        int64_t next = embc_evm_time_next(self), iv = embc_evm_interval_next(self, now);
        if (pending.empty()) {
            if (next != EMBC_TIME_MIN || iv != -1) { violate(C12, "query", "nothing is pending, but time_next is %lld and interval_next %lld", (long long) next, (long long) iv); }
        } else {
            int64_t ts = pending.begin()->first.first;
            int64_t want = ts <= now ? 0 : ts - now;
            if (next != ts || iv != want) { violate(C12, "query", "time_next is %lld, interval_next %lld; the earliest pending event is at %lld (now %lld)", (long long) next, (long long) iv, (long long) ts, (long long) now); }
        }
    }
    void schedule();
    void cancel();
    void process();
};

bool failing = false;
int fail_num = 0;
std::vector<Mgr *> managers;

void on_event(void * user, int32_t id) {
    step();
    Event * e = (Event *) user;
    Mgr & m = *e->mgr;
    ev("fire", m.index, id, (int64_t) e->seq);
    if (!m.processing) { violate(C12, "context", "event %d fires outside of process", id); }
    if (e->id != id) { violate(C12, "id", "event %d fires with id %d", e->id, id); }
    if (e->cancelled) { violate(C12, "cancelled", "cancelled event %d fires", id); return; }
    if (e->fired) { violate(C12, "twice", "event %d fires twice", id); return; }
    if (e->ts > m.processing_time) { violate(C12, "early", "event %d is due at %lld and fires at %lld", id, (long long) e->ts, (long long) m.processing_time); }
    Event * first = m.pending.empty() ? 0 : m.pending.begin()->second;
    if (first != e) { violate(C12, "order", "event %d (time %lld) fires before event %d (time %lld)", id, (long long) e->ts, first ? first->id : 0, first ? (long long) first->ts : 0); }
    m.pending.erase({e->ts, e->seq});
    e->pending = false;
    e->fired = true;
    ++m.fired_now;
    m.queries();
    if (m.budget > 0 && chance(APP, 1, 3)) {
        int n = 1 + (int) draw(APP, 3);
        for (int i = 0; i < n; ++i) {
            --m.budget;
            Mgr & o = *managers[draw(APP, (uint32_t) managers.size())];
            if (&o != &m) {   // the callback uses another manager
                switch (draw(APP, 3)) {
                    case 0: o.schedule(); break;
                    case 1: o.cancel(); break;
                    default: if (!o.processing) { o.now = later(o.now, (int64_t) draw(SCHED, 30)); o.process(); probe("callback processes another manager"); } break;
                }
                o.queries();
                m.queries();
                continue;
            }
            switch (draw(APP, 4)) {
                case 0: case 1: m.schedule(); probe("callback schedules"); break;
                case 2: m.cancel(); probe("callback cancels"); break;
                default: {   // itself: no effect
                    embc_evm_cancel(m.self, id);
                    ev("cancel_self", id);
                    probe("callback cancels itself");
                    break;
                }
            }
            m.queries();
        }
    }
}

void Mgr::schedule() {
    Event * e = new Event;
    e->mgr = this;
    int64_t base = processing ? processing_time : now;
    switch (draw(APP, 8)) {
        case 0: case 1: e->ts = later(base, (int64_t) draw(APP, 20)); break;
        case 2: e->ts = later(base, (int64_t) draw_u32(APP)); break;
        case 3: e->ts = base; break;
        case 4: e->ts = base - (int64_t) draw(APP, 30); break;      // already due
        case 5: e->ts = pending.empty() ? later(base, 1) : later(pending.begin()->first.first - 1, (int64_t) draw(APP, 3)); break;
        case 6: e->ts = all.empty() ? later(base, 5) : all[draw(APP, (uint32_t) all.size())]->ts; break;   // equal to another one
        default: e->ts = pick<int64_t>(APP, {later(base, 7), 1, 0, -5, INT64_MAX, EMBC_TIME_MAX, EMBC_TIME_MIN}); break;
    }
    if (processing && e->ts <= processing_time) { probe("callback schedules a due event"); }
    failing = fail_num && chance(AUX, (uint32_t) fail_num, 32);
    uint64_t before = heap().failed;
    int32_t id = embc_evm_schedule(self, e->ts, on_event, e);
    failing = false;
    bool failed = heap().failed != before;
    if (failed) { fault("allocation failure"); }
    ev("schedule", index, e->ts, id, failed);
    if (e->ts <= 0 || failed) {
        if (id) { violate(C12, "schedule", "schedule at %lld returns %d%s", (long long) e->ts, id, failed ? " without memory" : ""); }
        return;
    }
    if (!id) { violate(C12, "schedule", "schedule at %lld returns 0", (long long) e->ts); return; }
    if (seq && id < last_id) { probe("ids start again"); }
    last_id = id;
    if (id < 0) { violate(C12, "schedule", "schedule at %lld returns the id %d", (long long) e->ts, id); }
    for (auto & p : pending) { if (p.second->id == id) { violate(C12, "unique", "id %d is given to two pending events", id); } }
    e->id = id;
    e->seq = ++seq;
    e->pending = true;
    all.push_back(e);
    pending[{e->ts, e->seq}] = e;
}

void Mgr::cancel() {
    if (all.empty() || chance(APP, 1, 12)) {
        int32_t id = pick<int32_t>(APP, {0, -1, INT32_MAX, INT32_MIN, 1000000});
        for (auto & p : pending) { if (p.second->id == id) { return; } }
        embc_evm_cancel(self, id);
        ev("cancel_unknown", id);
        return;
    }
    // mostly a pending one, else one which is over, often a recent one
    bool over = chance(APP, 1, 4);
    Event * e = over && chance(APP, 1, 2) ? all[all.size() - 1 - draw(APP, (uint32_t) std::min<size_t>(all.size(), 4))] : all[draw(APP, (uint32_t) all.size())];
    if (!over && !e->pending && pending.size()) {
        auto it = pending.begin();
        std::advance(it, draw(APP, (uint32_t) std::min<size_t>(pending.size(), 8)));
        e = it->second;
    }
    if (!e->pending) { probe("cancel of an event which is over"); }
    int32_t rv = embc_evm_cancel(self, e->id);
    ev("cancel", index, e->id, e->pending);
    if (e->pending) {
        if (rv) { violate(C12, "cancel", "cancel of the pending event %d returns %d", e->id, rv); }
        if (processing && e->ts <= processing_time) { probe("callback cancels a due event"); }
        pending.erase({e->ts, e->seq});
        e->pending = false;
        e->cancelled = true;
    }
}

void Mgr::process() {
    processing = true;
    processing_time = now;
    fired_now = 0;
    budget = 12;
    int32_t n = embc_evm_process(self, now);
    processing = false;
    ev("process", index, now, n);
    if (n != fired_now) { violate(C12, "count", "process returns %d, %d events fired", n, fired_now); }
    if (pending.size() && pending.begin()->first.first <= now) {
        violate(C12, "late", "event %d is due at %lld and did not fire at %lld", pending.begin()->second->id, (long long) pending.begin()->first.first, (long long) now);
    }
}

void run_world() {
    set_step_limit(100000);
    failing = false;
    fail_num = 0;
    heap_fail_hook([](size_t) { return failing; });
    size_t blocks0 = heap().live_blocks;
    if (chance(CFG, 1, 20)) {
        failing = true;
        struct embc_evm_s * e = embc_evm_allocate();
        failing = false;
        fault("allocation failure");
        if (e) { violate(C12, "allocate", "allocate returns an instance without memory"); }
        if (chance(CFG, 1, 2)) { embc_evm_free(0); }
    }
    int n = 1 + (int) draw(CFG, 2);
    fail_num = pick(CFG, {0, 0, 2, 8});
    std::vector<Mgr *> ms;
    for (int i = 0; i < n; ++i) {
        Mgr * m = new Mgr;
        // events scheduled in the life before: ids start again at the end of their range
        embc_dst_event_counter = chance(CFG, 1, 6) ? INT32_MAX - (int32_t) draw(CFG, 60) : pick<int32_t>(CFG, {0, 0, 0, 65530, 0xfffff0});
        m->self = embc_evm_allocate();
        m->index = i;
        m->now = pick<int64_t>(CFG, {1000, 1, 0, 1ll << 40, EMBC_TIME_MAX - 1000000});
        ms.push_back(m);
    }
    managers = ms;
    int steps_n = 5 + (int) draw(CFG, 120);
    if (chance(CFG, 1, 50)) { steps_n *= 8; }
    int busy = (int) draw(CFG, 4);
    note("managers %d steps %d busy %d allocation failures %d/32", n, steps_n, busy, fail_num);
    int64_t t0 = ms[0]->now, tmax = t0;
    for (int i = 0; i < steps_n; ++i) {
        step();
        Mgr & m = *ms[draw(SCHED, (uint32_t) n)];
        uint32_t k = draw(APP, 10 + (uint32_t) busy * 2);
        if (k < 3) {
            // the clock
            switch (draw(SCHED, 6)) {
                case 0: break;
                case 1: m.now = later(m.now, (int64_t) draw(SCHED, 10)); break;
                case 2: m.now = later(m.now, (int64_t) draw(SCHED, 1000)); break;
                case 3: if (m.pending.size() && m.pending.begin()->first.first > m.now && m.pending.begin()->first.first - m.now < (1ll << 33)) { m.now = m.pending.begin()->first.first - (int64_t) draw(SCHED, 2); } break;
                case 4: m.now = later(m.now, (int64_t) draw_u32(SCHED)); fault("clock jumped forward"); break;
                default: { int64_t d = (int64_t) draw(SCHED, 1000); if (m.now > d) { m.now -= d; fault("clock jumped back"); } break; }
            }
            if (m.index == 0) { tmax = std::max(tmax, m.now); }
            m.process();
        } else if (k < 5) {
            m.cancel();
        } else if (k == 5 && chance(APP, 1, 200)) {
            probe("burst of events");
            int burst = 60 + (int) draw(APP, 240);
            for (int j = 0; j < burst; ++j) { m.schedule(); }
        } else {
            m.schedule();
        }
        m.queries();
        cover(mix2(std::min<size_t>(m.pending.size(), 20), mix2((uint64_t) m.fired_now, k)));
    }
    size_t fired = 0, pend = 0;
    for (Mgr * m : ms) {
        if (chance(CFG, 1, 2)) {   // run until everything fired
            m->now = INT64_MAX;
            m->process();
            for (Event * e : m->all) { if (!e->fired && !e->cancelled) { violate(C12, "lost", "event %d never fires", e->id); } }
        }
        managers.erase(managers.begin());
        pend += m->pending.size();
        for (Event * e : m->all) { fired += e->fired; }
        embc_evm_free(m->self);
        for (Event * e : m->all) { delete e; }
        delete m;
    }
    if (heap().live_blocks != blocks0) { violate(C12, "leak", "%zu heap blocks are left after free", heap().live_blocks - blocks0); }
    if (pend) { probe("freed with pending events"); }
    sim_time((int64_t) ((double) std::min<int64_t>(tmax - t0, 1ll << 36) / 1.073741824));
    if (fired >= 2) { nontrivial(); }
}

}  // namespace

namespace dst {
World const world = {"evm", {12}, run_world, {}};
}
