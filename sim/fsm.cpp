// World: state machines which post events to themselves and to each other.
// Real: fsm.c.  Simulated: transition tables, guards, handlers, event sources.
// Reference: an interpreter which predicts each handler call, one at a time.
#include "dst.hpp"
#include <memory>
extern "C" {
#include "embc/fsm.h"
}
using namespace dst;

namespace {

constexpr uint32_t C13 = P(13);
constexpr int ROWS = 300, STATES = 127, MACHINES = 3;

enum Call { NONE, ROW, EXIT, ENTER };
struct Row { embc_fsm_state_t current, next; embc_fsm_event_t event; bool handler; };

struct Machine {
    struct embc_fsm_s fsm;                    // first
    struct embc_fsm_transition_s table[ROWS];
    struct embc_fsm_state_s states[STATES];
    char name[8];
    int index, nrows, nstates;
    int base;           // the first event id
    std::vector<Row> rows;
    // reference
    std::deque<embc_fsm_event_t> queue;
    int state;
    embc_fsm_event_t event;
    Call expect;
    int at, next;
    bool busy;          // an event is being processed (in the model)
    bool active;        // a handler is running
    uint64_t processed, posted;

    void search(int from) {
        for (int i = from; i < nrows; ++i) {
            Row & r = rows[(size_t) i];
            if ((r.current != state && r.current != EMBC_STATE_ANY) || (r.event != event && r.event != EMBC_EVENT_ANY)) { continue; }
            if (r.handler) { expect = ROW; at = i; return; }
            take(r.next);
            return;
        }
        done();   // no transition
        probe("unmatched event");
    }
    void take(int to) {
        if (to == EMBC_STATE_NULL) { done(); return; }
        next = to;
        if (state >= 0 && states[state].on_exit) { expect = EXIT; at = state; return; }
        enter();
    }
    void enter() {
        state = next;
        if (states[state].on_enter) { expect = ENTER; at = state; return; }
        done();
    }
    void done() {
        expect = NONE;
        busy = false;
        ++processed;
        if (queue.size()) {
            event = queue.front();
            queue.pop_front();
            busy = true;
            search(0);
        }
    }
};

std::vector<Machine *> M;
int budget = 0, depth = 0;
int overflow_at = 0;   // 2: the next handler posts more than the queue holds; 1: done

char const * call_name(Call c) { return c == ROW ? "transition handler" : c == EXIT ? "exit handler" : c == ENTER ? "enter handler" : "nothing"; }

void post(Machine & m, embc_fsm_event_t e, char const * why) {
    if (m.queue.size() >= EMBC_FSM_EVENT_FIFO_SIZE - 1) { return; }
    bool outermost = !m.busy;
    ev(why, m.index, e, (int64_t) m.queue.size());
    ++m.posted;
    // the reference
    if (m.busy) {
        m.queue.push_back(e);
        probe("event posted during processing");
        if (m.queue.size() == EMBC_FSM_EVENT_FIFO_SIZE - 1) { probe("event queue full"); }
    } else {
        m.event = e;
        m.busy = true;
        m.search(0);
    }
    bool bad = false;
    ++depth;
    auto call = [&]() { if (e == EMBC_EVENT_RESET) { embc_fsm_reset(&m.fsm); } else { embc_fsm_event(&m.fsm, e); } };
    if (outermost && depth == 1) { bad = asserts(call); } else { call(); }
    --depth;
    if (bad) { violate(C13, "assert", "machine %d asserts on event %d", m.index, e); return; }
    if (outermost) {
        if (m.busy || m.expect != NONE || m.queue.size()) {
            violate(C13, "incomplete", "machine %d returns, but the %s %d for event %d is outstanding and %zu events are queued", m.index, call_name(m.expect), m.at, m.event, m.queue.size());
        }
        if (m.fsm.state != m.state) { violate(C13, "state", "machine %d is in state %d, expected %d", m.index, m.fsm.state, m.state); }
    }
}

// more events than the queue holds: refused with the assertion, none is dropped in silence
void overflow(Machine & m) {
    bool bad = false;
    for (int i = 0; i <= EMBC_FSM_EVENT_FIFO_SIZE && !bad; ++i) {
        bool room = m.queue.size() < EMBC_FSM_EVENT_FIFO_SIZE - 1, full = m.queue.size() >= EMBC_FSM_EVENT_FIFO_SIZE;
        ev("overflow", m.index, i);
        bad = asserts([&]() { embc_fsm_event(&m.fsm, (embc_fsm_event_t) (i % 5)); });
        if (bad ? room : full) { violate(C13, "overflow", "machine %d with %zu queued events %s another", m.index, m.queue.size(), bad ? "refuses" : "accepts"); }
        m.queue.push_back((embc_fsm_event_t) (i % 5));
    }
    fault("event queue overflow");
    overflow_at = 1;
    throw RunEnd();
}

void act(Machine & m) {
    if (overflow_at == 2) { overflow(m); }
    // handlers post events: to themselves and to other machines
    while (budget > 0 && chance(APP, 1, 2)) {
        --budget;
        Machine & to = chance(APP, 1, 3) ? *M[draw(APP, (uint32_t) M.size())] : m;
        if (&to != &m) { probe("event posted to another machine"); }
        embc_fsm_event_t e = chance(APP, 1, 16) ? EMBC_EVENT_RESET : (embc_fsm_event_t) (to.base + (int) draw(APP, 5));
        post(to, e, "post");
    }
}

embc_fsm_state_t called(struct embc_fsm_s * self, Call c, int at, embc_fsm_event_t event) {
    step();
    Machine & m = *(Machine *) self;
    if (m.active) { violate(C13, "concurrent", "machine %d calls its %s %d while another handler is running", m.index, call_name(c), at); }
    if (m.expect != c || m.at != at) {
        violate(C13, "call", "machine %d calls its %s %d, expected %s %d (state %d event %d)", m.index, call_name(c), at, call_name(m.expect), m.at, m.state, m.event);
        return EMBC_STATE_NULL;
    }
    embc_fsm_event_t want = c == ROW ? m.event : c == EXIT ? (embc_fsm_event_t) EMBC_EVENT_EXIT : (embc_fsm_event_t) EMBC_EVENT_ENTER;
    if (event != want) { violate(C13, "event", "the %s %d of machine %d is called with event %d, expected %d", call_name(c), at, m.index, event, want); }
    if (m.fsm.state != m.state) { violate(C13, "state", "machine %d is in state %d in its %s, expected %d", m.index, m.fsm.state, call_name(c), m.state); }
    m.active = true;
    act(m);
    m.active = false;
    embc_fsm_state_t r = EMBC_STATE_NULL;
    if (c == ROW) {
        bool initial = m.state == EMBC_STATE_NULL;   // the reset of initialize has to succeed
        switch (draw(APP, 6)) {
            case 0: case 1: r = EMBC_STATE_ANY; break;
            case 2: r = EMBC_STATE_SKIP; probe("guard skips"); break;
            case 3: r = EMBC_STATE_NULL; break;
            case 4: r = EMBC_STATE_ANY; break;
            default: r = (embc_fsm_state_t) draw(APP, (uint32_t) m.nstates); probe("handler overrides the next state"); break;
        }
        if (initial && (r < 0)) { r = m.rows[(size_t) at].next < 0 ? (embc_fsm_state_t) 0 : (embc_fsm_state_t) EMBC_STATE_ANY; }
    } else {
        r = (embc_fsm_state_t) range(APP, -3, 3);   // ignored
    }
    ev("call", m.index, c * 100 + at, event, r);
    // the reference moves on
    Call was = m.expect;
    m.expect = NONE;
    if (was == ROW) {
        switch (r) {
            case EMBC_STATE_NULL: m.done(); break;
            case EMBC_STATE_ANY: m.take(m.rows[(size_t) at].next); break;
            case EMBC_STATE_SKIP: m.search(at + 1); break;
            default: m.take(r); break;
        }
    } else if (was == EXIT) { m.enter(); }
    else { m.done(); }
    return r;
}

template <int N> embc_fsm_state_t row_n(struct embc_fsm_s * s, embc_fsm_event_t e) { return called(s, ROW, N, e); }
template <int N> embc_fsm_state_t exit_n(struct embc_fsm_s * s, embc_fsm_event_t e) { return called(s, EXIT, N, e); }
template <int N> embc_fsm_state_t enter_n(struct embc_fsm_s * s, embc_fsm_event_t e) { return called(s, ENTER, N, e); }
// one function for many rows or states
embc_fsm_state_t row_any(struct embc_fsm_s * s, embc_fsm_event_t e) { return called(s, ROW, ((Machine *) s)->at, e); }
embc_fsm_state_t state_any(struct embc_fsm_s * s, embc_fsm_event_t e) { return called(s, e == EMBC_EVENT_ENTER ? ENTER : EXIT, s->state, e); }
template <int... I> struct Handlers {
    embc_fsm_handler row[sizeof...(I)] = {row_n<I>...}, exit[sizeof...(I)] = {exit_n<I>...}, enter[sizeof...(I)] = {enter_n<I>...};
};
template <int... I> Handlers<I...> handlers(std::integer_sequence<int, I...>) { return Handlers<I...>(); }
auto const H = handlers(std::make_integer_sequence<int, ROWS>());

// the reset event from outside of every state
bool initialize(Machine & m, int posts) {
    budget = posts;
    m.state = EMBC_STATE_NULL;
    m.expect = NONE;
    m.queue.clear();
    m.event = EMBC_EVENT_RESET;
    m.busy = true;
    ++m.posted;
    m.search(0);
    ev("initialize", m.index);
    bool bad = asserts([&]() { embc_fsm_initialize(&m.fsm); });
    if (bad) { violate(C13, "assert", "machine %d does not initialize", m.index); return false; }
    if (m.busy || m.fsm.state != m.state) { violate(C13, "state", "machine %d is in state %d after initialize, expected %d", m.index, m.fsm.state, m.state); }
    return true;
}

char const * event_name(struct embc_fsm_s *, embc_fsm_event_t e) { return e & 1 ? "event" : 0; }

void run_world() {
    set_step_limit(200000);
    M.clear();
    depth = 0;
    overflow_at = 0;
    int n = 1 + (int) draw(CFG, MACHINES);
    std::vector<std::unique_ptr<Machine>> own;
    for (int i = 0; i < n; ++i) {
        own.emplace_back(new Machine());
        Machine & m = *own.back();
        M.push_back(&m);
        m.index = i;
        bool large = chance(CFG, 1, 40);
        m.nstates = 1 + (int) draw(CFG, large ? STATES : 6);
        m.nrows = 1 + (int) draw(CFG, large ? ROWS - 2 : 22);
        m.base = pick(CFG, {0, 0, 1, 40, 122});
        int reset_row = (int) draw(CFG, (uint32_t) m.nrows);
        bool shared = chance(CFG, 1, 4);
        for (int r = 0; r < m.nrows; ++r) {
            Row x;
            x.current = (embc_fsm_state_t) (chance(CFG, 1, 4) ? (int) EMBC_STATE_ANY : (int) draw(CFG, (uint32_t) m.nstates));
            x.next = (embc_fsm_state_t) (chance(CFG, 1, 8) ? (int) EMBC_STATE_NULL : (int) draw(CFG, (uint32_t) m.nstates));
            x.event = (embc_fsm_event_t) (chance(CFG, 1, 6) ? (int) EMBC_EVENT_ANY : m.base + (int) draw(CFG, 5));
            if (chance(CFG, 1, 12)) { x.event = EMBC_EVENT_RESET; }
            x.handler = chance(CFG, 1, 2);
            if (r == reset_row) {
                x.current = chance(CFG, 1, 2) ? EMBC_STATE_NULL : EMBC_STATE_ANY;
                x.event = EMBC_EVENT_RESET;
                if (x.next < 0) { x.next = 0; }
            }
            m.rows.push_back(x);
        }
        // nothing else may answer the initial reset without a state
        for (auto & x : m.rows) {
            bool initial = (x.current == EMBC_STATE_ANY || x.current == EMBC_STATE_NULL) && (x.event == EMBC_EVENT_ANY || x.event == EMBC_EVENT_RESET);
            if (initial && x.next < 0 && !x.handler) { x.next = 0; }
        }
        for (int r = 0; r < m.nrows; ++r) {
            Row & x = m.rows[(size_t) r];
            struct embc_fsm_transition_s t = {x.current, x.next, x.event, x.handler ? shared && chance(CFG, 1, 2) ? row_any : H.row[r] : 0};
            memcpy((void *) &m.table[r], &t, sizeof(t));
        }
        for (int s = 0; s < m.nstates; ++s) {
            struct embc_fsm_state_s st = {(embc_fsm_state_t) s, chance(CFG, 1, 4) ? 0 : "state", chance(CFG, 2, 3) ? shared && chance(CFG, 3, 4) ? state_any : H.enter[s] : 0, chance(CFG, 2, 3) ? shared && chance(CFG, 3, 4) ? state_any : H.exit[s] : 0};
            memcpy((void *) &m.states[s], &st, sizeof(st));
        }
        snprintf(m.name, sizeof(m.name), "fsm%d", i);
        memset((void *) &m.fsm, (int) draw(CFG, 2) * 0xA5, sizeof(m.fsm));
        m.fsm.name = chance(CFG, 1, 2) ? m.name : 0;
        m.fsm.states = m.states;
        m.fsm.states_count = (embc_fsm_state_t) m.nstates;
        m.fsm.transitions = m.table;
        m.fsm.transitions_count = (uint32_t) m.nrows;
        m.fsm.event_name_fn = chance(CFG, 1, 2) ? event_name : 0;
        m.state = EMBC_STATE_NULL;
        m.expect = NONE;
    }
    // a state list which does not match is refused
    if (chance(CFG, 1, 30) && M[0]->nstates > 1) {
        Machine bad_m = *M[0];
        bad_m.fsm.states = bad_m.states;
        int at = (int) draw(CFG, (uint32_t) M[0]->nstates);
        bad_m.states[at].state = (embc_fsm_state_t) ((at + 1 + (int) draw(CFG, (uint32_t) M[0]->nstates - 1)) % M[0]->nstates);
        if (!asserts([&]() { embc_fsm_initialize(&bad_m.fsm); })) { violate(C13, "validate", "an inconsistent state list is accepted"); }
        return;
    }
    note("machines %d", n);
    for (Machine * m : M) { if (!initialize(*m, 0)) { return; } }
    int events = 5 + (int) draw(CFG, 60);
    int chatty = pick(CFG, {0, 4, 12, 40});
    for (int i = 0; i < events; ++i) {
        step();
        budget = chatty;
        if (i == events - 1 && chance(CFG, 1, 4)) { overflow_at = 2; }
        Machine & m = *M[draw(SCHED, (uint32_t) n)];
        if (chance(APP, 1, 60)) {
            probe("initialized again");
            if (!initialize(m, budget)) { return; }
            continue;
        }
        embc_fsm_event_t e = chance(APP, 1, 20) ? EMBC_EVENT_RESET : (embc_fsm_event_t) (m.base + (int) draw(APP, 6));
        post(m, e, "event");
        uint64_t h = 0;
        for (Machine * x : M) { h = mix2(h, (uint64_t) (x->state + 3) * 8 + (x->processed & 7)); }
        cover(mix2(h, (uint64_t) e));
    }
    uint64_t processed = 0;
    for (Machine * m : M) {
        processed += m->processed;
        if (m->processed != m->posted) { violate(C13, "count", "machine %d: model error", m->index); }
    }
    if (processed > 5) { nontrivial(); }
}

}  // namespace

namespace dst {
World const world = {"fsm", {13}, run_world, {}};
}
