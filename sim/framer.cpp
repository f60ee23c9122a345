// World: two endpoints running the real framer over a simulated serial link.
// Real: framer.c, buffer.c, list.c, crc.c, bbuf.h.  Simulated: both HALs
// (transmit queue, transmit done, clock, timer), the link, both applications.
#include "dst.hpp"
#include "codec.hpp"
#include <memory>
extern "C" {
#include "embc/stream/framer.h"
#include "embc/memory/buffer.h"
#include "embc/collections/list.h"
#include "embc/platform.h"
#include "embc/ec.h"
}
using namespace dst;

namespace {

constexpr int64_t SEC = 1ll << 30;
constexpr int64_t MS = SEC / 1000;
constexpr int64_t ACK_TIMEOUT = 250 * SEC / 1000;
constexpr int64_t HOLD = 800 * SEC / 1000;
constexpr int MAX_TX = 17;
constexpr int64_t NEVER = INT64_MAX;

// --- model records ----------------------------------------------------------
enum Kind { NORMAL, RESYNC, PING_REQ, PING_RSP, STATUS_REQ, STATUS_RSP };
struct Msg {
    int dir, idx;            // direction (sender), send order
    Kind kind = NORMAL;
    uint8_t port, mid;
    uint16_t def;
    Bytes payload;
    Bytes wire;              // first transmission
    int sender_inc;
    int64_t t_send = 0, t_first = NEVER, t_done = NEVER, t_deliver = NEVER;
    int ahead = 0;           // messages ahead when sent
    bool done = false;
    int status = -1;
    int tx = 0, tx_at_faults_end = 0, acks_at_first = 0;
    int ord = -1;            // order of first transmission
    int intact = 0;          // transmissions which reached the peer intact
    int delivered = 0;
    std::set<int> delivered_inc;
    bool lenient = false;    // sent while the direction was not settled
    bool lossy = false;      // undelivered when the receiver crashed; a response when its sender resyncs
    bool aborted_ok = false; // outstanding when a resync was requested
    int harmed_before = 0;   // harmed transmissions of the direction before the first transmission
    int64_t hal_done = 0, last_tx = 0;
    int hal_owned = 0;
    int rsp_seen = 0;
    int64_t t_accept_before = 0; // last arrival before the delivery
};

struct HalBuf {
    struct embc_buffer_s * b;
    Bytes snap;
    Msg * m;
    bool ack;
};

struct Sim;
struct Node;
// Wraps the manager of a buffer class: sees every free, by whom it may be.
struct Wrap {
    struct embc_buffer_manager_s base;
    struct embc_buffer_manager_s const * orig;
    Node * n;
};
struct Node {
    Sim * sim;
    int id, inc;
    bool alive = true;
    struct embc_framer_s * f = 0;
    struct embc_buffer_allocator_s * alloc = 0;
    embc_size_t sizes[4];
    Wrap wrap[4];
    struct embc_framer_hal_callbacks_s hal;
    // HAL transmit queue
    std::deque<HalBuf> q;
    struct embc_list_s hal_list;
    int64_t line_free = 0;
    // timer
    bool timer_on = false;
    uint32_t timer_id = 0;
    int64_t timer_timeout = 0;
    bool in_timer = false;
    int64_t fired_timeout = 0;
    void (*timer_cbk)(void *, uint32_t) = 0;
    void * timer_user = 0;
    uint64_t timer_gen = 0;
    int64_t timer_late = -1, timer_fire = 0;
    int64_t spin_time = -1;
    int spin = 0;
    // receive
    std::deque<Bytes> inbox;
    RefDeframer ref;
    int64_t stalled_until = 0;
    // application
    std::set<struct embc_buffer_s *> app_owned;
    std::deque<struct embc_buffer_s *> kept;
    int arm_loopback = 0, arm_rx_send = 0, arm_done_send = 0, arm_done_resync = 0, arm_rx_resync = 0, arm_abort_send = 0;
    int keep_policy = 0;
    bool resync_busy = false;
    int resync_depth = 0;
    int cb_depth = 0;
    // wire oracle
    int last_first_id = -1;
    int last_first_idx = -1;
    int last_delivered_ord = -1;   // of the opposite direction's messages
    std::map<uint32_t, std::pair<int, int>> ack_count;   // (id, port, mid) -> intact handed, acks sent
    int64_t last_accept = -NEVER, last_accept_local = 0;
    std::set<int64_t> hold_deadlines;
    std::set<Msg *> held;           // accepted (acked) and not delivered
    int visible_deliveries = 0, rsp_created = 0, acks_handed = 0, foreign_acks = 0, good_acks = 0, data_handed = 0, tx_first = 0, tx_total = 0, completions = 0;
    int next_ping = 3;
    bool had_resync = false;
    bool feed_ack = false;          // the bytes being received hold an ACK,
    uint32_t feed_nacks = 0;        // a NACK of these frame ids
};

struct Ev { int64_t t; uint64_t seq; std::function<void()> fn; };
struct EvCmp { bool operator()(Ev const & a, Ev const & b) const { return a.t != b.t ? a.t > b.t : a.seq > b.seq; } };

struct Cfg {
    int cls = 0;               // 0 clean, 1 mild, 2 heavy, 3 outage, 4 crash
    int baud = 115200;
    int64_t latency = 0;
    int64_t timer_late = 0, hal_late = 0, stall_max = 0;
    bool hal_inline = false, timer_inline = false;
    int ppm[2] = {0, 0};
    int64_t offset[2] = {0, 0};
    int chunking = 0;
    int limit = 4;
    int ops = 10;
    int style = 0;             // payload style
    int p_drop = 0, p_corrupt = 0, p_trunc = 0, p_dup = 0, p_insert = 0, p_delay = 0, p_foreign = 0;  // per 64 transmissions
    int dirs = 3;              // directions with faults
    uint32_t unreg = 0;        // ports without callbacks
    bool few_ids = false, resync_ok = false, crash_ok = false, jump_ok = false, ping_ok = true, corrupting = false;
};

struct Sim {
    Cfg cfg;
    int64_t now = 0;
    uint64_t seq = 0;
    std::priority_queue<Ev, std::vector<Ev>, EvCmp> queue;
    std::unique_ptr<Node> node[2];
    std::vector<std::unique_ptr<Node>> dead;
    std::deque<Msg> msgs;
    std::map<uint64_t, Msg *> by_key;       // dir, port, mid, def
    std::vector<Msg *> per_dir[2];
    Msg * cur_resync[2] = {0, 0};
    int ords[2] = {0, 0};
    int idxs[2] = {0, 0};
    int64_t arrival[2] = {0, 0};            // last scheduled arrival per direction
    int64_t jump[2] = {0, 0};
    int64_t last_jump[2] = {-NEVER, -NEVER};
    bool faults_on = true;
    int64_t faults_end = NEVER;
    bool outage[2] = {false, false};
    struct Stubborn { int kind = 0, left = 0; Msg * m = 0; } stubborn[2];   // every transmission of one message is harmed
    int harmed[2] = {0, 0};
    std::deque<int64_t> harmed_times[2];
    int since_intact[2] = {0, 0};           // messages first transmitted since the last intact one
    int64_t last_false_hdr[2] = {-NEVER, -NEVER};
    int64_t last_false_pos[2] = {-NEVER, -NEVER};
    Bytes tail[2];                          // last bytes fed, for false headers
    std::set<int64_t> true_starts[2];
    int64_t fed[2] = {0, 0}, scanned[2] = {0, 0};
    bool flushed = false;
    bool settled[2] = {true, true};
    int64_t last_unsettled[2] = {-NEVER, -NEVER};
    int64_t attempt_max = 0, late_max = 0;
    bool no_excuse = false;
    bool silent = false;                    // messages to ports without callbacks
    int silent_port = 0;
    int crashes = 0;
    std::function<int(int, Msg *, bool, int)> script;   // scripted fault: 0 none, 1 drop
    uint64_t ev_hash = 0;
    int idle_violation_guard = 0;

    // ---- time ----
    int64_t local(int n) const {
        return cfg.offset[n] + jump[n] + now + (now / 1000000) * cfg.ppm[n] + ((now % 1000000) * cfg.ppm[n]) / 1000000;
    }
    void at(int64_t t, std::function<void()> fn) { queue.push(Ev{std::max(t, now), ++seq, std::move(fn)}); }
    void at_node(int n, int64_t t, std::function<void()> fn) {
        int inc = node[n]->inc;
        at(t, [this, n, inc, fn]() { run_node(n, inc, fn); });
    }
    void run_node(int n, int inc, std::function<void()> fn) {
        if (!node[n]->alive || node[n]->inc != inc) { return; }
        if (node[n]->stalled_until > now) {
            at(node[n]->stalled_until, [this, n, inc, fn]() { run_node(n, inc, fn); });
            return;
        }
        fn();
    }
    static uint64_t key(int dir, uint8_t port, uint8_t mid, uint16_t def) {
        return ((uint64_t) dir << 32) | ((uint64_t) port << 24) | ((uint64_t) mid << 16) | def;
    }

    void configure(int prop);
    void start_node(int n, int inc);
    void crash(int n);
    void run(int prop);
    void drain(int64_t deadline);
    void app_op();
    Msg * send(Node & n, int how, Kind kind, struct embc_buffer_s * loop);
    void do_resync(Node & n);
    void hal_tx(Node & n, struct embc_buffer_s * b);
    void line(int dir, Bytes const & frame, Msg * m, bool ack, int64_t start, int64_t dur);
    void feed(Node & n);
    void deliver_bytes(int dir, int64_t t0, int64_t t1, Bytes const & bytes, std::vector<size_t> starts);
    void timer_arm(Node & n, bool rearm = false);
    void rx(Node & n, uint8_t port, uint8_t mid, uint16_t def, struct embc_buffer_s * b);
    void tx_done(Node & n, uint8_t port, uint8_t mid, uint16_t def, int32_t status);
    void idle_checks();
    void final_checks(bool conserve);
    int pending(int dir);
    int targeted(int dir, Msg * m, bool ack, Bytes const & frame);
    void unsettle(int dir) { settled[dir] = false; last_unsettled[dir] = now; }
    void state_cover(int what);
};

Sim * S;

// --- HAL seams ---------------------------------------------------------------
void hal_tx_fn(void * h, struct embc_buffer_s * b) { Node * n = (Node *) h; n->sim->hal_tx(*n, b); }
int64_t hal_time(void * h) { Node * n = (Node *) h; step(); return n->sim->local(n->id); }
int32_t hal_timer_set(void * h, int64_t timeout, void (*cbk)(void *, uint32_t), void * user, uint32_t * id) {
    Node & n = *(Node *) h;
    Sim & s = *n.sim;
    step();
    int64_t l = s.local(n.id);
    ev("timer_set", n.id, timeout - l);
    if (n.timer_on) { violate(P(7), "timer-two", "node %d sets a timer while one is set", n.id); }
    if (timeout > l + HOLD + 10 * MS || timeout < l - 30 * SEC) {
        violate(P(7), "timer-value", "node %d sets a timer %lld ms from now", n.id, (long long) ((timeout - l) / MS));
    }
    if (!id || !cbk) { violate(P(7), "timer-args", "timer_set without id or callback"); return 1; }
    n.timer_on = true;
    *id = ++n.timer_id;
    n.timer_timeout = timeout;
    n.timer_cbk = cbk;
    n.timer_user = user;
    ++n.timer_gen;
    if (timeout <= l) {
        probe("timer already passed when set");
        if (n.spin_time == s.now) {
            if (++n.spin > 300) { violate(P(7) | P(3), "timer-spin", "node %d spins on expired timers", n.id); throw RunEnd(); }
        } else { n.spin_time = s.now; n.spin = 1; }
        if (s.cfg.timer_inline) {
            fault("timer expired inline");
            n.timer_on = false;
            bool in_timer = n.in_timer;
            n.in_timer = true;
            n.fired_timeout = timeout;
            cbk(user, *id);
            n.in_timer = in_timer;
            return 0;
        }
    }
    n.timer_late = -1;
    s.timer_arm(n);
    return 0;
}
int32_t hal_timer_cancel(void * h, uint32_t id) {
    Node & n = *(Node *) h;
    step();
    ev("timer_cancel", n.id);
    if (!n.timer_on || n.timer_id != id) {
        violate(P(7), "timer-cancel", "node %d cancels timer %u but %s", n.id, id, n.timer_on ? "another one is set" : "none is set");
        return 0;
    }
    n.timer_on = false;
    ++n.timer_gen;
    return 0;
}
struct PortCtx { Node * n; int port; };
void port_rx(void * p, uint8_t port, uint8_t mid, uint16_t def, struct embc_buffer_s * b) {
    PortCtx * c = (PortCtx *) p;
    if (c->port != port) { violate(P(1), "port", "port callback %d called for port %d", c->port, port); }
    c->n->sim->rx(*c->n, port, mid, def, b);
}
void port_tx_done(void * p, uint8_t port, uint8_t mid, uint16_t def, int32_t status) {
    PortCtx * c = (PortCtx *) p;
    if (c->port != port) { violate(P(2), "port", "tx_done callback of port %d called for port %d", c->port, port); }
    c->n->sim->tx_done(*c->n, port, mid, def, status);
}

void Sim::timer_arm(Node & n, bool rearm) {
    int64_t d = n.timer_timeout - local(n.id);
    int64_t t = now;
    if (d > 0) {
        t = now + (int64_t) ((double) d * 1e6 / (1e6 + cfg.ppm[n.id]));
    }
    int64_t late = n.timer_late;  // a timer is re-armed with the lateness it was set with
    if (late < 0 && cfg.timer_late) {
        late = (cfg.timer_late * draw(SCHED, 9)) / 8;
        if (late > MS) { fault("timer fires late"); }
    }
    late = std::max<int64_t>(late, 0);
    n.timer_late = late;
    t += late + 1;
    if (rearm) { t = std::min(t, n.timer_fire); }  // a clock jump only ever makes it fire earlier
    n.timer_fire = t;
    uint64_t gen = n.timer_gen;
    int id = n.id;
    at_node(n.id, t, [this, id, gen]() {
        Node & n = *node[id];
        if (n.timer_gen != gen || !n.timer_on) { return; }
        if (local(id) < n.timer_timeout) {  // rounding, or the clock was stepped
            timer_arm(n);
            return;
        }
        n.timer_on = false;
        ++n.timer_gen;
        ev("timer", id);
        step();
        n.in_timer = true;
        n.fired_timeout = n.timer_timeout;
        n.timer_cbk(n.timer_user, n.timer_id);
        n.in_timer = false;
    });
}

// --- nodes ------------------------------------------------------------------
void buffer_free_fn(struct embc_buffer_manager_s const * self, struct embc_buffer_s * b) {
    Wrap const * w = (Wrap const *) self;
    Node & n = *w->n;
    for (auto & q : n.q) {
        if (q.b == b) { violate(P(6), "free-hal", "node %d frees a buffer which the HAL owns", n.id); }
    }
    if (n.app_owned.count(b)) { violate(P(6), "free-app", "node %d frees a buffer which the application owns", n.id); }
    if (b->buffer_id == 0xEE && b->flags == 0xEE && b->length == 0 && b->cursor == 0 && b->reserve == 0) {   // nobody allocated it since
        violate(P(6), "free-twice", "node %d frees a buffer twice", n.id);
    }
    memset(b->data, 0xDD, b->capacity);   // whoever reads it now reads this
    b->buffer_id = b->flags = 0xEE;
    b->length = b->cursor = 0;
    b->reserve = 0;
    b->manager = w->orig;
    w->orig->free(w->orig, b);
    b->manager = self;
}

void no_hook(void *, struct embc_buffer_s * b) {
    violate(P(1) | P(2), "hook", "a hook which was removed is called");
    embc_buffer_free(b);
}

void Sim::start_node(int n, int inc) {
    if (node[n]) { dead.push_back(std::move(node[n])); }
    node[n].reset(new Node());
    Node & x = *node[n];
    x.sim = this; x.id = n; x.inc = inc;
    x.sizes[0] = 160; x.sizes[1] = 4; x.sizes[2] = 4; x.sizes[3] = 90;
    x.alloc = embc_buffer_allocator_new(x.sizes, 4);
    for (int c = 0; c < 4; ++c) {
        std::vector<struct embc_buffer_s *> all;
        for (embc_size_t i = 0; i < x.sizes[c]; ++i) { all.push_back(embc_buffer_alloc(x.alloc, 32 << c)); }
        x.wrap[c].base.free = buffer_free_fn;
        x.wrap[c].orig = all[0]->manager;
        x.wrap[c].n = &x;
        for (auto b : all) { b->manager = &x.wrap[c].base; }
        for (auto b : all) { x.wrap[c].orig->free(x.wrap[c].orig, b); }
    }
    x.f = (struct embc_framer_s *) heap_alloc((size_t) embc_framer_instance_size());
    memset((void *) x.f, 0xA5, (size_t) embc_framer_instance_size());
    embc_list_initialize(&x.hal_list);
    x.hal.hal = &x;
    x.hal.tx_fn = hal_tx_fn;
    x.hal.time_get = hal_time;
    x.hal.timer_set_fn = hal_timer_set;
    x.hal.timer_cancel_fn = hal_timer_cancel;
    embc_framer_initialize(x.f, x.alloc, &x.hal);
    for (int p = 0; p < 16; ++p) {
        if (cfg.unreg & (1u << p)) { continue; }
        PortCtx * c = (PortCtx *) heap_alloc(sizeof(PortCtx));
        c->n = &x; c->port = p;
        struct embc_framer_port_callbacks_s cb;
        cb.port = c; cb.rx_fn = port_rx; cb.tx_done_fn = port_tx_done;
        embc_framer_register_port_callbacks(x.f, (uint8_t) p, &cb);
    }
    if (cfg.unreg & 1) {   // a hook, and back to the default
        static int other;
        embc_framer_register_rx_hook(x.f, no_hook, &other);
        embc_framer_register_rx_hook(x.f, 0, 0);
    }
}

int Sim::pending(int dir) {
    int c = 0;
    for (Msg * m : per_dir[dir]) { c += (!m->done && m->sender_inc == node[dir]->inc && m->kind != PING_RSP && m->kind != STATUS_RSP); }
    return c;
}

Bytes make_payload(uint64_t seed, int len, int style) {
    Prng r(seed);
    Bytes b((size_t) len);
    for (auto & v : b) {
        switch (style) {
            case 0: v = (uint8_t) r.next(); break;
            case 1: v = (r.below(3) == 0) ? 0xAA : (uint8_t) r.next(); break;
            case 2: v = 0xAA; break;
            default: v = (uint8_t) (r.below(2) ? 0xAA : r.below(16)); break;
        }
    }
    return b;
}

Msg * Sim::send(Node & n, int how, Kind kind, struct embc_buffer_s * loop) {
    int dir = n.id;
    msgs.emplace_back();
    Msg & m = msgs.back();
    m.dir = dir; m.kind = kind; m.sender_inc = n.inc;
    m.t_send = now;
    m.ahead = pending(dir);
    m.idx = idxs[dir]++;
    m.lenient = !settled[dir];
    int len = 0;
    if (kind == NORMAL) {
        for (int k = 0; ; ++k) {  // a key not used before in this direction
            uint32_t u = draw(DATA, 1u << 24);
            m.port = (uint8_t) draw(DATA, 16);
            while ((cfg.unreg & (1u << m.port)) && !silent) { m.port = (m.port + 1) & 15; }
            if (silent) { m.port = (uint8_t) silent_port; }
            m.mid = (uint8_t) u;
            m.def = (uint16_t) (u >> 8);
            if (cfg.few_ids) { m.mid = (m.mid & 1) ? 0 : 2; }   // as the resync
            if (k) { m.def = (uint16_t) (m.def + k * 257); }
            if (m.port == 0 && (m.def & 0xff) < 8) { m.def |= 0x10; }
            if (m.port == 0 && (m.mid == 0 || m.mid == 2)) { m.mid |= 4; }   // see scenario framer-resync-stale-ack
            if (!by_key.count(key(dir, m.port, m.mid, m.def))) { break; }
        }
        len = pick(DATA, {0, 1, 2, 5, 13, 30, 100, 239, 240, 240, -1});
        if (len < 0) { len = (int) draw(DATA, 241); }
        if (loop) {
            uint16_t c = loop->cursor;
            m.payload.assign(loop->data + c, loop->data + loop->length);
        } else {
            m.payload = make_payload(draw(DATA, 1u << 30), len, cfg.style);
        }
    } else if (kind == RESYNC) {
        m.port = 0; m.mid = 0; m.def = EMBC_FRAMER_PORT0_RESYNC;
    } else if (kind == PING_REQ) {
        m.port = 0; m.mid = (uint8_t) n.next_ping++; m.def = EMBC_FRAMER_PORT0_PING_REQ;
        len = pick(DATA, {0, 1, 8, 240});
        m.payload = make_payload(draw(DATA, 1u << 30), len, cfg.style);
    } else {
        m.port = 0; m.mid = (uint8_t) n.next_ping++; m.def = EMBC_FRAMER_PORT0_STATUS_REQ;
    }
    per_dir[dir].push_back(&m);
    if (kind == RESYNC) { cur_resync[dir] = &m; return &m; }
    by_key[key(dir, m.port, m.mid, m.def)] = &m;
    ev("send", dir, m.idx, ((int64_t) m.port << 32) | (m.def << 8) | m.mid, (int64_t) m.payload.size() * 8 + how);
    step();
    if (loop) {
        n.app_owned.erase(loop);
        embc_framer_send(n.f, m.port, m.mid, m.def, loop);
        return &m;
    }
    switch (how) {
        default:
            embc_framer_send_payload(n.f, m.port, m.mid, m.def, m.payload.data(), (uint8_t) m.payload.size());
            break;
        case 1: {
            struct embc_buffer_s * b = embc_framer_alloc(n.f);
            if (n.app_owned.count(b)) { violate(P(6) | P(9), "buffer-shared", "embc_framer_alloc returns a buffer the application owns"); }
            for (auto & q : n.q) { if (q.b == b) { violate(P(6) | P(9), "buffer-shared", "embc_framer_alloc returns a buffer the HAL owns"); } }
            if (m.payload.size()) { embc_buffer_write(b, m.payload.data(), (embc_size_t) m.payload.size()); }
            embc_framer_send(n.f, m.port, m.mid, m.def, b);
            break;
        }
        case 2: {
            embc_size_t room = (embc_size_t) draw(DATA, EMBC_FRAMER_FOOTER_SIZE);   // not enough: the framer copies
            struct embc_buffer_s * b = embc_buffer_alloc(n.alloc, (embc_size_t) m.payload.size() + room + 1);
            b->reserve = (uint16_t) room;
            if (m.payload.size()) { embc_buffer_write(b, m.payload.data(), (embc_size_t) m.payload.size()); }
            embc_framer_send(n.f, m.port, m.mid, m.def, b);
            break;
        }
    }
    return &m;
}

void Sim::do_resync(Node & n) {
    int dir = n.id;
    ev("resync", dir);
    step();
    probe("resync requested");
    if (pending(dir)) { probe("resync with pending sends"); }
    for (Msg * m : per_dir[dir]) {
        if (!m->done && m->sender_inc == n.inc) { m->aborted_ok = true; }
        if ((m->kind == PING_RSP || m->kind == STATUS_RSP) && !m->delivered) { m->lossy = true; }  // aborted, silently
    }
    unsettle(dir);
    n.resync_busy = true;
    n.had_resync = true;
    std::vector<Msg *> before;
    for (Msg * m : per_dir[dir]) { if (!m->done && m->sender_inc == n.inc && m->kind != PING_RSP && m->kind != STATUS_RSP) { before.push_back(m); } }
    send(n, 0, RESYNC, 0);
    ++n.resync_depth;
    embc_framer_resync(n.f);
    --n.resync_depth;
    if (n.resync_depth) { return; }   // the outer one is still completing them
    for (Msg * m : before) {
        if (!m->done) { violate(P(8) | P(2), "resync-abort", "a resync left message %d.%d pending", dir, m->idx); }
        else if (m->status != EMBC_ERROR_ABORTED) { violate(P(8) | P(2), "resync-abort", "a resync completed message %d.%d with status %d", dir, m->idx, m->status); }
    }
}

void Sim::crash(int n) {
    Node & x = *node[n];
    ev("crash", n);
    fault("crash");
    ++crashes;
    x.alive = false;
    unsettle(0); unsettle(1);
    for (int d = 0; d < 2; ++d) {
        for (Msg * m : per_dir[d]) {
            if (d == n && m->sender_inc == x.inc && !m->done) { m->lenient = true; }
            if (d != n) {
                if (!m->done) { m->lenient = true; }
                if (!m->delivered) { m->lossy = true; }  // it may have been held
            }
        }
    }
    int64_t down = 700 * MS + draw(SCHED, 20) * 150 * MS;
    if (chance(SCHED, 1, 3)) { down = pick(SCHED, {0, 1, 3, 10, 30, 100}) * MS; fault("restart at once"); }
    int inc = x.inc + 1;
    at(now + down, [this, n, inc]() {
        ev("restart", n);
        int next_ping = node[n]->next_ping;
        start_node(n, inc);
        node[n]->next_ping = next_ping;
        node[n]->keep_policy = 0;
        arrival[1 - n] = std::max(arrival[1 - n], now);
        // both applications resynchronise
        do_resync(*node[n]);
        at_node(1 - n, now + draw(SCHED, 4) * 100 * MS, [this, n]() { if (node[1 - n]->alive) { do_resync(*node[1 - n]); } });
    });
}

// --- HAL transmit ---------------------------------------------------------------
void Sim::hal_tx(Node & n, struct embc_buffer_s * b) {
    step();
    int dir = n.id;
    if (!b) { violate(P(5) | P(6), "hal-null", "the HAL is given no buffer"); return; }
    for (auto & q : n.q) {
        if (q.b == b) { violate(P(6), "hal-twice", "node %d passes a buffer to the HAL which the HAL still owns", dir); return; }
    }
    if (n.app_owned.count(b)) { violate(P(6), "hal-app", "node %d passes a buffer to the HAL which the application owns", dir); }
    Bytes w(b->data, b->data + b->length);
    char const * e = frame_error(w);
    if (e) { violate(P(5), "wire-format", "node %d transmits a malformed frame: %s", dir, e); }
    bool ack = w.size() > 1 && (w[1] & 0x80);
    Msg * m = 0;
    if (w.size() >= 13) {
        uint8_t id = w[1] & 0x0f;
        uint16_t def = (uint16_t) (w[5] | (w[6] << 8));
        if (w[1] & 0x70) { violate(P(5), "wire-id", "reserved bits in frame id 0x%02x", w[1]); }
        if (ack) {
            uint8_t status = w[8];
            ev("tx_ack", dir, id, w[2] * 256 + w[3], status);
            if (w[4] != 1) { violate(P(5), "ack-format", "an ACK with payload length %d", w[4]); }
            if (status == 0) {
                auto & c = n.ack_count[(uint32_t) (id << 16 | w[2] << 8 | w[3])];
                if (++c.second > c.first) {
                    violate(P(5), "ack-unfounded", "node %d acknowledges frame id=%d port=%d message_id=%d which did not arrive intact (%d acks, %d arrivals)", dir, id, w[2], w[3], c.second, c.first);
                }
                for (int k = 1; k <= 8 && !crashes; ++k) {   // the bitmap: bit 8 is this frame, the lower ones are those before it
                    if (!(def & (0x100 >> k))) { continue; }
                    for (Msg * x : per_dir[1 - dir]) {
                        if (x->kind != RESYNC && x->wire.size() && !x->done && !x->intact && (x->wire[1] & 0x0f) == ((id - k) & 0x0f) && x->kind != PING_RSP && x->kind != STATUS_RSP) {
                            violate(P(5) | P(2), "ack-bitmap", "node %d acknowledges frame id=%d (message %d) in the bitmap 0x%04x of frame id=%d, although it did not arrive", dir, x->wire[1] & 0x0f, x->idx, def, id);
                        }
                    }
                }
                // the receiver has accepted: find the message
                for (auto it = per_dir[1 - dir].rbegin(); it != per_dir[1 - dir].rend(); ++it) {
                    Msg * x = *it;
                    if (x->wire.size() && (x->wire[1] & 0x0f) == id && x->port == w[2] && x->mid == w[3] && x->intact) {
                        n.last_accept = now;
                        n.last_accept_local = local(n.id);
                        n.hold_deadlines.insert(n.last_accept_local + HOLD);
                        if (!x->delivered && !x->lenient && !x->lossy && x->kind == NORMAL) { n.held.insert(x); }
                        break;
                    }
                }
            } else {
                probe("negative acknowledgement");
                if (cfg.cls == 0 && !flushed) { violate(P(5), "nack-clean", "node %d sends a negative acknowledgement on a fault-free link", dir); }
            }
        } else {
            ++n.tx_total;
            Kind k = NORMAL;
            if (w[2] == 0 && def == EMBC_FRAMER_PORT0_RESYNC) { k = RESYNC; m = cur_resync[dir]; }
            else {
                auto it = by_key.find(key(dir, w[2], w[3], def));
                if (it != by_key.end() && (it->second->idx >= 0 || it->second->sender_inc == n.inc)) { m = it->second; }
                else if (w[2] == 0 && (def == EMBC_FRAMER_PORT0_PING_RSP || def == EMBC_FRAMER_PORT0_STATUS_RSP)) {
                    uint16_t rq = (def == EMBC_FRAMER_PORT0_PING_RSP) ? EMBC_FRAMER_PORT0_PING_REQ : EMBC_FRAMER_PORT0_STATUS_REQ;
                    auto r = by_key.find(key(1 - dir, 0, w[3], rq));
                    Msg * req = (r == by_key.end()) ? 0 : r->second;
                    Bytes pl(w.begin() + 8, w.end() - 5);
                    if (!req || !req->intact) { violate(P(8), "rsp-unasked", "node %d sends a response (message_id %d) which was not requested", dir, w[3]); }
                    else {
                        if (def == EMBC_FRAMER_PORT0_PING_RSP) {
                            if (pl != req->payload) { violate(P(8), "ping-payload", "ping response %d does not carry the request's payload", w[3]); }
                        } else {
                            if (pl.size() != sizeof(struct embc_framer_status_s)) { violate(P(8), "status-size", "status response has %zu bytes", pl.size()); }
                            else {
                                struct embc_framer_status_s st, cur = embc_framer_status_get(n.f);
                                memcpy(&st, pl.data(), sizeof(st));
                                if (st.rx_data_count > cur.rx_data_count || st.rx_data_count == 0 || st.tx_count > cur.tx_count
                                        || st.rx_count > cur.rx_count || st.rx_ack_count > cur.rx_ack_count || st.version != cur.version) {
                                    violate(P(8), "status-content", "status response does not describe the counters");
                                }
                            }
                        }
                        msgs.emplace_back();
                        m = &msgs.back();
                        m->dir = dir; m->idx = -1; m->kind = (def == EMBC_FRAMER_PORT0_PING_RSP) ? PING_RSP : STATUS_RSP;
                        m->port = 0; m->mid = w[3]; m->def = def; m->payload = pl; m->sender_inc = n.inc;
                        m->t_send = now; m->lenient = !settled[dir];
                        per_dir[dir].push_back(m);
                        by_key[key(dir, 0, w[3], def)] = m;
                        ++req->rsp_seen;
                        ++n.rsp_created;
                    }
                }
            }
            ev("tx", dir, id, m ? m->idx : -2, m ? m->tx : 0);
            if (!m) { violate(P(1) | P(5), "wire-unknown", "node %d transmits a frame that was not sent: port=%d message_id=%d port_def=%d", dir, w[2], w[3], def); }
            else {
                if (m->wire.size() && m->wire != w) {
                    if (m->kind == PING_RSP || m->kind == STATUS_RSP) { violate(P(8), "rsp-twice", "node %d answers request %d twice", dir, m->mid); }
                    else { violate(P(5), "wire-changed", "node %d retransmits different bytes for message %d", dir, m->idx); }
                }
                if (m->done && m->kind != PING_RSP && m->kind != STATUS_RSP) { violate(P(5) | P(2), "tx-after-done", "node %d transmits message %d after its completion", dir, m->idx); }
                if (m->wire.empty()) {
                    m->wire = w;
                    m->t_first = now;
                    m->acks_at_first = n.good_acks;
                    m->ord = ords[dir]++;
                    m->harmed_before = harmed[dir];
                    ++n.tx_first;
                    ++since_intact[dir];
                    Bytes pl(w.begin() + 8, w.end() - 5);
                    if (pl != m->payload) { violate(P(1) | P(5), "wire-payload", "node %d transmits message %d with a wrong payload", dir, m->idx); }
                    if (k != RESYNC && n.last_first_id >= 0 && id != ((n.last_first_id + 1) & 15)) {
                        violate(P(5), "wire-id-order", "node %d uses frame id %d after %d", dir, id, n.last_first_id);
                    }
                    n.last_first_id = id;
                    if (m->idx >= 0) {
                        for (Msg * o : per_dir[dir]) {
                            if (o->idx >= 0 && o->idx < m->idx && o->wire.empty() && !o->done && !o->aborted_ok && o->sender_inc == n.inc) {
                                violate(P(5) | P(1), "wire-order", "node %d transmits message %d before message %d", dir, m->idx, o->idx);
                                break;
                            }
                        }
                    }
                    int out = 0;
                    for (Msg * o : per_dir[dir]) { out += (o->idx >= 0 && o->wire.size() && !o->done && !o->aborted_ok && o->sender_inc == n.inc); }
                    if (out > EMBC_FRAMER_OUTSTANDING_FRAMES_MAX) { violate(P(5), "window", "node %d has %d unacknowledged frames", dir, out); }
                    if (out == 3) { probe("window full"); }
                }
                ++m->tx;
                if (m->tx > 1) { probe("retransmission"); }
                if (m->tx == MAX_TX) { probe("retries exhausted"); }
                // an ACK of a later frame also triggers a retransmission, which is not counted as a retry
                if (m->tx > MAX_TX + n.good_acks - m->acks_at_first) { violate(P(3), "retry-budget", "node %d transmits message %d %d times", dir, m->idx, m->tx); }
                if (m->tx > 1 && local(n.id) < m->last_tx + ACK_TIMEOUT && !n.feed_ack && !(n.feed_nacks >> id & 1)
                        && scanned[1 - dir] - last_false_pos[1 - dir] > 600) {   // else a frame may be found later than it ends
                    violate(P(5), "retransmit-early", "node %d retransmits message %d before its timeout, without an ACK or NACK to cause it", dir, m->idx);
                }
                if (m->tx > 1 && n.in_timer) {
                    int64_t due = std::max(m->last_tx, m->hal_done) + ACK_TIMEOUT + MS;
                    if (n.fired_timeout > due) { violate(P(7) | P(3), "timer-late", "node %d retransmits message %d on a timer which was set %lld ms too late", dir, m->idx, (long long) ((n.fired_timeout - due) / MS)); }
                }
                m->last_tx = local(n.id);
                if (m->tx > 1 && cfg.cls == 0 && !flushed) { violate(P(5), "retransmit-clean", "node %d retransmits message %d on a fault-free link", dir, m->idx); }
            }
        }
    }
    int64_t dur = (int64_t) w.size() * 10 * SEC / cfg.baud;
    int64_t start = std::max(now, n.line_free);
    n.line_free = start + dur;
    if (cfg.hal_inline) {
        line(dir, w, m, ack, start, dur);
        fault("transmit done inline");
        ev("tx_done_inline", dir);
        if (m) { m->hal_done = local(n.id); }
        embc_framer_hal_tx_done(n.f, b);
        return;
    }
    n.q.push_back(HalBuf{b, w, m, ack});
    if (m) { ++m->hal_owned; }
    embc_list_add_tail(&n.hal_list, &b->item);   // "the HAL can use the item field to manage its pending list"
    line(dir, w, m, ack, start, dur);
    int64_t late = 0;
    if (cfg.hal_late) {
        late = (cfg.hal_late * draw(SCHED, 9)) / 8;
        if (late > 2 * MS) { fault("transmit done late"); }
    }
    int64_t done_at = n.line_free + late;
    at_node(dir, done_at, [this, dir]() {
        Node & n = *node[dir];
        if (n.q.empty()) { return; }
        HalBuf h = n.q.front();
        n.q.pop_front();
        Bytes cur(h.b->data, h.b->data + std::min<size_t>(h.b->length, 256));
        if (cur != h.snap) { violate(P(6), "hal-modified", "node %d modified a buffer which the HAL owns", dir); }
        struct embc_list_s * item = embc_list_peek_head(&n.hal_list);
        if (item != &h.b->item) {
            violate(P(6), "hal-list", "node %d used the list item of a buffer which the HAL owns", dir);
            throw RunEnd();
        }
        embc_list_remove_head(&n.hal_list);
        if (h.m) { --h.m->hal_owned; h.m->hal_done = local(n.id); if (h.m->done) { probe("transmit done after completion"); } }
        ev("hal_done", dir, h.ack);
        step();
        embc_framer_hal_tx_done(n.f, h.b);
    });
}

// --- link -------------------------------------------------------------------
int Sim::targeted(int dir, Msg * m, bool ack, Bytes const & frame) {
    if (!faults_on) { return 0; }
    if (!ack) {
        Stubborn & s = stubborn[dir];
        if (s.left > 0 && s.kind < 4 && m && m->idx >= 0 && m->kind != RESYNC && since_intact[dir] < 9) {
            if (!s.m && m->tx == 1) { s.m = m; }
            if (s.m == m) {
                if (--s.left == 0) { s.m = 0; }
                return 1 + (s.kind & 3) % 3;
            }
        }
    } else {
        Stubborn & s = stubborn[1 - dir];
        if (s.left > 0 && s.kind >= 4 && frame.size() > 8 && frame[8] == 0) {
            if (!s.m) {
                for (Msg * x : per_dir[1 - dir]) {
                    if (x->idx >= 0 && x->kind != RESYNC && x->wire.size() && !x->done && x->tx == 1 && (x->wire[1] & 15) == (frame[1] & 15) && x->port == frame[2] && x->mid == frame[3]) { s.m = x; }
                }
            }
            if (s.m && (s.m->wire[1] & 15) == (frame[1] & 15) && s.m->port == frame[2] && s.m->mid == frame[3]) {
                if (--s.left == 0) { s.m = 0; }
                return 1 + (s.kind & 1);
            }
        }
    }
    return 0;
}

void Sim::line(int dir, Bytes const & frame, Msg * m, bool ack, int64_t start, int64_t dur) {
    Bytes bytes = frame;
    int copies = 1;
    bool intact = true;
    bool lost = false;
    Bytes pre, post;
    int64_t extra = 0;
    bool harm_ok = faults_on && (cfg.dirs & (1 << dir)) && !(since_intact[dir] >= 9);
    if (cfg.cls == 1) {
        while (harmed_times[dir].size() && harmed_times[dir].front() < now - 3 * SEC / 2) { harmed_times[dir].pop_front(); }
        if (harmed_times[dir].size() >= 2) { harm_ok = false; }
    }
    if (script) {
        switch (script(dir, m, ack, m ? m->tx : 0)) {
            case 1: lost = true; intact = false; break;
            case 2: bytes.pop_back(); intact = false; break;    // the last byte is lost
            default: break;
        }
    } else if (outage[dir] && faults_on && since_intact[dir] < 9) {
        lost = true; intact = false;
        fault("frame lost in outage");
    } else if (int k = targeted(dir, m, ack, frame)) {
        if (k == 1) {
            lost = true;
            fault(ack ? "every ACK of a message lost" : "every transmission of a message lost");
        } else {
            cfg.corrupting = true;
            size_t p = (k == 2) ? bytes.size() - 5 + draw(NET, 4) : draw(NET, 8);
            bytes[p] = (uint8_t) (bytes[p] ^ (1 + draw(NET, 255)));
            fault(ack ? "every ACK of a message corrupted" : "every transmission of a message corrupted");
        }
        intact = false;
    } else if (harm_ok) {
        if (cfg.p_drop && chance(NET, (uint32_t) cfg.p_drop, 64)) {
            lost = true; intact = false; fault(ack ? "ack frame lost" : "data frame lost");
        } else if (cfg.p_corrupt && chance(NET, (uint32_t) cfg.p_corrupt, 64)) {
            int k = 1 + (int) draw(NET, 4);
            int where = (int) draw(NET, 3);
            for (int i = 0; i < k; ++i) {
                size_t lo = 0, hi = bytes.size();
                if (where == 1) { hi = 8; }
                if (where == 2 && bytes.size() > 13) { lo = 8; }
                size_t p = lo + draw(NET, (uint32_t) (hi - lo));
                bytes[p] = (uint8_t) (bytes[p] ^ (1 + draw(NET, 255)));
            }
            intact = bytes == frame;
            fault(ack ? "ack frame corrupted" : "data frame corrupted");
        } else if (cfg.p_trunc && chance(NET, (uint32_t) cfg.p_trunc, 64)) {
            if (chance(NET, 1, 2)) {
                bytes.resize(draw(NET, (uint32_t) bytes.size()));
            } else {   // a gap
                size_t p = draw(NET, (uint32_t) bytes.size());
                size_t l = 1 + draw(NET, (uint32_t) (bytes.size() - p));
                bytes.erase(bytes.begin() + p, bytes.begin() + p + l);
            }
            intact = false;
            fault(ack ? "ack frame truncated" : "data frame truncated");
        } else if (cfg.p_dup && chance(NET, (uint32_t) cfg.p_dup, 64)) {
            copies = 2; fault(ack ? "ack frame duplicated" : "data frame duplicated");
        } else if (cfg.p_insert && chance(NET, (uint32_t) cfg.p_insert, 64)) {
            int l = 1 + (int) draw(NET, 24);
            for (int i = 0; i < l; ++i) { pre.push_back(chance(NET, 1, 3) ? 0xAA : (uint8_t) draw(NET, 256)); }
            fault("noise inserted");
        } else if (cfg.p_foreign && chance(NET, (uint32_t) cfg.p_foreign, 64)) {
            int kind = (int) draw(NET, 6);
            Msg * like = 0;   // a message the receiver of the foreign frame awaits an ACK for
            if (kind >= 3) {
                for (Msg * o : per_dir[1 - dir]) { if (o->wire.size() && !o->done && o->sender_inc == node[1 - dir]->inc) { like = o; if (chance(NET, 1, 2)) { break; } } }
                if (!like) { kind -= 3; }
            }
            if (kind == 3) { pre = encode(0x80 | (like->wire[1] & 15), like->port, like->mid, 0x01ff, Bytes()); probe("foreign ACK without status"); }
            else if (kind == 4) { pre = encode(0x80 | (like->wire[1] & 15), like->port, like->mid, 0x01ff, Bytes(2 + draw(NET, 4), 0)); probe("foreign ACK with a long payload"); }
            else if (kind == 5) { pre = encode(0x80 | (like->wire[1] & 15), like->port, like->mid, 0, Bytes(1, 1 + (uint8_t) draw(NET, 40))); probe("foreign general NACK"); }
            else if (kind == 0) { pre = encode((uint8_t) draw(NET, 16), (uint8_t) (16 + draw(NET, 240)), 7, 9, Bytes(3, 1)); }
            else if (kind == 1) { pre = encode((uint8_t) (0x80 | draw(NET, 16)), 1, 7, 0x01ff, Bytes()); }
            else { pre = encode((uint8_t) (0x80 | draw(NET, 16)), 1, 7, 0x01ff, Bytes(5, 0)); }
            fault("foreign frame inserted");
        } else if (cfg.p_delay && chance(NET, (uint32_t) cfg.p_delay, 64)) {
            extra = (int64_t) (1 + draw(NET, 10)) * 10 * MS;
            fault("link stalled");
        }
        if (!intact) { harmed_times[dir].push_back(now); }
        if (pre.size() || extra > 0) { harmed_times[dir].push_back(now); }
    }
    if (!intact || pre.size()) { ++harmed[dir]; }
    int64_t t0 = start + cfg.latency + extra;
    int64_t t1 = t0 + dur;
    ev("line", dir, intact, lost ? -1 : (int64_t) bytes.size(), copies);
    if (lost) { return; }
    Bytes all = pre;
    std::vector<size_t> starts;
    if (pre.size() >= 13 && !frame_error(pre)) { starts.push_back(0); }
    for (int c = 0; c < copies; ++c) {
        if (intact || (bytes.size() >= 8 && std::equal(bytes.begin(), bytes.begin() + 8, frame.begin()))) { starts.push_back(all.size()); }
        all.insert(all.end(), bytes.begin(), bytes.end());
    }
    deliver_bytes(dir, t0, t1, all, starts);
}

void Sim::deliver_bytes(int dir, int64_t t0, int64_t t1, Bytes const & bytes, std::vector<size_t> starts) {
    if (bytes.empty()) { return; }
    int k = 1;
    switch (cfg.chunking) {
        case 0: k = 1; break;
        case 1: k = 1 + (int) draw(SCHED, 4); break;
        case 2: k = (int) std::min<size_t>(bytes.size(), 40); break;
        default: k = 1 + (int) draw(SCHED, (uint32_t) std::min<size_t>(bytes.size(), 12)); break;
    }
    size_t pos = 0;
    int sinc = node[dir]->inc;
    for (int i = 0; i < k; ++i) {
        size_t end = bytes.size() * (size_t) (i + 1) / (size_t) k;
        if (cfg.chunking == 3 && i + 1 < k && end > pos) { end = pos + draw(SCHED, (uint32_t) (bytes.size() - pos)); }
        if (i + 1 == k) { end = bytes.size(); }
        if (end <= pos) { continue; }
        Bytes part(bytes.begin() + pos, bytes.begin() + end);
        std::vector<size_t> ps;
        for (auto x : starts) { if (x >= pos && x < end) { ps.push_back(x - pos); } }
        int64_t t = t0 + (t1 - t0) * (int64_t) end / (int64_t) bytes.size();
        t = std::max(t, arrival[dir]);
        arrival[dir] = t;
        int64_t left = t - cfg.latency;   // when the last byte left the sender
        at(t, [this, dir, part, ps, sinc, left]() {
            int r = 1 - dir;
            if (!node[r]->alive) { return; }   // lost while it is down
            if (node[dir]->inc != sinc || !node[dir]->alive) {
                // the sender crashed: what had not left it is cut off
                if (left > last_unsettled[dir]) { return; }
            }
            for (size_t s : ps) { true_starts[dir].insert(fed[dir] + (int64_t) s); }
            fed[dir] += (int64_t) part.size();
            node[r]->inbox.push_back(part);
            at_node(r, now, [this, r]() { feed(*node[r]); });
        });
        pos = end;
    }
}

void Sim::feed(Node & n) {
    if (n.inbox.empty()) { return; }
    auto c = n.inbox.front();
    n.inbox.pop_front();
    int dir = 1 - n.id;
    step();
    // false headers
    {
        Bytes & t = tail[dir];
        for (uint8_t b : c) {
            t.push_back(b);
            ++scanned[dir];
            if (t.size() > 8) { t.erase(t.begin()); }
            if (t.size() == 8 && t[0] == 0xAA && t[4] <= 240 && crc8(t.data(), 7) == t[7]) {
                if (!true_starts[dir].count(scanned[dir] - 8)) { last_false_hdr[dir] = now; last_false_pos[dir] = scanned[dir]; }
            }
        }
        while (true_starts[dir].size() && *true_starts[dir].begin() < scanned[dir] - 600) { true_starts[dir].erase(true_starts[dir].begin()); }
    }
    std::vector<Bytes> frames;
    for (uint8_t b : c) { n.ref.feed(b, frames); }
    for (Bytes & f : frames) {
        if ((f[1] & 0x80) && f[8] == 0) { ++n.good_acks; }
        if ((f[1] & 0x80) && f[4] == 1) {
            if (f[8] == 0) { n.feed_ack = true; }
            else if (f[5] || f[6]) { n.feed_nacks |= 1u << (f[1] & 15); }
        }
        if (f[1] & 0x80) { ++(f[2] < 16 ? n.acks_handed : n.foreign_acks); continue; }
        ++n.data_handed;
        if (f[2] >= 16) { continue; }   // no such port: refused
        since_intact[dir] = 0;
        ++n.ack_count[(uint32_t) ((f[1] & 15) << 16 | f[2] << 8 | f[3])].first;
        uint16_t def = (uint16_t) (f[5] | (f[6] << 8));
        Msg * m = 0;
        auto same = [&f](Msg * m) { return m->wire.size() == f.size() && std::equal(f.begin(), f.end() - 1, m->wire.begin()); };
        if (f[2] == 0 && def == EMBC_FRAMER_PORT0_RESYNC) {
            for (Msg * x : per_dir[dir]) { if (x->kind == RESYNC && same(x)) { m = x; } }
        } else {
            auto it = by_key.find(key(dir, f[2], f[3], def));
            if (it != by_key.end() && same(it->second)) { m = it->second; }
        }
        if (m) { ++m->intact; }
    }
    ev("rx", n.id, (int64_t) c.size(), (int64_t) frames.size());
    int how = cfg.chunking ? (int) draw(SCHED, 2) : 0;
    if (how) { for (uint8_t b : c) { embc_framer_hal_rx_byte(n.f, b); } }
    else { embc_framer_hal_rx_buffer(n.f, c.data(), (embc_size_t) c.size()); }
    n.feed_ack = false;
    n.feed_nacks = 0;
}

// --- application callbacks ----------------------------------------------------
void Sim::rx(Node & n, uint8_t port, uint8_t mid, uint16_t def, struct embc_buffer_s * b) {
    step();
    int dir = 1 - n.id;
    if (!b) { violate(P(1), "rx-null", "a receive callback without a buffer"); return; }
    if (n.app_owned.count(b)) { violate(P(6), "rx-owned", "node %d delivers a buffer which the application owns", n.id); }
    for (auto & q : n.q) { if (q.b == b) { violate(P(6), "rx-hal", "node %d delivers a buffer which the HAL owns", n.id); } }
    n.app_owned.insert(b);
    ++n.visible_deliveries;
    auto it = by_key.find(key(dir, port, mid, def));
    Msg * m = (it == by_key.end()) ? 0 : it->second;
    ev("deliver", n.id, m ? m->idx : -2, port * 256 + mid, def);
    if (!m || m->wire.empty()) {
        violate(P(1), "deliver-unknown", "node %d receives a message that was not sent: port=%d message_id=%d port_def=%d", n.id, port, mid, def);
    } else {
        embc_size_t len = embc_buffer_read_remaining(b);
        Bytes pl;
        if (len > 0 && len <= 256) { pl.assign(b->data + b->cursor, b->data + b->cursor + len); }
        if (len < 0 || pl != m->payload) { violate(P(1), "deliver-payload", "node %d receives message %d with %d bytes, sent %d: the payload differs", n.id, m->idx, (int) len, (int) m->payload.size()); }
        if (!m->intact) { violate(P(1) | P(4), "deliver-early", "node %d receives message %d which never arrived intact", n.id, m->idx); }
        if (m->delivered_inc.count(n.inc)) {
            // documented limit: sent before a resync was confirmed, and the resync was repeated
            if (m->lenient) { probe("delivered again after a repeated resync (excused)"); }
            else { violate(P(1), "deliver-twice", "node %d receives message %d twice", n.id, m->idx); }
        }
        else if (m->delivered && !m->lenient && !crashes) { violate(P(1), "deliver-twice", "node %d receives message %d twice", n.id, m->idx); }
        m->delivered_inc.insert(n.inc);
        ++m->delivered;
        m->t_deliver = now;
        m->t_accept_before = n.last_accept;
        n.held.erase(m);
        if (!m->lenient) {
            if (m->ord < n.last_delivered_ord) {
                // a later message was delivered before this one
                Msg * p = 0;
                for (Msg * x : per_dir[dir]) { if (x->ord > m->ord && x->delivered && x->t_deliver <= now && x != m && !x->lenient) { if (!p || x->t_deliver < p->t_deliver) { p = x; } } }
                bool excused = false;
                if (p && !no_excuse) {
                    // documented limit: the receiver's hold time ran out while the
                    // missing frame was lost several times in a row
                    int64_t silent = p->t_deliver - p->t_accept_before;
                    bool held = silent >= 780 * MS;
                    int need = attempt_max < 320 * MS ? 3 : (attempt_max < 420 * MS ? 2 : 1);
                    bool harm = (harmed[dir] - m->harmed_before >= need) || (last_false_hdr[dir] > m->t_first - 2 * SEC && harmed[dir] > 0)
                            || cfg.baud < 115200;
                    excused = (held && harm) || (last_jump[n.id] > p->t_deliver - 3 * SEC) || (last_jump[dir] > p->t_deliver - 3 * SEC);
                }
                if (excused) { probe("out of order after the hold time (excused)"); }
                else {
                    violate(P(1) | (crashes || n.had_resync || node[dir]->had_resync ? P(8) : 0), "deliver-order", "node %d receives message %d after message %d", n.id, m->idx, p ? p->idx : -1);
                }
            }
            n.last_delivered_ord = std::max(n.last_delivered_ord, m->ord);
        }
        if (m->kind == PING_RSP || m->kind == STATUS_RSP) { probe("response received"); }
    }
    state_cover(1);
    // what the application does with it
    ++n.cb_depth;
    if (n.arm_rx_resync && n.cb_depth == 1 && !n.resync_busy) {
        n.arm_rx_resync = 0;
        probe("resync from a receive callback");
        do_resync(n);
    }
    if (n.arm_rx_send && n.cb_depth <= 2 && pending(n.id) < cfg.limit + 4 && settled[n.id]) {
        --n.arm_rx_send;
        probe("send from a receive callback");
        send(n, (int) draw(APP, 3), NORMAL, 0);
    }
    if (n.arm_loopback && pending(n.id) < cfg.limit + 4 && settled[n.id] && m && m->payload.size() <= 240) {
        --n.arm_loopback;
        probe("received buffer sent back");
        send(n, 0, NORMAL, b);
    } else if (n.keep_policy && n.kept.size() < 12) {
        n.kept.push_back(b);
    } else {
        n.app_owned.erase(b);
        embc_buffer_free(b);
    }
    --n.cb_depth;
}

void Sim::tx_done(Node & n, uint8_t port, uint8_t mid, uint16_t def, int32_t status) {
    step();
    int dir = n.id;
    Msg * m = 0;
    if (port == 0 && def == EMBC_FRAMER_PORT0_RESYNC) {
        for (auto it = per_dir[dir].begin(); it != per_dir[dir].end(); ++it) {  // the oldest one
            if ((*it)->kind == RESYNC && !(*it)->done && (*it)->sender_inc == n.inc) { m = *it; break; }
        }
    } else {
        auto it = by_key.find(key(dir, port, mid, def));
        m = (it == by_key.end()) ? 0 : it->second;
    }
    ev("done", dir, m ? m->idx : -2, status);
    ++n.completions;
    if (!m || m->sender_inc != n.inc) { violate(P(2), "done-unknown", "node %d completes a message it did not send: port=%d message_id=%d port_def=%d", dir, port, mid, def); return; }
    if (m->done) { violate(P(2), "done-twice", "node %d completes message %d twice", dir, m->idx); return; }
    m->done = true;
    m->status = status;
    m->t_done = now;
    if (status == 0) {
        if (!m->intact) { violate(P(2) | P(1) | (crashes || n.had_resync ? P(8) : 0), "done-false", "node %d reports success for message %d which never arrived intact", dir, m->idx); }
        for (Msg * o : per_dir[dir]) {
            if (o->idx >= 0 && o->idx < m->idx && !o->done && o->sender_inc == n.inc) {
                violate(P(2), "done-order", "node %d completes message %d before message %d", dir, m->idx, o->idx);
                break;
            }
            if (o->idx > m->idx && o->done && o->status == 0 && o->sender_inc == n.inc) {
                violate(P(2), "done-order", "node %d completes message %d after message %d", dir, m->idx, o->idx);
                break;
            }
        }
    } else if (status == EMBC_ERROR_ABORTED) {
        if (m->wire.empty()) { ++since_intact[dir]; }   // its frame id is never used
        if (!m->aborted_ok) { violate(P(2) | P(8), "done-aborted", "node %d reports message %d as aborted without a resync", dir, m->idx); }
        probe("send aborted by resync");
    } else {
        probe("send failed");
        if (m->tx < MAX_TX) { violate(P(2), "done-early-fail", "node %d reports status %d for message %d after %d transmissions", dir, status, m->idx, m->tx); }
        if (!faults_on && m->t_send >= faults_end) { violate(P(2) | P(3) | (crashes || n.had_resync ? P(8) : 0), "fail-clean", "node %d: message %d sent after the faults stopped failed with status %d", dir, m->idx, status); }
        else if (!faults_on && m->tx_at_faults_end <= 10 && !m->lenient) { violate(P(3), "fail-recovery", "node %d: message %d, pending when the faults stopped with %d transmissions, failed with status %d", dir, m->idx, m->tx_at_faults_end, status); }
        if (cfg.cls == 0) { violate(P(2) | P(3), "fail-clean", "node %d: message %d failed with status %d on a fault-free link", dir, m->idx, status); }
    }
    int64_t bound = (int64_t) (m->ahead + 4) * MAX_TX * (attempt_max + 60 * MS) * 3 / 2;
    if (m->kind != RESYNC && now - m->t_send > bound) { violate(P(3), "done-late", "node %d: message %d took %lld ms", dir, m->idx, (long long) ((now - m->t_send) / MS)); }
    if (m->kind == RESYNC) {
        if (m == cur_resync[dir]) {
            n.resync_busy = false;
            if (status == 0) {
                settled[dir] = true; probe("resync completed");
                // what was sent meanwhile waited for the resync
                for (Msg * x : per_dir[dir]) { if (x->idx > m->idx && !x->done && x->sender_inc == n.inc) { x->lenient = false; } }
                // from here on everything is delivered in order again
                node[1 - dir]->last_delivered_ord = std::min(node[1 - dir]->last_delivered_ord, m->ord);
            } else if (status != EMBC_ERROR_ABORTED) {
                probe("resync failed, repeated");
                int id = n.id;
                at_node(id, now + 50 * MS, [this, id]() { if (!node[id]->resync_busy) { do_resync(*node[id]); } });
            }
        }
    }
    state_cover(2);
    ++n.cb_depth;
    if (n.arm_done_resync && n.cb_depth == 1 && ((status != EMBC_ERROR_ABORTED && !n.resync_busy) || (status == EMBC_ERROR_ABORTED && n.arm_done_resync == 2))) {
        n.arm_done_resync = 0;
        probe(status == EMBC_ERROR_ABORTED ? "resync from the completion of an aborted send" : "resync from a completion callback");
        do_resync(n);
    } else if (n.arm_abort_send && status == EMBC_ERROR_ABORTED && n.cb_depth <= 2 && pending(dir) < cfg.limit + 4) {
        --n.arm_abort_send;
        probe("aborted message sent again at once");
        send(n, (int) draw(APP, 3), NORMAL, 0);
    } else if (n.arm_done_send && n.cb_depth <= 2 && pending(n.id) < cfg.limit + 4 && settled[n.id]) {
        --n.arm_done_send;
        probe("send from a completion callback");
        send(n, (int) draw(APP, 3), NORMAL, 0);
    }
    --n.cb_depth;
}


// --- checks -------------------------------------------------------------------
void Sim::state_cover(int what) {
    uint64_t h = (uint64_t) what;
    for (int d = 0; d < 2; ++d) {
        Node & n = *node[d];
        int out = 0, q = 0, retr = 0, maxtx = 0;
        for (auto it = per_dir[d].rbegin(); it != per_dir[d].rend() && q + out < 8; ++it) {
            Msg * m = *it;
            if (m->done || m->sender_inc != n.inc) { continue; }
            if (m->wire.empty()) { ++q; } else { ++out; retr += m->tx > 1; maxtx = std::max(maxtx, m->tx); }
        }
        h = h * 5 + (uint64_t) std::min(out, 4);
        h = h * 4 + (uint64_t) std::min(q, 3);
        h = h * 4 + (uint64_t) std::min(retr, 3);
        h = h * 5 + (uint64_t) (maxtx < 3 ? maxtx : maxtx < 8 ? 3 : 4);
        h = h * 4 + (uint64_t) std::min<size_t>(n.held.size(), 3);
        h = h * 4 + (uint64_t) std::min<size_t>(n.q.size(), 3);
        h = h * 16 + (uint64_t) (n.last_first_id & 15);
        h = h * 2 + n.timer_on;
        h = h * 2 + n.resync_busy;
        h = h * 2 + n.alive;
    }
    cover(h);
}

bool hold_deadline(Node & n) {
    auto it = n.hold_deadlines.lower_bound(n.timer_timeout - MS);
    return it != n.hold_deadlines.end() && *it <= n.timer_timeout + MS;
}

void Sim::idle_checks() {
    if (silent) { return; }
    for (int d = 0; d < 2; ++d) {
        Node & n = *node[d];
        if (!n.alive) { continue; }
        int64_t l = local(d);
        Msg * head = 0;
        int success = -1;
        bool rsp = false;
        int first_rsp = INT32_MAX;
        bool any = false;
        for (Msg * m : per_dir[d]) {
            if (m->sender_inc != n.inc) { continue; }
            if (m->kind == PING_RSP || m->kind == STATUS_RSP) { continue; }
            if (m->done) { if (m->status == 0) { success = std::max(success, m->ord); } continue; }
            any = true;
            if (m->wire.size() && (!head || m->ord < head->ord)) { head = m; }
        }
        for (Msg * m : per_dir[d]) {
            if (m->sender_inc == n.inc && (m->kind == PING_RSP || m->kind == STATUS_RSP) && m->ord > success) { rsp = true; first_rsp = std::min(first_rsp, m->ord); }
        }
        if (head && !head->hal_owned && !(rsp && first_rsp < head->ord)) {
            int64_t due = std::max(head->last_tx, head->hal_done) + ACK_TIMEOUT + MS;
            if (!n.timer_on) { violate(P(7) | P(3), "timer-missing", "node %d awaits an acknowledgement for message %d without a timer", d, head->idx); }
            else if (n.timer_timeout > due) { violate(P(7) | P(3), "timer-late", "node %d awaits an acknowledgement for message %d, but its timer is set %lld ms too late", d, head->idx, (long long) ((n.timer_timeout - due) / MS)); }
        }
        if (n.held.size()) {
            probe("frames held for order");
            if (!n.timer_on) { violate(P(7) | P(3), "timer-missing", "node %d holds received frames without a timer", d); }
            else if (n.timer_timeout > n.last_accept_local + HOLD + MS) { violate(P(7) | P(3), "timer-late", "node %d holds received frames, but its timer is set too late", d); }
            if (now > n.last_accept + HOLD + HOLD / 500 + late_max + cfg.stall_max + 30 * MS) {
                violate(P(3) | P(1), "held-long", "node %d holds a received message for %lld ms after the last arrival", d, (long long) ((now - n.last_accept) / MS));
            }
        }
        if (!any && !rsp && n.held.empty() && n.timer_on && !hold_deadline(n)) {
            violate(P(7), "timer-idle", "node %d keeps a timer set (%lld ms) with nothing outstanding", d, (long long) ((n.timer_timeout - l) / MS));
        }
        while (n.hold_deadlines.size() && *n.hold_deadlines.begin() < l - 60 * SEC) { n.hold_deadlines.erase(n.hold_deadlines.begin()); }
    }
}

void Sim::drain(int64_t deadline) {
    while (!queue.empty()) {
        Ev e = queue.top();
        if (e.t > deadline) { return; }
        queue.pop();
        now = e.t;
        trace_now = (int64_t) ((double) now * 1e9 / (double) SEC);
        step();
        e.fn();
        idle_checks();
    }
}

void Sim::configure(int prop) {
    int w[5] = {2, 3, 4, 1, 1};
    bool resync_bias = false, late_bias = false, cb_bias = false;
    switch (prop) {
        case 2: { int x[5] = {1, 3, 4, 3, 1}; memcpy(w, x, sizeof(w)); break; }
        case 3: { int x[5] = {1, 3, 4, 5, 1}; memcpy(w, x, sizeof(w)); break; }
        case 5: { int x[5] = {5, 3, 4, 1, 1}; memcpy(w, x, sizeof(w)); break; }
        case 6: { int x[5] = {1, 2, 5, 3, 1}; memcpy(w, x, sizeof(w)); cb_bias = late_bias = true; break; }
        case 7: { int x[5] = {2, 3, 4, 3, 1}; memcpy(w, x, sizeof(w)); late_bias = true; break; }
        case 8: { int x[5] = {2, 2, 3, 2, 6}; memcpy(w, x, sizeof(w)); resync_bias = true; break; }
        default: break;
    }
    int tot = w[0] + w[1] + w[2] + w[3] + w[4];
    int v = (int) draw(CFG, (uint32_t) tot);
    cfg.cls = 0;
    while (v >= w[cfg.cls]) { v -= w[cfg.cls]; ++cfg.cls; }
    cfg.baud = pick(CFG, {115200, 115200, 230400, 1000000, 3000000});
    cfg.hal_inline = chance(CFG, 1, 5);
    if (cfg.cls >= 2 && chance(CFG, 1, 16)) { cfg.baud = pick(CFG, {38400, 9600}); cfg.hal_inline = false; }
    cfg.latency = pick(CFG, {0, 1, 5}) * MS;
    cfg.chunking = (int) draw(CFG, 4);
    cfg.timer_inline = chance(CFG, 1, 3);
    cfg.limit = pick(CFG, {4, 1, 2, 3, 8, 12});
    if (chance(CFG, 1, 3)) { cfg.unreg = 1u << draw(CFG, 16); cfg.unreg |= 1u << draw(CFG, 16); }
    cfg.style = (int) draw(CFG, 4);
    cfg.ops = 3 + (int) draw(CFG, 40);
    if (chance(CFG, 1, 60)) { cfg.ops = 100 + (int) draw(CFG, 200); }
    for (int d = 0; d < 2; ++d) {
        cfg.offset[d] = (int64_t) pick(CFG, {0ll, 100ll * SEC, 1500000000ll * SEC, -50ll * SEC, -3ll * SEC});
    }
    cfg.resync_ok = resync_bias || chance(CFG, 1, 4);
    cfg.ping_ok = chance(CFG, resync_bias ? 2 : 1, 3);
    if (cfg.cls > 0) {
        if (late_bias || chance(CFG, 1, 3)) {
            cfg.timer_late = pick(CFG, {0, 10, 60, 200}) * MS;
            if (!cfg.hal_inline) { cfg.hal_late = pick(CFG, {0, 5, 60, 300}) * MS; }
            cfg.stall_max = pick(CFG, {0, 0, 30, 150}) * MS;
        }
        if (late_bias ? chance(CFG, 1, 2) : chance(CFG, 1, 6)) { cfg.jump_ok = true; }
        for (int d = 0; d < 2; ++d) { cfg.ppm[d] = pick(CFG, {0, 100, -100, 1000, -1000}); }
        cfg.dirs = pick(CFG, {3, 3, 1, 2});
        int strength = cfg.cls == 2 ? pick(CFG, {2, 5, 10, 16}) : pick(CFG, {2, 4, 6});
        bool frames_only = prop == 3 && chance(CFG, 2, 3);
        for (int i = 0; i < 7; ++i) {
            if (!chance(CFG, 1, 2)) { continue; }
            switch (i) {
                case 0: cfg.p_drop = strength; break;
                case 1: if (!frames_only) { cfg.p_corrupt = strength; } break;
                case 2: if (!frames_only) { cfg.p_trunc = strength; } break;
                case 3: cfg.p_dup = strength; break;
                case 4: if (!frames_only) { cfg.p_insert = strength; } break;
                case 5: cfg.p_delay = strength; break;
                case 6: if (!frames_only) { cfg.p_foreign = strength; } break;
            }
        }
        cfg.corrupting = cfg.p_corrupt || cfg.p_trunc || cfg.p_insert || cfg.p_foreign;
        if (cfg.cls == 4) { cfg.crash_ok = true; cfg.corrupting = true; }
    }
    (void) cb_bias;
    cfg.few_ids = chance(CFG, 1, 4);
    if (cfg.ping_ok || cfg.resync_ok || cfg.crash_ok) { cfg.unreg &= ~1u; }
    late_max = cfg.timer_late;
    attempt_max = ACK_TIMEOUT + cfg.timer_late + cfg.hal_late + cfg.stall_max + 2 * cfg.latency + (cfg.p_delay ? 100 * MS : 0)
            + (cfg.baud < 115200 ? 8 * 2530 * SEC / cfg.baud : 20 * MS);
    note("class %d baud %d latency %lld ms chunking %d inline %d/%d late timer %lld hal %lld stall %lld ms limit %d ops %d",
         cfg.cls, cfg.baud, (long long) (cfg.latency / MS), cfg.chunking, cfg.hal_inline, cfg.timer_inline,
         (long long) (cfg.timer_late / MS), (long long) (cfg.hal_late / MS), (long long) (cfg.stall_max / MS), cfg.limit, cfg.ops);
    note("per 64: drop %d corrupt %d truncate %d duplicate %d insert %d delay %d foreign %d, directions %d",
         cfg.p_drop, cfg.p_corrupt, cfg.p_trunc, cfg.p_dup, cfg.p_insert, cfg.p_delay, cfg.p_foreign, cfg.dirs);
}

void Sim::app_op() {
    int n = (int) draw(APP, 2);
    int k = (int) draw(APP, 32);
    Node & x = *node[n];
    auto can_send = [&]() {
        if (!x.alive || x.stalled_until > now || pending(n) >= cfg.limit) { return false; }
        if (!settled[n]) { return chance(APP, 1, 2); }
        return true;
    };
    if (k < 12) {
        if (can_send()) { send(x, (int) draw(APP, 3), NORMAL, 0); }
    } else if (k < 20) {
        int c = 2 + (int) draw(APP, 6);
        for (int i = 0; i < c && can_send(); ++i) { send(x, (int) draw(APP, 3), NORMAL, 0); }
    } else if (k < 22) {
        if (cfg.ping_ok && can_send() && x.next_ping < 250 && settled[0] && settled[1]) { send(x, 0, chance(APP, 1, 4) ? STATUS_REQ : PING_REQ, 0); probe("ping or status requested"); }
    } else if (k == 22) {
        x.arm_loopback += 1 + (int) draw(APP, 3);
    } else if (k == 23) {
        x.arm_rx_send += 1 + (int) draw(APP, 3);
    } else if (k == 24) {
        x.arm_done_send += 1 + (int) draw(APP, 3);
        if (chance(APP, 1, 2)) { x.arm_abort_send = 1 + (int) draw(APP, 4); }
    } else if (k == 25) {
        x.keep_policy = 1 - x.keep_policy;
    } else if (k == 26) {
        while (x.kept.size()) {
            struct embc_buffer_s * b = x.kept.front();
            x.kept.pop_front();
            x.app_owned.erase(b);
            if (x.alive && chance(APP, 1, 3) && can_send()) { probe("kept buffer sent back"); send(x, 0, NORMAL, b); }
            else if (x.alive) { embc_buffer_free(b); }
        }
    } else if (k == 27) {
        if (cfg.stall_max && x.alive) {
            x.stalled_until = now + cfg.stall_max * (1 + draw(SCHED, 4)) / 4;
            fault("node stalled");
        }
    } else if (k == 28) {
        if (cfg.jump_ok && last_jump[n] < now - 4 * SEC && x.alive) {
            int64_t j = pick(SCHED, {100, 260, 700, 900, 5000}) * MS;
            jump[n] += j;
            last_jump[n] = now;
            fault("clock jumped forward");
            ev("jump", n, j);
            if (x.timer_on) { ++x.timer_gen; timer_arm(x, true); }
        }
    } else if (k == 29) {
        if (cfg.cls == 3 && chance(NET, 1, 2)) {
            int d = (int) draw(NET, 2);
            stubborn[d].kind = (int) draw(NET, 8);
            stubborn[d].left = pick(NET, {17, 16, 18, 3, 9, 40, 1000});
            stubborn[d].m = 0;
            ev("stubborn", d, stubborn[d].kind, stubborn[d].left);
        } else if (cfg.cls == 3) {
            int d = 1 + (int) draw(NET, 3);
            int64_t len = pick(NET, {300, 1000, 2000, 4500, 6000, 12000}) * MS;
            ev("outage", d, len);
            fault("link outage");
            for (int i = 0; i < 2; ++i) { if (d & (1 << i)) { outage[i] = true; } }
            at(now + len, [this, d]() { for (int i = 0; i < 2; ++i) { if (d & (1 << i)) { outage[i] = false; } } });
        }
    } else if (k == 30) {
        if (cfg.crash_ok && crashes < 2 && x.alive && node[1 - n]->alive && settled[0] && settled[1]) { crash(n); }
    } else {
        if (cfg.resync_ok && x.alive && x.stalled_until <= now && !x.resync_busy) {
            switch (draw(APP, 4)) {
                case 1: x.arm_done_resync = 1 + (int) draw(APP, 2); break;
                case 2: x.arm_rx_resync = 1; break;
                default: do_resync(x); break;
            }
        }
    }
    state_cover(3);
}

void Sim::final_checks(bool conserve) {
    for (int d = 0; d < 2; ++d) {
        Node & n = *node[d];
        Node & r = *node[1 - d];
        int deliv = 0;
        for (Msg * m : per_dir[d]) {
            if (m->idx >= 0 && m->sender_inc == n.inc && !m->done) {
                violate(P(2) | P(3), "never-done", "node %d: message %d is never completed", d, m->idx);
            }
            if (m->status == 0 && m->done && !m->delivered && !m->lenient && !m->lossy && m->kind == NORMAL) {
                violate(P(1) | P(2) | (crashes || n.had_resync || r.had_resync ? P(8) : 0), "never-delivered", "node %d: message %d was confirmed but never delivered", d, m->idx);
            }
            if ((m->kind == PING_REQ || m->kind == STATUS_REQ) && m->done && m->status == 0 && !m->lenient && !m->lossy && !m->rsp_seen
                    && !r.had_resync && !crashes) {
                violate(P(8), "no-response", "request %d of node %d was delivered but never answered", m->mid, d);
            }
            if (m->kind == PING_RSP || m->kind == STATUS_RSP) {
                bool ok = m->lenient || m->lossy || cfg.cls >= 3;
                if (!ok && !m->delivered && m->tx < MAX_TX) { violate(P(8), "response-lost", "response %d of node %d was never delivered", m->mid, d); }
            }
            deliv += m->delivered;
        }
    }
    if (!conserve) { return; }
    for (int d = 0; d < 2; ++d) {
        Node & n = *node[d];
        struct embc_framer_status_s st = embc_framer_status_get(n.f);
        if (!crashes) {
            if (st.tx_retransmit_count != (uint32_t) (n.tx_total - n.tx_first)) { violate(P(8), "count-retransmit", "node %d counts %u retransmissions, made %d", d, st.tx_retransmit_count, n.tx_total - n.tx_first); }
            if (st.rx_ack_count < (uint32_t) n.acks_handed || st.rx_ack_count > (uint32_t) (n.acks_handed + n.foreign_acks)) { violate(P(8), "count-ack", "node %d counts %u received ACKs, %d arrived intact", d, st.rx_ack_count, n.acks_handed); }
            if (st.rx_count != (uint32_t) (n.acks_handed + n.foreign_acks + n.data_handed)) { violate(P(8) | P(4), "count-rx", "node %d counts %u received frames, %d arrived intact", d, st.rx_count, n.acks_handed + n.foreign_acks + n.data_handed); }
            if (!n.had_resync) {
                if (st.rx_data_count != (uint32_t) (n.visible_deliveries + n.rsp_created)) { violate(P(8), "count-data", "node %d counts %u delivered messages, delivered %d", d, st.rx_data_count, n.visible_deliveries + n.rsp_created); }
                if (st.tx_count != (uint32_t) (n.completions + n.rsp_created)) { violate(P(8), "count-tx", "node %d counts %u completed messages, completed %d", d, st.tx_count, n.completions + n.rsp_created); }
            }
            for (auto & kv : n.ack_count) {
                if (kv.second.first != kv.second.second) {
                    violate(P(5), "ack-missing", "node %d: frame id=%u port=%u message_id=%u arrived intact %d times, acknowledged %d times", d,
                            kv.first >> 16, (kv.first >> 8) & 255, kv.first & 255, kv.second.first, kv.second.second);
                }
            }
        }
        if (n.timer_on) { violate(P(7), "timer-idle", "node %d keeps a timer set after everything is done", d); }
        for (auto b : n.kept) { n.app_owned.erase(b); embc_buffer_free(b); }
        n.kept.clear();
        if (n.q.size()) { continue; }
        for (int i = 0; i < 2; ++i) {   // the frame and ACK builders
            Bytes pl(draw(AUX, 4) ? draw(AUX, 241) : 240 * draw(AUX, 2));
            for (auto & v : pl) { v = (uint8_t) draw(AUX, 256); }
            uint8_t id = (uint8_t) draw(AUX, 16), port = (uint8_t) draw(AUX, 16), mid = (uint8_t) draw(AUX, 256), st = (uint8_t) draw(AUX, 256);
            uint16_t def = (uint16_t) draw(AUX, 65536);
            struct embc_buffer_s * b = embc_framer_construct_frame(n.f, id, port, mid, def, pl.data(), (uint8_t) pl.size());
            if (Bytes(b->data, b->data + b->length) != encode(id, port, mid, def, pl)) { violate(P(5), "builder", "node %d: embc_framer_construct_frame builds another frame", d); }
            embc_buffer_free(b);
            b = embc_framer_construct_ack(n.f, id, port, mid, def, st);
            if (Bytes(b->data, b->data + b->length) != encode((uint8_t) (0x80 | id), port, mid, def, Bytes(1, st))) { violate(P(5), "builder", "node %d: embc_framer_construct_ack builds another frame", d); }
            embc_buffer_free(b);
        }
        int expect[4] = {(int) n.sizes[0], (int) n.sizes[1], (int) n.sizes[2], (int) n.sizes[3] - 1};
        for (int c = 0; c < 4; ++c) {
            int k = 0;
            std::set<struct embc_buffer_s *> seen;
            while (k <= expect[c] + 1) {
                struct embc_buffer_s * b = embc_buffer_alloc_unsafe(n.alloc, 32 << c);
                if (!b) { break; }
                if (!seen.insert(b).second) { violate(P(6), "buffer-double", "node %d: a buffer was freed twice", d); break; }
                ++k;
            }
            if (k != expect[c]) { violate(P(6), k < expect[c] ? "buffer-leak" : "buffer-double", "node %d: %d buffers of size %d are free at the end, expected %d", d, k, 32 << c, expect[c]); }
        }
    }
}

void Sim::run(int prop) {
    configure(prop);
    set_step_limit(400000);
    trace_now = 0;
    start_node(0, 0);
    start_node(1, 0);
    // the application runs its operations one after the other
    int64_t t = 0;
    for (int i = 0; i < cfg.ops; ++i) {
        t += pick(APP, {0, 0, 1, 2, 10, 30, 100, 300, 900, 2000}) * MS;
        at(t, [this]() { app_op(); });
    }
    t += draw(APP, 4) * 500 * MS;
    drain(t);
    now = std::max(now, t);
    // faults stop; crashed nodes are restarted first
    for (int k = 0; k < 40 && !(node[0]->alive && node[1]->alive); ++k) { drain(now + 200 * MS); now += 200 * MS; }
    faults_on = false;
    faults_end = now;
    outage[0] = outage[1] = false;
    cfg.timer_late = std::min(cfg.timer_late, 60 * MS);
    ev("faults_end", now / MS);
    for (int d = 0; d < 2; ++d) {
        for (Msg * m : per_dir[d]) { m->tx_at_faults_end = m->tx; }
        if (cfg.corrupting) { deliver_bytes(d, now, now + 20 * MS, Bytes(260, 0x00), {}); }
    }
    int pend = std::max(pending(0), pending(1));
    int64_t deadline = now + (int64_t) (pend + 6) * (MAX_TX * attempt_max * 3 / 2 + 60 * MS) + 10 * SEC;
    drain(deadline);
    if (!queue.empty()) { violate(P(3), "not-quiet", "the link does not become quiet after the faults stopped"); }
    for (int d = 0; d < 2; ++d) {
        if (pending(d)) { violate(P(3) | P(2) | P(7), "stuck", "node %d: %d messages are pending and nothing is scheduled", d, pending(d)); }
    }
    // recovery: a few more messages, which must all get through promptly
    std::vector<Msg *> fresh;
    int64_t t1 = now;
    for (int d = 0; d < 2; ++d) {
        Node & n = *node[d];
        n.arm_done_resync = n.arm_rx_resync = n.arm_rx_send = n.arm_done_send = n.arm_loopback = 0;
        n.keep_policy = 0;
        n.stalled_until = 0;
    }
    int k = 1 + (int) draw(APP, 5);
    for (int d = 0; d < 2; ++d) {
        Node & n = *node[d];
        for (int i = 0; i < k; ++i) {
            fresh.push_back(send(n, 0, NORMAL, 0));
        }
    }
    drain(now + (k + 3) * (attempt_max * 3 + 200 * MS) + 3 * SEC);
    for (Msg * m : fresh) {
        if (m->kind != NORMAL) { continue; }
        bool r = crashes || node[0]->had_resync || node[1]->had_resync;
        if (!m->done || m->status) { violate(P(3) | (r ? P(8) : 0), "recovery", "message %d.%d, sent after the faults stopped, %s", m->dir, m->idx, m->done ? "failed" : "is still pending"); }
        else if (!m->delivered) { violate(P(3) | P(1) | (r ? P(8) : 0), "recovery", "message %d.%d, sent after the faults stopped, was not delivered", m->dir, m->idx); }
    }
    // ports without callbacks: messages are confirmed and dropped
    if (cfg.unreg) {
        silent = true;
        std::vector<Msg *> quiet;
        for (int p = 0; p < 16; ++p) {
            if (!(cfg.unreg & (1u << p))) { continue; }
            silent_port = p;
            for (int d = 0; d < 2; ++d) {
                if (chance(APP, 1, 3)) {   // no callbacks, but registered
                    struct embc_framer_port_callbacks_s cb;
                    memset((void *) &cb, 0, sizeof(cb));
                    embc_framer_register_port_callbacks(node[d]->f, (uint8_t) p, &cb);
                }
                quiet.push_back(send(*node[d], 0, NORMAL, 0));
            }
            drain(now + attempt_max * 3 + SEC);
        }
        for (Msg * m : quiet) {
            probe("message to a port without callbacks");
            if (!m->intact) { violate(P(3), "recovery", "message %d.%d, sent to a port without callbacks, was not transmitted", m->dir, m->idx); }
            if (m->tx != 1 && cfg.cls == 0) { violate(P(5), "retransmit-clean", "message %d.%d, sent to a port without callbacks, was transmitted %d times", m->dir, m->idx, m->tx); }
            m->done = true;
            m->lossy = true;
            node[1 - m->dir]->held.erase(m);
            ++node[m->dir]->completions;
            ++node[1 - m->dir]->visible_deliveries;
        }
        silent = false;
    }
    // push any partial frame out of the deframers, then take stock
    flushed = true;
    for (int d = 0; d < 2; ++d) { deliver_bytes(d, now, now + 20 * MS, Bytes(300, 0x00), {}); }
    drain(now + 30 * SEC);
    if (!queue.empty()) { violate(P(3), "not-quiet", "the link does not become quiet"); }
    final_checks(true);
    (void) t1;
    sim_time((int64_t) ((double) now / (double) SEC * 1e9));
    int total = 0;
    for (auto & m : msgs) { total += m.done; }
    if (total >= 3) { nontrivial(); }
}

void run_world() {
    crc_init();
    embc_allocator_set([](embc_size_t n) -> void * { return heap_alloc((size_t) n); }, [](void * p) { heap_free(p); });
    Sim s;
    S = &s;
    s.run(target());
}

// --- recorded findings: fixed histories -----------------------------------------
void scripted(std::function<int(int, Msg *, bool, int)> script, std::function<void(Sim &)> body) {
    crc_init();
    embc_allocator_set([](embc_size_t n) -> void * { return heap_alloc((size_t) n); }, [](void * p) { heap_free(p); });
    Sim s;
    S = &s;
    s.cfg.cls = 3;
    s.cfg.latency = MS;
    s.attempt_max = ACK_TIMEOUT + 20 * MS;
    s.no_excuse = true;
    s.script = script;
    set_step_limit(400000);
    trace_now = 0;
    s.start_node(0, 0);
    s.start_node(1, 0);
    body(s);
    s.drain(s.now + 30 * SEC);
    s.final_checks(false);
}

// A frame is lost seven times in a row while the two behind it arrive: the
// receiver gives up waiting after its hold time of 800 ms, which is shorter
// than the sender's 17 attempts.
void hold_expiry() {
    scripted([](int dir, Msg * m, bool, int tx) { return dir == 0 && m && m->idx == 0 && tx <= 7; }, [](Sim & s) {
        for (int i = 0; i < 3; ++i) { s.send(*s.node[0], 0, NORMAL, 0); }
    });
}

// A port 0 message with message id 0 or 2 loses its last byte, and its sender
// restarts: the first byte of the resync request completes the old frame, whose
// ACK is taken for the one of the resync (which may carry either message id).
void resync_stale_ack() {
    scripted([](int dir, Msg * m, bool, int) { return (dir == 1 && m && m->kind == PING_REQ) ? 2 : 0; }, [](Sim & s) {
        s.node[1]->next_ping = 2;
        s.send(*s.node[1], 0, PING_REQ, 0);
        s.drain(SEC / 20);
        s.now = SEC / 20;
        s.crash(1);
    });
}

// An outage fails 14 sends, so that the frame id of the next one wraps to
// just below the receiver's expected id.
void outage_wrap() {
    scripted([](int dir, Msg * m, bool, int) { return dir == 0 && m && m->idx >= 3 && m->idx < 17; }, [](Sim & s) {
        for (int i = 0; i < 18; ++i) { s.send(*s.node[0], 0, NORMAL, 0); }
        s.drain(120 * SEC);
    });
}

}  // namespace

namespace dst {
World const world = {"framer", {1, 2, 3, 5, 6, 7, 8}, run_world, {
    {"framer-hold-expiry", 1, hold_expiry},
    {"framer-outage-wrap", 2, outage_wrap},
    {"framer-resync-stale-ack", 8, resync_stale_ack},
}};
}
