// World: a producer and a consumer of an asynchronous stream, in different
// tasks (queued, delayed messages), in the same task (direct calls), or mixed.
// Real: async_source.c, async_sink.c, async.c; either side may be a stand-in.
// Simulated: message queues, both applications, the other side's stand-in.
// Reference: the bytes of the source, and the rules of the stream protocol.
#include "dst.hpp"
#include <memory>
extern "C" {
#include "embc/stream/async.h"
#include "embc/stream/async_sink.h"
#include "embc/stream/async_source.h"
#include "embc/ec.h"
}
using namespace dst;

namespace {

constexpr uint32_t C14 = P(14);
typedef struct embc_stream_transaction_s Tr;

struct Request { uint16_t length; uint8_t * ptr; uint8_t ctid; uint16_t mtu; };
struct Write { uint8_t const * ptr; std::vector<uint8_t> copy; uint8_t ptid; };

struct Sim;
struct ProxyC { struct embc_stream_consumer_s consumer; Sim * sim; };
struct ProxyP { struct embc_stream_producer_s producer; Sim * sim; };

// A memory area with guard bytes around it.
struct Area {
    std::vector<uint8_t> m;
    size_t n;
    uint8_t fill;
    explicit Area(size_t n_, uint8_t fill_) : m(n_ + 16, fill_), n(n_), fill(fill_) {}
    uint8_t * p() { return m.data() + 8; }
    bool intact(size_t used) {
        for (size_t i = 0; i < 8; ++i) { if (m[i] != fill) { return false; } }
        for (size_t i = 8 + used; i < m.size(); ++i) { if (m[i] != fill) { return false; } }
        return true;
    }
};

struct Sim {
    struct embc_stream_source_s source;
    struct embc_stream_sink_s sink;
    ProxyC pc;   // what the producer talks to
    ProxyP pp;   // what the consumer talks to
    bool real_source = true, real_sink = true;
    int up_mode = 0, down_mode = 0;   // 0 direct, 1 queued, 2 mixed
    std::deque<Tr> up, down;          // to the consumer, to the producer
    int busy_up = 0, busy_down = 0;

    // --- producer side as seen on the line ---
    std::vector<uint8_t> data;
    bool opened = false, closed = false;     // an open is in progress, its close was sent
    uint32_t offset = 0;                     // bytes written by the producer
    std::deque<Request> requests;            // delivered to the producer, not used
    std::deque<Write> writes;                // not answered
    bool abort_seen = false;                 // delivered to the producer in this session
    int source_done = 0, sink_done = 0, opens = 0;
    uint8_t close_status = 0;

    // --- consumer side as seen on the line ---
    bool c_open = false;
    int asked = 0;                           // requests sent and not yet used by an arrived write
    struct Expect { uint8_t type, ptid, ctid, status; bool any_status; };
    std::deque<Expect> answers;              // arrived and to be answered
    std::unique_ptr<Area> dst;
    uint32_t dst_used = 0, dst_base = 0, consumed = 0;  // bytes in it, stream offset of its first byte, bytes arrived
    bool overflow = false;
    std::vector<std::unique_ptr<Area>> old_dst;
    std::vector<std::vector<uint8_t>> old_copy;
    uint8_t writing_status = 0;
    uint32_t written_seen = 0;               // by write_fn
    uint8_t ptid = 0;

    std::unique_ptr<Area> src_buf, sink_buf;
    std::vector<std::unique_ptr<Area>> blocks;
    std::vector<bool> block_busy;
    bool block_mode = false;                 // the stand-in consumer provides the buffers
    int restarts = 0;
    int receives = 0, connects = 0, disconnects = 0;       // events of the sink
    uint32_t writing = 0;                    // bytes of the write whose callback is running
    bool injecting = false, has_write_fn = false;
    uint16_t open_length = 0;
    void * open_ptr = 0;
    uint16_t mtu = 0;
    bool big = false;                        // more than 64 KiB, in large blocks

    uint32_t block_size(uint32_t n) { return big ? 65535 - draw(CFG, 63000) : 1 + draw(CFG, n); }
    void run();
    void configure();
    void open();
    void receive(bool null_dst);
    void to_consumer(Tr const * t);
    void to_producer(Tr const * t);
    void deliver_up(Tr t);
    void deliver_down(Tr t);
    void standin_producer(Tr const & t);
    void standin_consumer(Tr const & t);
    void standin_request();
    void blocks_unmodified(char const * when);
    void drain();
    void on_source_done(uint8_t status);
    void on_sink_done(uint8_t const * b, uint32_t n);
    void state();
};

void c_send(struct embc_stream_consumer_s * self, Tr * t) { ((ProxyC *) self)->sim->to_consumer(t); }
void p_send(struct embc_stream_producer_s * self, Tr * t) { ((ProxyP *) self)->sim->to_producer(t); }
void source_done_fn(void * u, uint8_t status) { ((Sim *) u)->on_source_done(status); }
void sink_done_fn(void * u, uint8_t const * b, uint32_t n) { ((Sim *) u)->on_sink_done(b, n); }
void sink_write_fn(void * u, uint8_t const * b, uint32_t n) {
    Sim & s = *(Sim *) u;
    if (s.written_seen + n > s.data.size() || memcmp(b, s.data.data() + s.written_seen, n)) { violate(C14, "write-fn", "the write callback gets %u bytes which are not the source bytes at %u", n, s.written_seen); }
    s.written_seen += n;
    if (chance(APP, 1, 12)) {
        probe("destination changed from the write callback");
        s.writing = n;
        s.receive(s.dst ? chance(APP, 1, 2) : false);
        s.writing = 0;
    }
}

void Sim::blocks_unmodified(char const * when) {
    for (auto & w : writes) {
        if (w.copy.size() && memcmp(w.ptr, w.copy.data(), w.copy.size())) { violate(C14, "modified", "a written block changes before it is answered (%s)", when); }
    }
}

// The producer sends.
void Sim::to_consumer(Tr const * t) {
    step();
    ev("up", t->type, t->status, t->length, t->consumer_transaction_id);
    switch (t->type) {
        case EMBC_STREAM_IOCTL_OPEN:
            requests.clear();
            if (real_source && (t->status || t->length != open_length || (open_length && t->data.ptr != open_ptr))) { violate(C14, "open", "the source opens with status %u and %u bytes of arguments, expected %u", t->status, t->length, open_length); }
            break;
        case EMBC_STREAM_IOCTL_WRITE: {
            uint8_t const * p = t->data.ioctl_write.ptr;
            if (!opened || closed) { violate(C14, "write-closed", "the producer writes %s", closed ? "after its close" : "without an open"); break; }
            if (requests.empty()) { violate(C14, "unrequested", "the producer writes without a request"); break; }
            Request r = requests.front();
            requests.pop_front();
            if (r.length) {
                if (t->length > r.length) { violate(C14, "too-long", "the producer writes %u bytes, %u were requested", t->length, r.length); break; }
                if (p != r.ptr) { violate(C14, "buffer", "the producer does not use the buffer of the request"); break; }
                if (t->length < r.length && offset + t->length != data.size()) { violate(C14, "short", "the producer writes %u of %u requested bytes although more remain", t->length, r.length); }
                if (t->consumer_transaction_id != r.ctid) { violate(C14, "ctid", "the write has consumer transaction id %u, the request %u", t->consumer_transaction_id, r.ctid); }
            } else if (r.mtu && t->length > r.mtu) { violate(C14, "too-long", "the producer writes %u bytes, the mtu is %u", t->length, r.mtu); break; }
            if (!t->length) { violate(C14, "empty", "the producer writes an empty block"); }
            if (offset + t->length > data.size() || memcmp(p, data.data() + offset, t->length)) { violate(C14, "content", "the producer writes %u bytes at %u which are not those of its source (%zu bytes)", t->length, offset, data.size()); break; }
            offset += t->length;
            writes.push_back({p, {p, p + t->length}, t->producer_transaction_id});
            if (src_buf && !src_buf->intact(src_buf->n)) { violate(C14, "overrun", "the source writes beyond its transaction buffer"); }
            for (auto & b : blocks) { if (!b->intact(b->n)) { violate(C14, "overrun", "the source writes beyond a transaction buffer"); } }
            break;
        }
        case EMBC_STREAM_IOCTL_CLOSE:
            if (!opened || closed) { violate(C14, "close-twice", "the producer closes a stream which is %s", closed ? "already closed" : "not open"); break; }
            closed = true;
            close_status = t->status;
            if (real_source) {
                if (t->status != (abort_seen ? EMBC_ERROR_ABORTED : 0)) { violate(C14, "close-status", "the source closes with status %u, %s", t->status, abort_seen ? "but it was aborted" : "but it was not aborted"); }
                if (!abort_seen && (offset != data.size() || writes.size())) { violate(C14, "close-early", "the source closes after %u of %zu bytes with %zu blocks unanswered", offset, data.size(), writes.size()); }
            }
            break;
        default: break;
    }
    blocks_unmodified("sent");
    bool direct = up.empty() && (up_mode == 0 || (up_mode == 2 && !chance(NET, 1, 2)));
    if (direct) { deliver_up(*t); }
    else { fault("request delayed"); up.push_back(*t); }
}

void Sim::deliver_up(Tr t) {
    ev("at_consumer", t.type, t.status, t.length);
    switch (t.type) {
        case EMBC_STREAM_IOCTL_OPEN: c_open = true; asked = 0; overflow = false; dst_used = 0; dst_base = 0; consumed = 0; written_seen = 0; if (dst) { std::fill(dst->m.begin(), dst->m.end(), dst->fill); } break;
        case EMBC_STREAM_IOCTL_WRITE: --asked; break;
        case EMBC_STREAM_IOCTL_CLOSE: c_open = false; break;
        default: break;
    }
    uint8_t status = t.status;
    if (real_sink) {
        writing_status = t.status;
        bool known = t.type <= EMBC_STREAM_IOCTL_FLUSH;
        if (t.type == EMBC_STREAM_IOCTL_WRITE && dst) {
            if (overflow || dst_used + t.length > dst->n) { overflow = true; status = EMBC_ERROR_FULL; fault("destination full"); }
            else { dst_used += t.length; }
        } else if (t.type == EMBC_STREAM_IOCTL_NOOP || t.type == EMBC_STREAM_IOCTL_FLUSH) { status = 0; }
        if (known) { answers.push_back({t.type, t.producer_transaction_id, t.consumer_transaction_id, status, false}); }
        int done_before = sink_done;
        int opens_before = opens;
        int disconnects_before = disconnects;
        uint32_t seen_before = written_seen;
        bool no_dst = !dst;
        if (t.type == EMBC_STREAM_IOCTL_WRITE) { consumed += t.length; }
        struct embc_stream_consumer_s * c = embc_stream_sink_get_consumer(&sink);
        c->send(c, &t);
        for (auto & a : answers) {
            if (a.type == t.type && a.ptid == t.producer_transaction_id && opens == opens_before) { violate(C14, "unanswered", "the sink does not answer transaction type %u", t.type); break; }
        }
        if (opens == opens_before) {
            if (t.type == EMBC_STREAM_IOCTL_OPEN && no_dst && disconnects == disconnects_before) { violate(C14, "disconnect", "the sink is opened without a destination and does not say so"); }
            if (t.type == EMBC_STREAM_IOCTL_WRITE && has_write_fn && (written_seen < seen_before + t.length)) { violate(C14, "write-fn", "the write callback is not called"); }
        }
        if (t.type == EMBC_STREAM_IOCTL_CLOSE && sink_done != done_before + 1 && opens == opens_before) { violate(C14, "sink-done", "the sink reports completion %d times for one close", sink_done - done_before); }
        if (sink_buf && !sink_buf->intact(sink_buf->n)) { violate(C14, "overrun", "guard bytes of the sink's transaction buffer changed"); }
    } else {
        standin_consumer(t);
    }
}

// The consumer sends.
void Sim::to_producer(Tr const * t) {
    step();
    ev("down", t->type, t->status, t->length, t->consumer_transaction_id);
    if (t->type < 128 && real_sink) {
        if (answers.empty()) { violate(C14, "answer", "the sink answers transaction type %u which is not open", t->type); }
        else {
            // direct calls nest: the answered transaction is the latest one
            Expect e = answers.back();
            answers.pop_back();
            if (e.type != t->type || e.ptid != t->producer_transaction_id || e.ctid != t->consumer_transaction_id) { violate(C14, "answer", "the sink answers type %u id %u, expected type %u id %u", t->type, t->producer_transaction_id, e.type, e.ptid); }
            if (e.status != t->status) { violate(C14, "answer-status", "the sink answers type %u with status %u, expected %u", t->type, t->status, e.status); }
            if (t->type == EMBC_STREAM_IOCTL_OPEN && !t->file_id) { violate(C14, "file-id", "the sink answers open without a file id"); }
        }
    }
    if (t->type == EMBC_STREAM_EVENT_WRITE_REQUEST) {
        if (!c_open) { violate(C14, "request-closed", "the consumer requests data while the stream is not open"); }
        if (real_sink) {
            if (sink_buf && (t->length != sink_buf->n || t->data.event_write_request_consumer_buffer.ptr != sink_buf->p() || !t->consumer_transaction_id)) { violate(C14, "request", "the sink requests %u bytes with id %u, its buffer has %zu", t->length, t->consumer_transaction_id, sink_buf->n); }
            if (!sink_buf && (t->length || !t->data.event_write_request_producer_buffer.transactions_max)) { violate(C14, "request", "the sink requests %u bytes in %u transactions without a buffer", t->length, t->data.event_write_request_producer_buffer.transactions_max); }
        }
        if (real_sink && ++asked > 1) { violate(C14, "requests", "the sink has %d requests outstanding for its one buffer", asked); }
    }
    if (injecting) { injecting = false; }
    else {
        if (t->type == EMBC_STREAM_EVENT_CONNECT) { ++connects; }
        if (t->type == EMBC_STREAM_EVENT_DISCONNECT) { ++disconnects; }
    }
    bool direct = down.empty() && (down_mode == 0 || (down_mode == 2 && !chance(NET, 1, 2)));
    if (direct) { deliver_down(*t); }
    else { fault("response or event delayed"); down.push_back(*t); }
}

void Sim::deliver_down(Tr t) {
    ev("at_producer", t.type, t.status, t.length);
    blocks_unmodified("answered");
    switch (t.type) {
        case EMBC_STREAM_IOCTL_WRITE:
            if (writes.size()) { writes.pop_front(); }
            break;
        case EMBC_STREAM_EVENT_WRITE_REQUEST:
            if (t.length) { requests.push_back({t.length, t.data.event_write_request_consumer_buffer.ptr, t.consumer_transaction_id, 0}); }
            else { requests.push_back({0, 0, t.consumer_transaction_id, t.data.event_write_request_producer_buffer.mtu}); }
            break;
        case EMBC_STREAM_EVENT_ABORT:
            if (opened && !closed) { abort_seen = true; fault("abort"); }
            break;
        default: break;
    }
    if (real_source) {
        bool must_close = t.type == EMBC_STREAM_EVENT_ABORT && opened && !closed;
        int opens_before = opens;
        struct embc_stream_producer_s * p = embc_stream_source_get_producer(&source);
        int done_before = source_done;
        bool close_answer = t.type == EMBC_STREAM_IOCTL_CLOSE;
        p->send(p, &t);
        if (close_answer && source_done != done_before + 1 && opens == opens_before) { violate(C14, "source-done", "the source reports completion %d times for one close", source_done - done_before); }
        if (must_close && !closed && opens == opens_before) { violate(C14, "abort", "the source does not close upon an abort"); }
    } else {
        standin_producer(t);
    }
    blocks_unmodified("handled");
}

void Sim::on_source_done(uint8_t status) {
    ++source_done;
    ev("source_done", status);
    if (!opened || !closed) { violate(C14, "source-done", "the source reports completion of a stream which is %s", opened ? "not closed" : "not open"); return; }
    if (status != close_status) { violate(C14, "source-done", "the source reports status %u, it closed with %u", status, close_status); }
    opened = false;
    if (restarts > 0 && chance(APP, 1, 2)) {
        --restarts;
        probe("opened again from the completion callback");
        configure();
        open();
    }
}

void Sim::on_sink_done(uint8_t const * b, uint32_t n) {
    ++sink_done;
    ev("sink_done", n, b != 0);
    if (c_open) { violate(C14, "sink-done", "the sink reports completion of an open stream"); }
    if (!dst) {
        if (b || n) { violate(C14, "sink-done", "the sink reports %u bytes without a destination", n); }
        return;
    }
    if (b != dst->p() || n != dst_used) { violate(C14, "sink-done", "the sink reports %u bytes, %u were received%s", n, dst_used, b != dst->p() ? ", in another buffer" : ""); return; }
    if (dst_base + n > data.size() || memcmp(dst->p(), data.data() + dst_base, n)) { violate(C14, "content", "the destination does not hold the %u source bytes from %u on", n, dst_base); }
    if (!dst->intact(n)) { violate(C14, "overrun", "the sink writes beyond the received %u bytes (destination %zu)", n, dst->n); }
    if (real_source && close_status == 0 && !overflow && dst_base + n != data.size()) { violate(C14, "incomplete", "completion with %u of %zu bytes", n, data.size()); }
    if (close_status == 0 && n == data.size()) { probe("complete transfer"); nontrivial(); }
    if (chance(APP, 1, 4)) { probe("new destination from the completion callback"); receive(false); }
}

void Sim::receive(bool null_dst) {
    if (!real_sink) { return; }
    ev("receive", null_dst);
    int c0 = connects, d0 = disconnects, opens0 = opens, receives0 = ++receives;
    bool had = dst != nullptr;
    if (dst) {
        old_dst.push_back(std::move(dst));
        old_copy.push_back(old_dst.back()->m);
    }
    Expect * answer = writing && answers.size() ? &answers.back() : 0;
    if (answer) { answer->status = writing_status; }
    if (null_dst) {
        dst.reset();
        bool was_open = c_open;
        embc_stream_sink_receive(&sink, 0, 0, sink_done_fn, this);
        if (opens == opens0 && receives == receives0) {
            int n = disconnects - d0;
            if (n > 1 || (n < 1 && had && was_open) || (n && !had) || connects != c0) { violate(C14, "disconnect", "the sink reports %d disconnects when its destination is removed", n); }
        }
        return;
    }
    size_t n = data.size();
    switch (draw(APP, 6)) {
        case 0: case 1: break;
        case 2: n += draw(APP, 20); break;
        case 3: n = draw(APP, (uint32_t) n + 1); break;
        case 4: n = n ? n - 1 : 0; break;
        default: n = 400; break;
    }
    dst.reset(new Area(n, (uint8_t) (0xA0 + draw(DATA, 16))));
    dst_used = 0;
    dst_base = c_open ? consumed : 0;
    overflow = false;
    if (answer) {   // this write is the first one to the new destination
        dst_base = consumed - writing;
        if (writing > n) { overflow = true; answer->status = EMBC_ERROR_FULL; } else { dst_used = writing; }
    }
    bool was_open = c_open;
    embc_stream_sink_receive(&sink, dst->p(), (uint32_t) n, sink_done_fn, this);
    if (opens == opens0 && receives == receives0) {
        int k = connects - c0;
        if (k != (was_open && !had) || disconnects != d0) { violate(C14, "connect", "the sink reports %d connects when its destination is provided (%s, %s)", k, was_open ? "open" : "closed", had ? "replaced" : "new"); }
    }
}

void Sim::configure() {
    if (real_source && data.size() && chance(APP, 1, 4)) {  // the same data, once more
        probe("opened again without a new configuration");
        return;
    }
    uint32_t n = 1;
    switch (draw(APP, 5)) {
        case 0: n = 1 + draw(APP, 12); break;
        case 1: n = 1 + draw(APP, 40); break;
        case 2: n = 8 * (1 + draw(APP, 10)); break;
        case 3: n = 1 + draw(APP, 250); break;
        default: n = 5 * (1 + draw(APP, 20)) + (uint32_t) range(APP, -1, 1); break;
    }
    if (big && chance(APP, 2, 3)) {
        n = 65536 * (1 + draw(APP, 2)) + (uint32_t) pick<int>(APP, {0, 1, -1, 40, 5000, 65000});
        probe("more than 64 KiB");
    }
    Prng r(draw(DATA, 1u << 30));
    data.resize(n);
    for (auto & b : data) { b = (uint8_t) r.next(); }
    if (real_source) { embc_stream_source_configure(&source, data.data(), n, source_done_fn, this); }
}

void Sim::open() {
    opened = true;
    closed = false;
    abort_seen = false;
    offset = 0;
    close_status = 0;
    ++opens;
    ev("open", opens, (int64_t) data.size());
    if (real_source) {
        uint32_t arg = 0x12345678;
        open_length = chance(APP, 1, 4) ? sizeof(arg) : 0;
        open_ptr = &arg;
        if (open_length) { embc_stream_source_open_ex(&source, &arg, sizeof(arg)); }
        else { embc_stream_source_open(&source); }
    } else {
        Tr t;
        memset(&t, 0, sizeof(t));
        t.type = EMBC_STREAM_IOCTL_OPEN;
        t.producer_transaction_id = ++ptid;
        to_consumer(&t);
    }
}

// A producer which follows the protocol with its own choices of sizes.
void Sim::standin_producer(Tr const & t) {
    switch (t.type) {
        case EMBC_STREAM_IOCTL_CLOSE:
            on_source_done(t.status);
            break;
        default: break;
    }
}

void Sim::standin_consumer(Tr const & t) {
    Tr r = t;
    switch (t.type) {
        case EMBC_STREAM_IOCTL_OPEN:
            r.file_id = 3;
            to_producer(&r);
            break;
        case EMBC_STREAM_IOCTL_WRITE: {
            for (size_t i = 0; i < blocks.size(); ++i) { if (t.data.ioctl_write.ptr == blocks[i]->p()) { block_busy[i] = false; } }
            if (chance(APP, 1, 8)) { r.status = EMBC_ERROR_FULL; fault("write answered with an error"); }
            // the block is consumed at the answer
            to_producer(&r);
            break;
        }
        case EMBC_STREAM_IOCTL_CLOSE:
            if (chance(APP, 1, 8) && !r.status) { r.status = EMBC_ERROR_IO; close_status = r.status; fault("close answered with an error"); }
            for (size_t i = 0; i < block_busy.size(); ++i) { block_busy[i] = false; }
            to_producer(&r);
            break;
        default:
            to_producer(&r);
            break;
    }
}

// The stand-in consumer asks for data.
void Sim::standin_request() {
    if (!c_open) { return; }
    Tr t;
    memset(&t, 0, sizeof(t));
    t.type = EMBC_STREAM_EVENT_WRITE_REQUEST;
    t.file_id = 3;
    if (block_mode) {
        for (size_t i = 0; i < blocks.size(); ++i) {
            if (!block_busy[i]) {
                block_busy[i] = true;
                t.consumer_transaction_id = (uint8_t) (i + 1);
                t.length = (uint16_t) (big ? blocks[i]->n - draw(APP, 2000) : 1 + draw(APP, (uint32_t) blocks[i]->n));
                t.data.event_write_request_consumer_buffer.ptr = blocks[i]->p();
                ++asked;
                probe("several requests outstanding", asked > 1);
                to_producer(&t);
                return;
            }
        }
        return;
    }
    // one transaction at a time: the next request follows the answer
    if (asked > 0 || writes.size()) { return; }
    ++asked;
    t.data.event_write_request_producer_buffer.mtu = mtu;
    t.data.event_write_request_producer_buffer.transactions_max = 1;
    to_producer(&t);
}

void Sim::state() {
    uint64_t h = mix2(up.size(), down.size());
    h = mix2(h, opened + 2 * closed + 4 * c_open + 8 * overflow + 16 * abort_seen + 32 * (dst != nullptr));
    h = mix2(h, requests.size() * 8 + writes.size());
    h = mix2(h, real_source + 2 * real_sink + 4 * block_mode + 8 * (uint64_t) up_mode + 32 * (uint64_t) down_mode);
    h = mix2(h, (offset == data.size()) + 2 * (offset == 0));
    cover(h);
}

void Sim::drain() {
    for (int i = 0; i < 4000 && (up.size() || down.size() || (!real_sink && opened) || (!real_source && opened)); ++i) {
        if (up.size()) { Tr t = up.front(); up.pop_front(); deliver_up(t); }
        else if (down.size()) { Tr t = down.front(); down.pop_front(); deliver_down(t); }
        else if (!real_sink && c_open) { standin_request(); }
        else if (!real_source && opened && !closed) {
            embc_stream_close(&pc.consumer, 1, 0);
        }
        else { break; }
    }
}

void Sim::run() {
    memset(&source, 0xEE, sizeof(source));
    memset(&sink, 0xEE, sizeof(sink));
    pc.sim = pp.sim = this;
    pc.consumer.send = c_send;
    pp.producer.send = p_send;
    int role = (int) draw(CFG, 4);
    real_sink = role != 2;
    real_source = role != 3;
    up_mode = (int) draw(CFG, 3);
    down_mode = (int) draw(CFG, 3);
    restarts = (int) draw(CFG, 4);
    big = chance(CFG, 1, 30);
    if (real_source) {
        bool own = chance(CFG, 1, 2) || big;
        size_t n = own ? block_size(40) : 0;
        if (own) { src_buf.reset(new Area(n, 0x51)); }
        embc_stream_source_initialize(&source, own ? src_buf->p() : 0, (uint16_t) n);
        embc_stream_source_set_consumer(&source, &pc.consumer);
    }
    if (real_sink) {
        bool own = chance(CFG, 1, 2) || big;
        size_t n = own ? block_size(40) : 0;
        if (own) { sink_buf.reset(new Area(n, 0x52)); }
        embc_stream_sink_initialize(&sink, own ? sink_buf->p() : 0, (uint16_t) n);
        embc_stream_sink_set_producer(&sink, &pp.producer);
        if (chance(CFG, 1, 2)) { has_write_fn = true; embc_stream_sink_set_write_fn(&sink, sink_write_fn, this); }
    } else {
        block_mode = chance(CFG, 1, 2);
        mtu = big ? pick<uint16_t>(CFG, {0, 65535, 40000}) : pick<uint16_t>(CFG, {16, 0, 1, 7, 64, 300});
        int k = 1 + (int) draw(CFG, 3);
        if (block_mode) { for (int i = 0; i < k; ++i) { blocks.emplace_back(new Area(block_size(30), 0x53)); block_busy.push_back(false); } }
    }
    int sessions = 1 + (int) draw(CFG, 3);
    for (int k = 0; k < sessions; ++k) {
        if (opened) { break; }
        configure();
        bool late = real_sink && chance(APP, 1, 4);
        if (real_sink && (!dst || !chance(APP, 1, 3))) { receive(late); }
        open();
        int ops = (int) draw(APP, 60);
        for (int i = 0; i < ops && (opened || up.size() || down.size()); ++i) {
            step();
            state();
            uint32_t k2 = draw(SCHED, 10);
            if (k2 < 3) {
                if (up.size()) { Tr t = up.front(); up.pop_front(); deliver_up(t); }
            } else if (k2 < 6) {
                if (down.size()) { Tr t = down.front(); down.pop_front(); deliver_down(t); }
            } else if (k2 == 6) {   // the consumer's side aborts, or does nothing of interest
                if (c_open) {
                    Tr t;
                    memset(&t, 0, sizeof(t));
                    t.type = chance(APP, 1, 4) ? EMBC_STREAM_EVENT_ABORT : pick<uint8_t>(APP, {EMBC_STREAM_EVENT_NOOP, EMBC_STREAM_EVENT_CUSTOM, EMBC_STREAM_EVENT_CONNECT});
                    if (t.type != EMBC_STREAM_EVENT_ABORT) { probe("other event"); }
                    if (!real_source && t.type == EMBC_STREAM_EVENT_ABORT) { continue; }
                    injecting = true;
                    to_producer(&t);
                    injecting = false;
                }
            } else if (k2 == 7) {
                if (real_sink && !dst && c_open && chance(APP, 1, 2)) {
                    probe("destination provided after open");
                    receive(false);
                } else if (real_sink && dst && c_open && chance(APP, 1, 8)) {
                    probe("destination removed during the transfer");
                    receive(true);
                } else if (real_sink && dst && c_open && chance(APP, 1, 4)) {
                    probe("destination replaced during the transfer");
                    receive(false);
                } else if (real_sink && !real_source && chance(APP, 1, 2)) {
                    Tr t;
                    memset(&t, 0, sizeof(t));
                    t.type = pick<uint8_t>(APP, {EMBC_STREAM_IOCTL_NOOP, EMBC_STREAM_IOCTL_FLUSH});
                    t.producer_transaction_id = ++ptid;
                    t.status = (uint8_t) draw(DATA, 3);
                    probe("noop or flush");
                    to_consumer(&t);
                }
            } else if (k2 == 8) {
                if (!real_sink) { standin_request(); }
            } else if (!real_source && opened && !closed) {
                if (requests.size() && offset < data.size() && (writes.empty() || chance(APP, 1, 8))) {
                    Tr t;
                    memset(&t, 0, sizeof(t));
                    Request r = requests.front();
                    t.type = EMBC_STREAM_IOCTL_WRITE;
                    t.producer_transaction_id = ++ptid;
                    t.consumer_transaction_id = r.ctid;
                    uint32_t left = (uint32_t) data.size() - offset;
                    uint32_t n = 0;
                    if (r.length) {
                        n = std::min<uint32_t>(r.length, left);
                        memcpy(r.ptr, data.data() + offset, n);
                        t.data.ioctl_write.ptr = r.ptr;
                    } else {
                        n = std::min<uint32_t>(1 + draw(APP, r.mtu ? r.mtu : big ? 65535 : 30), left);
                        t.data.ioctl_write.ptr = data.data() + offset;
                    }
                    t.length = (uint16_t) n;
                    to_consumer(&t);
                } else if (chance(APP, 1, 6) || (offset == data.size() && writes.empty())) {
                    embc_stream_close(&pc.consumer, 1, (uint8_t) (chance(APP, 1, 3) ? 1 + draw(DATA, 20) : 0));
                }
            }
        }
        // no more faults: everything queued is delivered, every request served
        drain();
        for (int again = 0; again < 30 && real_sink && !dst && opened; ++again) {
            for (int i = 0; i < 400 && (up.size() || down.size()); ++i) {
                if (up.size()) { Tr t = up.front(); up.pop_front(); deliver_up(t); }
                else { Tr t = down.front(); down.pop_front(); deliver_down(t); }
            }
            if (c_open && !dst) { probe("destination provided after open"); receive(false); }
            drain();
        }
        drain();
        if (opened) { violate(C14, "stuck", "the transfer does not complete: %u of %zu bytes written, %zu unanswered, %zu requests at the producer", offset, data.size(), writes.size(), requests.size()); return; }
        if (sink_done != opens && real_sink) { violate(C14, "sink-done", "%d completions at the sink for %d transfers", sink_done, opens); }
        if (source_done != opens) { violate(C14, "source-done", "%d completions at the source for %d transfers", source_done, opens); }
        state();
    }
    for (size_t i = 0; i < old_dst.size(); ++i) {
        if (old_dst[i]->m != old_copy[i]) { violate(C14, "old-destination", "a destination changes after it was replaced"); break; }
    }
    if (!real_sink || !real_source) { nontrivial(); }
}

void one() {
    std::unique_ptr<Sim> s(new Sim());
    s->run();
}

// In some runs two streams are in use at the same time.
void run_world() {
    set_step_limit(120000);
    if (chance(CFG, 1, 6)) { probe("two streams at once"); tasks({one, one}); }
    else { one(); }
}

}  // namespace

World const dst::world = {"async", {14}, run_world, {}};
