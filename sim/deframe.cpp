// World: one framer which receives a hostile byte stream.
// Real: framer.c, buffer.c, list.c, crc.c.  Simulated: the line (garbage,
// corrupted, truncated and intact frames), its chunking, the HAL, the timer.
#include "dst.hpp"
#include "codec.hpp"
extern "C" {
#include "embc/stream/framer.h"
#include "embc/stream/framer_util.h"
#include "embc/memory/buffer.h"
#include "embc/platform.h"
#include "embc/ec.h"
}
using namespace dst;

namespace {

struct Rx {
    struct embc_framer_s * f = 0;
    struct embc_buffer_allocator_s * alloc = 0;
    embc_size_t sizes[4] = {400, 4, 4, 300};
    struct embc_framer_hal_callbacks_s hal;
    bool hook = false;
    int64_t now = 0;
    uint32_t timer = 0;
    int64_t timeout = 0;
    void (*cbk)(void *, uint32_t) = 0;
    void * user = 0;
    std::vector<Bytes> frames;      // frames reported to the hook
    std::vector<Bytes> tx;          // what was given to the HAL
    std::vector<Bytes> out;         // everything observed, in order
    std::deque<struct embc_buffer_s *> hal_q;
    std::vector<struct embc_buffer_s *> kept;
    bool keep = false, inline_done = true;
};

void on_tx(void * h, struct embc_buffer_s * b) {
    Rx & r = *(Rx *) h;
    step();
    Bytes w(b->data, b->data + b->length);
    r.tx.push_back(w);
    w.insert(w.begin(), 'T');
    r.out.push_back(w);
    if (r.inline_done) { embc_framer_hal_tx_done(r.f, b); } else { r.hal_q.push_back(b); }
}
int64_t on_time(void * h) { return ((Rx *) h)->now; }
int32_t on_timer_set(void * h, int64_t t, void (*cbk)(void *, uint32_t), void * user, uint32_t * id) {
    Rx & r = *(Rx *) h;
    *id = ++r.timer;
    r.timeout = t; r.cbk = cbk; r.user = user;
    return 0;
}
int32_t on_timer_cancel(void * h, uint32_t) { ((Rx *) h)->cbk = 0; return 0; }
void on_hook(void * u, struct embc_buffer_s * b) {
    Rx & r = *(Rx *) u;
    step();
    Bytes w(b->data, b->data + std::min<size_t>(b->length, 300));
    r.frames.push_back(w);
    w.insert(w.begin(), 'F');
    r.out.push_back(w);
    if (r.keep && r.kept.size() < 40) { r.kept.push_back(b); } else { embc_buffer_free(b); }
}
void on_rx(void * u, uint8_t port, uint8_t mid, uint16_t def, struct embc_buffer_s * b) {
    Rx & r = *(Rx *) u;
    step();
    Bytes w = {'D', port, mid, (uint8_t) def, (uint8_t) (def >> 8)};
    embc_size_t n = embc_buffer_read_remaining(b);
    if (n < 0 || n > 240) { violate(P(4) | P(1), "length", "a delivered buffer has %d bytes", (int) n); n = 0; }
    w.insert(w.end(), b->data + b->cursor, b->data + b->cursor + n);
    r.out.push_back(w);
    if (r.keep && r.kept.size() < 40) { r.kept.push_back(b); } else { embc_buffer_free(b); }
}

void start(Rx & r) {
    r.alloc = embc_buffer_allocator_new(r.sizes, 4);
    r.f = (struct embc_framer_s *) heap_alloc((size_t) embc_framer_instance_size());
    r.hal.hal = &r;
    r.hal.tx_fn = on_tx;
    r.hal.time_get = on_time;
    r.hal.timer_set_fn = on_timer_set;
    r.hal.timer_cancel_fn = on_timer_cancel;
    embc_framer_initialize(r.f, r.alloc, &r.hal);
    for (int p = 0; p < 16; ++p) {
        struct embc_framer_port_callbacks_s cb = {&r, on_rx, 0};
        embc_framer_register_port_callbacks(r.f, (uint8_t) p, &cb);
    }
    if (r.hook) { embc_framer_register_rx_hook(r.f, on_hook, &r); }
}

uint8_t noise_byte(int style) {
    uint32_t v = draw(DATA, 1024);
    switch (style) {
        case 0: return (uint8_t) (v >> 2);
        case 1: return (v & 3) ? (uint8_t) (v >> 2) : 0xAA;
        case 2: return (v & 1) ? 0xAA : (uint8_t) (v >> 2);
        default: return (v & 1) ? 0xAA : (uint8_t) ((v >> 2) & 15);
    }
}

Bytes noise(int n, int style) {
    Bytes b;
    for (int i = 0; i < n; ++i) { b.push_back(noise_byte(style)); }
    return b;
}

int payload_len() {
    int n = pick(DATA, {0, 1, 2, 4, 8, 20, 60, 200, 239, 240, -1});
    return n >= 0 ? n : (int) draw(DATA, 241);
}

Bytes gen_frame(int style, bool hook, int & id) {
    Bytes pl = noise(payload_len(), style);
    bool ack = hook ? chance(DATA, 1, 4) : chance(DATA, 1, 10);
    if (ack) {
        Bytes f = encode((uint8_t) (0x80 | draw(DATA, 16)), (uint8_t) draw(DATA, 16), (uint8_t) draw(DATA, 256), (uint16_t) draw(DATA, 65536), Bytes(1, (uint8_t) draw(DATA, 12)));
        return f;
    }
    int i = id;
    if (chance(DATA, 1, 8)) { i = (int) draw(DATA, 16); }   // any order of frame ids
    id = (i + 1) & 15;
    return encode((uint8_t) i, (uint8_t) (hook ? draw(DATA, 16) : 1 + draw(DATA, 15)), (uint8_t) draw(DATA, 256), (uint16_t) draw(DATA, 65536), pl);
}

struct Nack { size_t at; uint8_t id, port, mid; };   // stream offset after the corrupted frame

void append(Bytes & s, Bytes const & b) { s.insert(s.end(), b.begin(), b.end()); }

void feed(Rx & r, Bytes const & s, int chunking, std::vector<size_t> const & stops, std::vector<size_t> & tx_at, std::vector<size_t> & out_at) {
    size_t pos = 0, stop = 0;
    while (pos < s.size()) {
        size_t n = 1;
        switch (chunking) {
            case 0: n = s.size(); break;
            case 1: n = 1; break;
            case 2: n = 1 + draw(SCHED, 8); break;
            default: n = 1 + draw(SCHED, 300); break;
        }
        while (stop < stops.size() && stops[stop] <= pos) { ++stop; }
        if (stop < stops.size()) { n = std::min(n, stops[stop] - pos); }
        n = std::min(n, s.size() - pos);
        step();
        if (chunking == 1) { embc_framer_hal_rx_byte(r.f, s[pos]); }
        else { embc_framer_hal_rx_buffer(r.f, s.data() + pos, (embc_size_t) n); }
        pos += n;
        while (tx_at.size() < r.tx.size()) { tx_at.push_back(pos); }
        while (out_at.size() < r.out.size()) { out_at.push_back(pos); }
        if (r.hal_q.size() && (r.hal_q.size() > 30 || chance(SCHED, 1, 2))) {
            while (r.hal_q.size()) { auto b = r.hal_q.front(); r.hal_q.pop_front(); embc_framer_hal_tx_done(r.f, b); }
        }
        if (r.kept.size() > 20) { for (auto b : r.kept) { embc_buffer_free(b); } r.kept.clear(); }
    }
}

void finish(Rx & r) {
    for (int i = 0; i < 4 && r.cbk; ++i) {   // frames held for ordering are delivered
        auto c = r.cbk;
        r.cbk = 0;
        r.now = r.timeout;
        c(r.user, r.timer);
    }
    while (r.hal_q.size()) { auto b = r.hal_q.front(); r.hal_q.pop_front(); embc_framer_hal_tx_done(r.f, b); }
    for (auto b : r.kept) { embc_buffer_free(b); }
    r.kept.clear();
}

std::string hex(Bytes const & b) {
    std::string s;
    char t[8];
    for (size_t i = 0; i < b.size() && i < 24; ++i) { snprintf(t, sizeof(t), "%02x", b[i]); s += t; }
    if (b.size() > 24) { s += ".."; }
    return s;
}

void run_world() {
    crc_init();
    embc_allocator_set([](embc_size_t n) -> void * { return heap_alloc((size_t) n); }, [](void * p) { heap_free(p); });
    set_step_limit(2000000);
    bool hook = !chance(CFG, 1, 3);
    int style = (int) draw(CFG, 4);
    int segs = 1 + (int) draw(CFG, 30);
    int chunk = (int) draw(CFG, 4);
    Bytes s;
    std::vector<Bytes> intact;         // generated intact frames, in order
    std::vector<Nack> nacks;
    std::vector<size_t> stops;
    bool sync = false;                 // the receiver is certainly synchronised here
    bool clean = true;                 // nothing but intact frames since the receiver was last flushed
    int id = 0;
    int kinds = 0;
    for (int i = 0; i < segs; ++i) {
        int k = (int) draw(NET, 12);
        if (k < 4) {
            Bytes f = gen_frame(style, hook, id);
            append(s, f);
            intact.push_back(f);
            sync = clean;
        } else if (k == 4) {             // idle: repeated start of frame bytes
            append(s, Bytes(1 + draw(NET, 6), 0xAA));
            if (!sync) { clean = false; }   // may look like a header while searching
            fault("repeated start of frame bytes");
        } else if (k == 5) {             // garbage
            append(s, noise(1 + (int) draw(NET, 60), (int) draw(NET, 4)));
            sync = clean = false;
            fault("garbage inserted");
        } else if (k == 6) {             // corrupted anywhere
            Bytes f = gen_frame(style, hook, id);
            Bytes g = f;
            int n = 1 + (int) draw(NET, 4);
            for (int j = 0; j < n; ++j) { g[draw(NET, (uint32_t) g.size())] ^= (uint8_t) (1 + draw(NET, 255)); }
            append(s, g);
            sync = clean = false;
            fault("frame corrupted");
        } else if (k == 7) {             // header intact, rest corrupted
            int old = id;
            Bytes f = gen_frame(style, hook, id);
            if (f[1] & 0x80) { id = old; f = encode(5, 3, 7, 9, noise(12, style)); }
            size_t p = 8 + draw(NET, (uint32_t) f.size() - 9);
            f[p] ^= (uint8_t) (1 + draw(NET, 255));
            append(s, f);
            if (sync) {
                nacks.push_back(Nack{s.size(), f[1], f[2], f[3]});
                stops.push_back(s.size() - 1);
                stops.push_back(s.size());
                probe("corrupted payload while synchronised");
            }
            sync = clean = false;
            fault("payload corrupted");
        } else if (k == 8) {             // truncated
            Bytes f = gen_frame(style, hook, id);
            if (chance(NET, 1, 2)) { f.resize(1 + draw(NET, (uint32_t) f.size() - 1)); }
            else { f.erase(f.begin(), f.begin() + 1 + draw(NET, (uint32_t) f.size() - 1)); }
            append(s, f);
            sync = clean = false;
            fault("frame truncated");
        } else if (k == 9) {             // a valid header that promises more than follows, or too much
            Bytes f = encode((uint8_t) draw(NET, 16), 3, 1, 2, Bytes(1, 0));
            f.resize(8);
            f[4] = (uint8_t) (chance(NET, 1, 3) ? 241 + draw(NET, 15) : draw(NET, 241));
            f[7] = crc8(f.data(), 7);
            append(s, f);
            sync = clean = false;
            fault("header without its frame");
        } else if (k == 10) {            // an intact frame inside of a corrupted one
            int old = id;
            Bytes in = gen_frame(style, hook, id);
            if (in.size() <= 230) {
                Bytes pl = noise((int) draw(NET, (uint32_t) (240 - in.size())), style);
                append(pl, in);
                append(pl, noise((int) draw(NET, (uint32_t) (241 - pl.size())), style));
                Bytes o = encode((uint8_t) draw(NET, 16), 2, 2, 2, pl);
                o[o.size() - 4] ^= 0x55;
                append(s, o);
                if (sync) {
                    // the NACK is for the outer frame
                    nacks.push_back(Nack{s.size(), o[1], o[2], o[3]});
                    stops.push_back(s.size() - 1);
                    stops.push_back(s.size());
                }
                intact.push_back(in);
                probe("intact frame inside a corrupted one");
                sync = clean = false;
            } else { id = old; }
        } else {                         // quiet line: whatever is buffered gets out
            append(s, Bytes(280, 0x00));
            sync = false;
            clean = true;
        }
        kinds |= 1 << k;
    }
    size_t body = s.size();
    append(s, Bytes(540, 0x00));
    note("hook %d style %d segments %d chunking %d bytes %zu intact frames %zu", hook, style, segs, chunk, body, intact.size());
    ev("stream", (int64_t) s.size(), (int64_t) intact.size(), (int64_t) crc32(s.data(), s.size()));

    Rx a, b;
    a.hook = b.hook = hook;
    a.keep = chance(APP, 1, 3);
    a.inline_done = !chance(APP, 1, 3);
    start(a);
    start(b);
    std::vector<size_t> a_tx, a_out, b_tx, b_out;
    feed(a, s, chunk, stops, a_tx, a_out);
    feed(b, s, 1, {}, b_tx, b_out);
    finish(a);
    finish(b);
    // the reference
    RefDeframer ref;
    std::vector<Bytes> want;
    std::vector<size_t> want_at;       // the byte which completes each frame
    for (size_t i = 0; i < s.size(); ++i) {
        ref.feed(s[i], want);
        while (want_at.size() < want.size()) { want_at.push_back(i + 1); }
    }
    for (auto & o : a.out) { ev("out", o[0], (int64_t) crc32(o.data(), o.size()), (int64_t) o.size()); }

    // chunking does not matter
    if (a.out != b.out) {
        size_t i = 0;
        while (i < a.out.size() && i < b.out.size() && a.out[i] == b.out[i]) { ++i; }
        violate(P(4), "chunking", "the outcome depends on the chunking: event %zu is %s or %s", i,
                i < a.out.size() ? hex(a.out[i]).c_str() : "missing", i < b.out.size() ? hex(b.out[i]).c_str() : "missing");
    }
    struct embc_framer_status_s st = embc_framer_status_get(a.f), st_b = embc_framer_status_get(b.f);
    if (memcmp(&st, &st_b, sizeof(st))) { violate(P(4), "chunking", "the counters depend on the chunking"); }
    if (hook) {
        // reported frames occur in the stream, in order, without overlap
        size_t pos = 0;
        for (Bytes const & f : a.frames) {
            if (f.size() < 13 || f[0] != 0xAA || crc8(f.data(), 7) != f[7] || f.size() != (size_t) f[4] + 13) {
                violate(P(4), "invalid", "an invalid frame was reported: %s", hex(f).c_str());
                break;
            }
            uint32_t c = crc32(f.data(), f.size() - 5);
            if (c != (uint32_t) (f[f.size() - 5] | f[f.size() - 4] << 8 | f[f.size() - 3] << 16 | (uint32_t) f[f.size() - 2] << 24)) {
                violate(P(4), "invalid", "a frame with a wrong checksum was reported: %s", hex(f).c_str());
            }
            auto it = std::search(s.begin() + (long) pos, s.end(), f.begin(), f.end());
            if (it == s.end()) { violate(P(4), "invented", "a frame was reported which is not in the stream (or twice): %s", hex(f).c_str()); break; }
            pos = (size_t) (it - s.begin()) + f.size();
        }
        // every intact frame is reported
        if (a.frames != want) {
            size_t i = 0;
            while (i < a.frames.size() && i < want.size() && a.frames[i] == want[i]) { ++i; }
            violate(P(4), "missing", "frame %zu of %zu in the stream was not reported: %s", i, want.size(), i < want.size() ? hex(want[i]).c_str() : "(extra report)");
        }
        // ... as soon as its last byte arrived, and no later
        size_t nf = 0;
        for (size_t i = 0; i < b.out.size() && i < b_out.size(); ++i) {
            if (b.out[i][0] != 'F' || nf >= want_at.size()) { continue; }
            if (b_out[i] != want_at[nf]) {
                violate(P(4), "late", "frame %zu is complete after byte %zu, and was reported after byte %zu", nf, want_at[nf], b_out[i]);
                break;
            }
            ++nf;
        }
    } else {
        // every intact data frame for a port is acknowledged, in order
        std::vector<Bytes> ids, acks;
        for (Bytes const & f : want) { if (!(f[1] & 0x80) && f[2] < 16) { ids.push_back({(uint8_t) (f[1] & 15), f[2], f[3]}); } }
        for (Bytes const & t : a.tx) {
            char const * e = frame_error(t);
            if (e) { violate(P(4) | P(5), "wire-format", "a malformed frame is transmitted: %s", e); continue; }
            if ((t[1] & 0x80) && t[8] == 0) { acks.push_back({(uint8_t) (t[1] & 15), t[2], t[3]}); }
        }
        if (ids != acks) {
            size_t i = 0;
            while (i < ids.size() && i < acks.size() && ids[i] == acks[i]) { ++i; }
            violate(P(4) | P(5), "acks", "%zu data frames arrived intact, %zu were acknowledged; the first difference is number %zu", ids.size(), acks.size(), i);
        }
    }
    if (st.rx_count != want.size()) { violate(P(4), "count", "%u frames counted, %zu are in the stream", st.rx_count, want.size()); }
    // the frames put in intact are what the reference finds (generator check)
    // integrity NACKs
    for (Nack const & n : nacks) {
        int found = 0;
        for (size_t i = 0; i < a.tx.size(); ++i) {
            Bytes const & t = a.tx[i];
            if (a_tx[i] != n.at || t.size() < 13 || !(t[1] & 0x80) || t[8] != EMBC_ERROR_MESSAGE_INTEGRITY) { continue; }
            if ((t[1] & 15) == n.id && t[2] == n.port && t[3] == n.mid) { ++found; }
        }
        if (found != 1) { violate(P(4), "nack", "a frame (id %d) with a corrupted payload got %d integrity NACKs", n.id, found); }
    }
    // buffers are conserved
    for (Rx * r : {&a, &b}) {
        for (int c = 0; c < 4; ++c) {
            int expect = (int) r->sizes[c] - (c == 3);
            int k = 0;
            while (embc_buffer_alloc_unsafe(r->alloc, 32 << c)) { ++k; if (k > expect) { break; } }
            if (k != expect) { violate(P(4) | P(6), "buffers", "%d of %d buffers of size %d are free at the end", k, expect, 32 << c); }
        }
    }
    // the validation helper agrees
    for (int i = 0; i < 4 && !want.empty(); ++i) {
        Bytes f = want[draw(AUX, (uint32_t) want.size())];
        uint16_t len = 0;
        int32_t rc = embc_framer_validate(f.data(), (uint16_t) f.size(), &len);
        if (rc || len != f.size()) { violate(P(4), "validate", "embc_framer_validate returns %d for an intact frame", rc); }
        uint32_t cut = draw(AUX, (uint32_t) f.size());
        if (0 == embc_framer_validate(f.data(), (uint16_t) cut, &len)) { violate(P(4), "validate", "embc_framer_validate accepts %u of %zu bytes", cut, f.size()); }
        size_t p = draw(AUX, (uint32_t) f.size() - 1);
        f[p] ^= (uint8_t) (1 + draw(AUX, 255));
        if (0 == embc_framer_validate(f.data(), (uint16_t) f.size(), &len)) { violate(P(4), "validate", "embc_framer_validate accepts a frame with byte %zu changed", p); }
    }
    sim_time((int64_t) s.size() * 86806);   // 115200 baud
    cover(mix2((uint64_t) kinds, mix2((uint64_t) std::min<size_t>(want.size(), 30), (uint64_t) st.rx_synchronization_error * 64 + st.rx_mic_error)));
    if (want.size() < intact.size()) { probe("intact frame hidden by an overlapping one"); }
    if (want.size() > intact.size()) { probe("corruption left a frame intact"); }
    if (want.size() >= 2) { nontrivial(); }
}

}  // namespace

namespace dst {
World const world = {"deframe", {4}, run_world, {}};
}
