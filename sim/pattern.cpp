// World: a test pattern over a channel which drops, repeats and corrupts words.
// Real: pattern_32a.c, the generator and the receiver.
// Simulated: the channel, its faults and its block sizes.
// Reference: the closed form of the pattern, and the channel's own accounts.
#include "dst.hpp"
#include <memory>
extern "C" {
#include "embc/pattern_32a.h"
}
using namespace dst;

namespace {

constexpr uint32_t C16 = P(16);
constexpr int64_t PERIOD = 4325376;

uint32_t word(int64_t pos) {
    pos %= PERIOD;
    if (pos < 0) { pos += PERIOD; }
    int64_t n = pos / 2;
    if (pos & 1) {
        uint32_t c = (uint32_t) (n & 0xffff);
        return ((~c & 0xffff) << 16) | c;
    }
    int k = (int) (n % 33);
    return k ? 1u << (k - 1) : 0;
}

struct Sim {
    struct embc_pattern_32a_rx_s rx;
    struct embc_pattern_32a_tx_s tx;
    bool real_tx = false;
    int64_t pos = 0;              // of the next word of the pattern
    std::vector<uint32_t> q;      // words in the channel, in the receiver's next block
    int block = 1;
    bool mixed = false;
    uint64_t fed = 0;
    uint64_t missing = 0, duplicate = 0, errors = 0;
    bool counting = true;         // the counters are exact: no corruption yet
    int good = 0;                 // undisturbed words since the last fault
    bool ever = false;
    uint64_t base_m = 0, base_d = 0, base_e = 0;   // when the receiver was known to be synchronised again

    void flush() {
        if (q.empty()) { return; }
        step();
        bool as_buffer = block > 1 && !(mixed && chance(APP, 1, 2));
        if (as_buffer) {
            ev("buffer", (int64_t) q.size());
            embc_pattern_32a_rx_buffer(&rx, q.data(), (uint32_t) (4 * q.size()));
        } else {
            for (uint32_t w : q) { embc_pattern_32a_rx_next(&rx, w); }
        }
        fed += q.size();
        q.clear();
        if (rx.receive_count != fed) { violate(C16, "receive-count", "receive_count is %llu after %llu words", (unsigned long long) rx.receive_count, (unsigned long long) fed); }
    }
    void put(uint32_t w) {
        q.push_back(w);
        if ((int) q.size() >= block) { flush(); }
    }
    uint32_t next() {
        uint32_t w = word(pos);
        if (real_tx) {
            uint32_t r = embc_pattern_32a_tx_next(&tx);
            if (r != w) { violate(C16, "generator", "the generator produces %08x at position %lld, expected %08x", r, (long long) pos, w); }
        }
        ++pos;
        return w;
    }
    // n undisturbed words
    void run(int n) {
        ev("good", n, pos % PERIOD);
        if (real_tx && n > 1 && chance(APP, 1, 2)) {   // the generator fills buffers
            int left = n;
            while (left) {
                int k = std::min(left, 1 + (int) draw(APP, 40));
                std::unique_ptr<uint32_t[]> b(new uint32_t[(size_t) k + 1]);
                b[k] = 0xdeadbeef;
                embc_pattern_32a_tx_buffer(&tx, b.get(), (uint32_t) (4 * k));
                if (b[k] != 0xdeadbeef) { violate(C16, "overrun", "tx_buffer writes beyond its buffer"); }
                for (int i = 0; i < k; ++i) {
                    uint32_t w = word(pos);
                    if (b[i] != w) { violate(C16, "generator", "tx_buffer produces %08x at position %lld, expected %08x", b[i], (long long) pos, w); }
                    ++pos;
                    put(w);
                }
                left -= k;
            }
        } else {
            for (int i = 0; i < n; ++i) { put(next()); }
        }
        flush();
        int before = good;
        good += n;
        check(before);
    }
    void check(int before) {
        if (!ever) {
            if (good < 2) { return; }
            ever = true;
        }
        if (counting) {
            if (good >= 3 || !(missing || duplicate)) {
                if (rx.missing_count != missing || rx.duplicate_count != duplicate) { violate(C16, "count", "missing %llu duplicate %llu reported, the channel dropped %llu and repeated %llu words", (unsigned long long) rx.missing_count, (unsigned long long) rx.duplicate_count, (unsigned long long) missing, (unsigned long long) duplicate); }
                if (!errors && rx.error_count) { violate(C16, "false-alarm", "%llu errors reported on an undisturbed channel", (unsigned long long) rx.error_count); }
            }
        }
        if (rx.error_count < base_e || rx.missing_count < base_m || rx.duplicate_count < base_d) {
            violate(C16, "count", "the counters went back (errors %llu, missing %llu, duplicate %llu)", (unsigned long long) rx.error_count, (unsigned long long) rx.missing_count, (unsigned long long) rx.duplicate_count);
        }
        // after a fault: synchronised within a few words, and stays so
        if (before >= 3) {
            if (rx.error_count != base_e || rx.missing_count != base_m || rx.duplicate_count != base_d) {
                violate(C16, "unstable", "counters change (errors %llu, missing %llu, duplicate %llu) on undisturbed words", (unsigned long long) (rx.error_count - base_e), (unsigned long long) (rx.missing_count - base_m), (unsigned long long) (rx.duplicate_count - base_d));
            }
        }
        base_e = rx.error_count; base_m = rx.missing_count; base_d = rx.duplicate_count;
    }
    void jump(int64_t d) {
        pos += d;
        if (real_tx) {
            // let the real generator follow
            std::vector<uint32_t> scratch(65536);
            int64_t k = ((d % PERIOD) + PERIOD) % PERIOD;
            while (k > 0) {
                int64_t n = std::min<int64_t>(k, (int64_t) scratch.size());
                embc_pattern_32a_tx_buffer(&tx, scratch.data(), (uint32_t) (4 * n));
                k -= n;
            }
        }
    }
    int64_t amount() {
        switch (draw(NET, 9)) {
            case 0: case 1: return 1 + draw(NET, 6);
            case 2: return 1 + draw(NET, 200);
            case 3: return 66 * (1 + draw(NET, 20));
            case 4: return 131072 + (int64_t) draw(NET, 5) - 2;
            case 5: return PERIOD / 2 - 1 - draw(NET, 4);
            case 6: return 1 + draw(NET, PERIOD / 2 - 1);
            case 7: return 65536 * (1 + draw(NET, 32)) + (int64_t) draw(NET, 3) - 1;
            default: return 1;
        }
    }
};

void one() {
    std::unique_ptr<Sim> sp(new Sim());
    Sim & s = *sp;
    memset(&s.rx, 0xEE, sizeof(s.rx));
    memset(&s.tx, 0xEE, sizeof(s.tx));
    embc_pattern_32a_rx_initialize(&s.rx);
    embc_pattern_32a_tx_initialize(&s.tx);
    s.block = chance(CFG, 1, 2) ? 1 : 1 + (int) draw(CFG, 30);
    s.mixed = chance(CFG, 1, 3);
    int64_t phase = 0;
    bool big = chance(CFG, 1, 64);   // far jumps with the real generator take long
    s.real_tx = chance(CFG, 1, 2);
    switch (draw(CFG, 5)) {
        case 0: break;
        case 1: phase = draw(CFG, 200); break;
        case 2: phase = s.real_tx && !big ? (int64_t) draw(CFG, 3000) : (int64_t) draw(CFG, PERIOD); break;
        case 3: phase = (s.real_tx && !big ? 0 : 2 * 65536) - (int64_t) draw(CFG, 40); break;
        default: phase = s.real_tx && !big ? 66 : PERIOD - 1 - (int64_t) draw(CFG, 70); break;
    }
    if (phase < 0) { phase = 0; }
    s.jump(phase);
    if (chance(CFG, 1, 4)) {   // the channel starts with noise
        int n = 1 + (int) draw(NET, 5);
        ev("noise", n);
        s.counting = false;
        ++s.errors;
        for (int i = 0; i < n; ++i) {
            fault("noise before the first word");
            uint32_t x = draw_u32(DATA);
            s.put(draw(DATA, 2) ? x : (~x << 16) | (x & 0xffff));
            s.flush();
        }
        s.run(5);
        uint64_t e = s.rx.error_count, m = s.rx.missing_count, d = s.rx.duplicate_count, r = s.rx.resync_count;
        uint64_t most = (uint64_t) n + 5;
        if (e > most || r > most || m + d > most * PERIOD) { violate(C16, "count", "after %d words of noise: errors %llu resyncs %llu missing %llu duplicate %llu", n, (unsigned long long) e, (unsigned long long) r, (unsigned long long) m, (unsigned long long) d); }
    }
    s.run(2);
    s.run(1 + (int) draw(APP, 30));
    int faults = (int) draw(CFG, 8);
    bool corrupting = chance(CFG, 1, 3);
    for (int i = 0; i < faults; ++i) {
        step();
        if (s.good < 3) { s.run(3); }
        if (!s.counting) {   // what corruption did to the counters is over: they are exact from here on
            s.counting = true;
            s.missing = s.rx.missing_count;
            s.duplicate = s.rx.duplicate_count;
            probe("exact counting after corruption");
        }
        uint32_t k = draw(NET, corrupting ? 8 : 4);
        s.good = 0;
        uint64_t e = s.rx.error_count;
        if (k < 2) {
            int64_t n = s.amount();
            if (s.real_tx && !big) { n = 1 + n % 700; }
            ev("drop", n);
            fault("words dropped", (uint64_t) n);
            s.missing += (uint64_t) n;
            ++s.errors;
            s.jump(n);
        } else if (k < 4) {
            int64_t n = s.amount();
            if (s.real_tx && !big) { s.real_tx = false; }
            ev("repeat", n);
            fault("words repeated", (uint64_t) n);
            s.duplicate += (uint64_t) n;
            ++s.errors;
            s.jump(-n);
        } else if (k >= 6) {
            // the line is stuck: no two equal words follow each other in the pattern
            int n = pick(NET, {1, 2, 3, 5, 40, 253, 254, 255, 256, 300});
            uint32_t x = pick<uint32_t>(DATA, {0xffffffff, 0, 0xffff0000, 0xfffe0001, draw_u32(DATA), 1u << draw(DATA, 32), word(s.pos - 1)});
            if (x == word(s.pos)) { x = 0xffffffff; }
            ev("stuck", x, n);
            fault("line stuck", (uint64_t) n);
            ++s.errors;
            uint64_t m = s.rx.missing_count;
            for (int j = 0; j < n; ++j) { s.next(); s.put(x); }
            s.flush();
            if (s.rx.error_count != e + (uint64_t) n) { violate(C16, "error-count", "%llu errors are counted for %d words which could not be synchronised", (unsigned long long) (s.rx.error_count - e), n); }
            bool x_counter = (~x >> 16) == (x & 0xffff);
            if (x_counter == (bool) (s.pos & 1)) {   // else the last stuck word and the first good one look like a pair
                s.missing += (uint64_t) n;
                s.run(2);
                if (s.rx.error_count != e + (uint64_t) n + 1 || s.rx.missing_count != m + (uint64_t) n || s.rx.duplicate_count != s.duplicate) {
                    violate(C16, "count", "%d words lost to a stuck line: %llu errors, %llu missing, %llu duplicate", n, (unsigned long long) (s.rx.error_count - e), (unsigned long long) (s.rx.missing_count - m), (unsigned long long) (s.rx.duplicate_count - s.duplicate));
                }
                probe("stuck line accounted for");
            } else {
                s.counting = false;
            }
        } else {
            int n = 1 + (int) draw(NET, 6);
            ev("corrupt", n);
            s.counting = false;
            ++s.errors;
            bool wrong = false;
            for (int j = 0; j < n; ++j) {
                uint32_t w = s.next(), c = w;
                switch (draw(DATA, 6)) {
                    case 0: c ^= 1u << draw(DATA, 32); break;
                    case 1: c = draw_u32(DATA); break;
                    case 2: c = word((int64_t) draw(DATA, PERIOD)); break;    // another word of the pattern
                    case 3: { uint32_t x = draw(DATA, 65536); c = (~x << 16) | x; break; }
                    case 4: c = 1u << draw(DATA, 32); break;
                    default: c = draw(DATA, 2) ? 0 : 0xffffffff; break;
                }
                ev("word", w, c);
                s.put(c);
                s.flush();
                if (c != w && !wrong) {
                    wrong = true;
                    fault("word corrupted");
                    if (s.rx.error_count == e) { violate(C16, "unflagged", "a corrupted word (%08x for %08x) is not flagged", c, w); }
                }
                if (!wrong && s.rx.error_count != e) { violate(C16, "false-alarm", "an intact word is flagged"); }
            }
        }
        int n = chance(APP, 1, 2) ? 3 : 1 + (int) draw(APP, 40);
        s.run(n);
        if (s.good < 3) { s.run(3 - s.good); }
        if (s.good >= 3 && s.errors && s.rx.error_count == e && (s.missing || s.duplicate || !s.counting)) {
            // a fault which was not noticed at all
            if (k < 4) { violate(C16, "unflagged", "a fault is not flagged"); }
        }
        cover(mix2((uint64_t) k * 64 + (uint64_t) s.good, (uint64_t) (s.pos % 66)));
    }
    s.run(1 + (int) draw(APP, 40));
    if (chance(APP, 1, 4)) { s.run(200); probe("long undisturbed stretch"); }
    if (s.errors) { nontrivial(); }
}

// In some runs two patterns are tested at the same time, over two channels.
void run_world() {
    set_step_limit(2000000);
    if (chance(CFG, 1, 6)) { probe("two channels at once"); tasks({one, one}); }
    else { one(); }
}

}  // namespace

World const dst::world = {"pattern", {16}, run_world, {}};
