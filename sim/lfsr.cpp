// World: a pseudo-random byte stream over a channel with faults.
// Real: lfsr.c, generator and follower.
// Simulated: the channel and its faults.
// Reference: the polynomial, bit by bit; the follower's rule over the received bytes.
#include "dst.hpp"
#include <memory>
extern "C" {
#include "embc/lfsr.h"
}
using namespace dst;

namespace {

constexpr uint32_t C17 = P(17);

struct Ref {
    uint16_t v;
    int bit() {
        int b = ((v) ^ (v >> 2) ^ (v >> 3) ^ (v >> 5)) & 1;
        v = (uint16_t) ((v >> 1) | (b << 15));
        return b;
    }
    uint32_t bits(int n) {   // oldest bit is the least significant
        uint32_t x = 0;
        for (int i = 0; i < n; ++i) { x |= (uint32_t) bit() << i; }
        return x;
    }
};

void one() {
    struct embc_lfsr_s gen, fol;
    memset(&gen, 0xEE, sizeof(gen));
    memset(&fol, 0xEE, sizeof(fol));
    embc_lfsr_initialize(&gen);
    embc_lfsr_initialize(&fol);
    Ref ref = {LFSR16_INITIAL_VALUE};
    auto seed = [&]() {
        uint16_t s = chance(CFG, 1, 8) ? pick<uint16_t>(CFG, {0, 1, 0x8000, 0xffff}) : (uint16_t) draw(CFG, 65536);
        ev("seed", s);
        embc_lfsr_seed_u16(&gen, s);
        ref.v = s ? s : 1;
    };
    if (!chance(CFG, 1, 4)) { seed(); }
    bool full = chance(CFG, 1, 256);
    int chunk = 60;
    std::deque<uint8_t> past;
    // the follower's view
    int known = 0;           // 0, 1: still loading; 2: synchronised
    Ref pred = {0};
    uint8_t last = 0;
    int errors = 0;
    bool first = true;
    int clean = 0;           // undisturbed bytes since the last disturbance
    bool disturbed = false;
    auto feed = [&](uint8_t b, bool undisturbed) {
        step();
        int rc = embc_lfsr_follow_u8(&fol, b);
        ev("byte", b, rc, undisturbed);
        if (!undisturbed) { clean = -1; disturbed = true; }
        bool expect_error = false, zero = false;
        if (known == 2) {
            Ref r = pred;
            zero = r.v == 0;
            uint8_t e = (uint8_t) (r.bits(8));
            expect_error = e != b;
            if (!zero) {
                if (expect_error && rc != -1) { violate(C17, "unnoticed", "byte %02x is accepted, the preceding bytes predict %02x", b, e); }
                if (!expect_error && rc != 0) { violate(C17, "false-alarm", "byte %02x is reported, the preceding bytes predict it", b); }
            } else {   // the generator never sends 16 zero bits, so there is no prediction; a line stuck at zero is reported
                if (!b && rc != -1) { violate(C17, "unnoticed", "a third zero byte in a row is accepted"); }
                expect_error = rc != 0;
            }
            if (expect_error) { ++errors; known = 1; first = false; }
            else { pred.v = (uint16_t) ((pred.v >> 8) | (b << 8)); }
        } else {
            if (rc) { violate(C17, "sync", "byte %02x is reported while there is nothing to compare it with", b); }
            if (++known == 2) { pred.v = (uint16_t) (last | (b << 8)); }
        }
        last = b;
        if (fol.error_count != errors) { violate(C17, "count", "error_count is %d after %d reports", fol.error_count, errors); }
        ++clean;
        if (rc && undisturbed && (first ? clean > 0 && !disturbed : clean > 4)) { violate(C17, "recovery", "a report %d bytes after the last disturbance", clean); }
        cover((uint64_t) known * 64 + (uint64_t) std::min(clean, 10) * 2 + (rc != 0));
    };
    uint8_t buf[400];
    auto produce = [&]() -> uint8_t {
        uint8_t b = embc_lfsr_next_u8(&gen);
        uint8_t e = (uint8_t) ref.bits(8);
        if (b != e) { violate(C17, "generator", "next_u8 returns %02x, expected %02x", b, e); }
        return b;
    };
    (void) buf;
    // the generator's interfaces walk one sequence
    int mixed = (int) draw(APP, 30);
    for (int i = 0; i < mixed; ++i) {
        step();
        switch (draw(APP, 5)) {
            case 0: { int b = embc_lfsr_next_u1(&gen); if (b != ref.bit()) { violate(C17, "generator", "next_u1 returns %d", b); } break; }
            case 1: { produce(); break; }
            case 2: {
                uint16_t b = embc_lfsr_next_u16(&gen), e = (uint16_t) ref.bits(16);
                if (b != e) { violate(C17, "generator", "next_u16 returns %04x, expected %04x", b, e); }
                break;
            }
            case 3: {
                uint32_t hi = ref.bits(16), lo = ref.bits(16), b = embc_lfsr_next_u32(&gen);
                if (b != (hi << 16 | lo)) { violate(C17, "generator", "next_u32 returns %08x, expected %04x%04x", b, hi, lo); }
                break;
            }
            default: if (chance(APP, 1, 4)) { seed(); } break;
        }
    }
    if (full) {   // the whole cycle
        probe("whole cycle walked");
        uint16_t start = embc_lfsr_next_u16(&gen);
        ref.bits(16);
        std::vector<bool> seen(65536);
        uint16_t v = start;
        int n = 0;
        do {
            if (seen[v]) { violate(C17, "cycle", "the sequence repeats after %d bits", n); break; }
            seen[v] = true;
            int b = embc_lfsr_next_u1(&gen);
            v = (uint16_t) ((v >> 1) | (b << 15));
            ++n;
        } while (v != start && n < 70000);
        if (n != 65535) { violate(C17, "cycle", "the period is %d", n); }
    }
    // the channel
    int faults = (int) draw(CFG, 10);
    auto good = [&](int n) { for (int i = 0; i < n; ++i) { uint8_t b = produce(); past.push_back(b); if (past.size() > 64) { past.pop_front(); } feed(b, true); } };
    good(2 + (int) draw(APP, (uint32_t) chunk));
    for (int i = 0; i < faults; ++i) {
        switch (draw(NET, 6)) {
            case 0: {
                int n = 1 + (int) draw(NET, 5);
                for (int k = 0; k < n; ++k) {
                    uint8_t b = produce();
                    uint8_t c = (uint8_t) (b ^ (chance(NET, 1, 2) ? 1 << draw(NET, 8) : (int) draw(NET, 256)));
                    if (chance(NET, 1, 4)) { c = 0; }
                    if (c != b) { fault("byte corrupted"); }
                    past.push_back(b);
                    feed(c, false);
                    if (chance(NET, 1, 3)) { good(1 + (int) draw(NET, 3)); }
                }
                break;
            }
            case 1: {
                int n = 1 + (int) draw(NET, chance(NET, 1, 4) ? 9000 : 12);
                fault("bytes dropped", (uint64_t) n);
                for (int k = 0; k < n; ++k) { past.push_back(produce()); if (past.size() > 64) { past.pop_front(); } }
                clean = 0;
                disturbed = true;
                break;
            }
            case 2: {
                if (past.size() < 4) { break; }
                size_t n = 1 + draw(NET, (uint32_t) std::min<size_t>(past.size(), 30));
                fault("bytes repeated", n);
                for (size_t k = past.size() - n; k < past.size(); ++k) { feed(past[k], false); }
                break;
            }
            case 3: {
                int n = 1 + (int) draw(NET, 6);
                fault("bytes inserted", (uint64_t) n);
                for (int k = 0; k < n; ++k) { feed(chance(NET, 1, 3) ? 0 : (uint8_t) draw(NET, 256), false); }
                break;
            }
            case 4:
                if (chance(NET, 1, 4)) {   // the receiver restarts
                    fault("follower restarted");
                    embc_lfsr_initialize(&fol);
                    if (fol.error_count) { violate(C17, "count", "error_count is %d after initialize", fol.error_count); }
                    known = errors = 0;
                    first = true;
                    disturbed = false;
                    clean = 0;
                    break;
                }
                seed(); fault("phase jump"); clean = 0; disturbed = true; break;
            default: {   // two bytes which put the follower at zero, then more
                fault("zero bytes");
                int n = 2 + (int) draw(NET, 4);
                for (int k = 0; k < n; ++k) { feed(0, false); }
                break;
            }
        }
        good((int) draw(APP, 3) ? 1 + (int) draw(APP, (uint32_t) chunk) : (int) draw(APP, 5));
    }
    good(6);
    if (errors) { nontrivial(); }
}

// In some runs several sequences are in use at the same time.
void run_world() {
    set_step_limit(400000);
    if (chance(CFG, 1, 6)) { probe("several sequences at once"); tasks({one, one}); }
    else { one(); }
}

}  // namespace

World const dst::world = {"lfsr", {17}, run_world, {}};
