// An independent encoder and decoder of the frame format (framer.h's table).
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>

namespace {

typedef std::vector<uint8_t> Bytes;

// --- independent frame codec ---------------------------------------------
uint8_t crc8_tab[256];
uint32_t crc32_tab[256];
void crc_init() {
    static bool done = false;
    if (done) { return; }
    done = true;
    for (int i = 0; i < 256; ++i) {
        uint8_t c = (uint8_t) i;
        for (int k = 0; k < 8; ++k) { c = (c & 1) ? (uint8_t) ((c >> 1) ^ 0xE0) : (uint8_t) (c >> 1); }
        crc8_tab[i] = c;
        uint32_t d = (uint32_t) i;
        for (int k = 0; k < 8; ++k) { d = (d & 1) ? (d >> 1) ^ 0xEDB88320u : d >> 1; }
        crc32_tab[i] = d;
    }
}
uint8_t crc8(uint8_t const * p, size_t n) {
    uint8_t c = 0xff;
    while (n--) { c = crc8_tab[c ^ *p++]; }
    return (uint8_t) ~c;
}
uint32_t crc32(uint8_t const * p, size_t n) {
    uint32_t c = 0xffffffffu;
    while (n--) { c = crc32_tab[(c ^ *p++) & 0xff] ^ (c >> 8); }
    return ~c;
}
Bytes encode(uint8_t id, uint8_t port, uint8_t mid, uint16_t def, Bytes const & payload) {
    Bytes b = {0xAA, id, port, mid, (uint8_t) payload.size(), (uint8_t) def, (uint8_t) (def >> 8)};
    b.push_back(crc8(b.data(), 7));
    b.insert(b.end(), payload.begin(), payload.end());
    uint32_t c = crc32(b.data(), b.size());
    for (int i = 0; i < 4; ++i) { b.push_back((uint8_t) (c >> (8 * i))); }
    b.push_back(0xAA);
    return b;
}
char const * frame_error(Bytes const & b) {
    if (b.size() < 13) { return "too short"; }
    if (b[0] != 0xAA) { return "no start of frame"; }
    if (crc8(b.data(), 7) != b[7]) { return "header crc"; }
    if (b[4] > 240) { return "payload length"; }
    if (b.size() != (size_t) b[4] + 13) { return "length"; }
    uint32_t c = crc32(b.data(), b.size() - 5);
    uint32_t r = b[b.size() - 5] | (b[b.size() - 4] << 8) | (b[b.size() - 3] << 16) | ((uint32_t) b[b.size() - 2] << 24);
    if (c != r) { return "frame crc"; }
    if (b.back() != 0xAA) { return "end of frame"; }
    return 0;
}

// --- reference deframer: the leftmost frame with correct CRCs counts, and the search
// continues after it; 0xAA never is a frame id (repeated SOF bytes are ignored) -------
struct RefDeframer {
    Bytes b;
    void feed(uint8_t v, std::vector<Bytes> & out) {
        b.push_back(v);
        while (b.size()) {
            if (b[0] != 0xAA || (b.size() > 1 && b[1] == 0xAA)) { b.erase(b.begin()); continue; }
            if (b.size() < 8) { return; }
            if (crc8(b.data(), 7) != b[7] || b[4] > 240) { b.erase(b.begin()); continue; }
            size_t n = (size_t) b[4] + 13;
            if (b.size() < n) { return; }
            uint32_t r = b[n - 5] | (b[n - 4] << 8) | (b[n - 3] << 16) | ((uint32_t) b[n - 2] << 24);
            if (crc32(b.data(), n - 5) != r) { b.erase(b.begin()); continue; }
            out.emplace_back(b.begin(), b.begin() + (long) n);
            b.erase(b.begin(), b.begin() + (long) n);
        }
    }
};

}  // namespace
