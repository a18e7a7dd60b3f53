// hash_model.hpp - what the hash of an event must be
#pragma once
#include <botan/sha2_64.h>
#include "adapt.hpp"

namespace {
using namespace ad;
using vf::u8;
inline str be8(u64 x) {
    str s;
    for (int i = 7; i >= 0; i--) s += (char)(x >> (8 * i));
    return s;
}
inline str sha(const str& s) {  // Botan's own interface; the construction is what is checked
    Botan::SHA_512_256 h;
    h.update((const uint8_t*)s.data(), s.size());
    str out(32, 0);
    h.final((uint8_t*)out.data());
    return out;
}
inline str model_hash(const Op& o, const str& prev, const str& ref) {
    str b = be8(o.id.v) + be8(o.id.o) + prev + be8(o.ref.v) + be8(o.ref.o) + ref;
    for (auto& v : o.vals) switch (v.t) {
        case md::U: b += be8(v.u.v) + be8(v.u.o); break;
        case md::I: b += be8((u64)v.i) + be8(1ULL << 62); break;
        case md::F: { u64 x; memcpy(&x, &v.f, 8); b += be8(x) + be8(3ULL << 62); break; }
        default: b += be8((u64)v.s.size() << 32) + be8(2ULL << 62) + md::utf8(v.s);
    }
    return sha(b);
}
// 256 bits -> 43 digits, the last one carries 4 bits
inline str base64(const str& bits) {
    str b64;
    for (int i = 0; i < 43; i++) {
        int v = 0;
        for (int k = 0; k < 6; k++) {
            int bit = i * 6 + k;
            v = v << 1 | (bit < 256 ? ((u8)bits[bit >> 3] >> (7 - (bit & 7))) & 1 : 0);
        }
        b64 += md::B64[v];
    }
    return b64;
}
}  // namespace
