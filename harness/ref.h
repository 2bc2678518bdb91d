// Reference definitions used as oracles, written from the published standards.
#pragma once
#include "sym.h"
// Length of the well-formed UTF-8 sequence at s (Unicode Table 3-7), or 0.
inline size_t ref_utf8_len(const unsigned char* s, size_t n)
{
    if (n == 0) return 0;
    unsigned char a = s[0];
    if (a < 0x80) return 1;
    if (a < 0xC2 || a > 0xF4) return 0;
    size_t len = a < 0xE0 ? 2 : a < 0xF0 ? 3 : 4;
    if (n < 2) return 0;
    unsigned char lo = 0x80, hi = 0xBF;
    if (a == 0xE0) lo = 0xA0;
    if (a == 0xED) hi = 0x9F;
    if (a == 0xF0) lo = 0x90;
    if (a == 0xF4) hi = 0x8F;
    if (s[1] < lo || s[1] > hi) return 0;
    for (size_t i = 2; i < len; i++) {
        if (i >= n) return 0;
        if (s[i] < 0x80 || s[i] > 0xBF) return 0;
    }
    return len;
}
inline bool ref_utf8_valid(const unsigned char* s, size_t n)
{
    for (size_t i = 0; i < n;) {
        size_t l = ref_utf8_len(s + i, n - i);
        if (!l) return false;
        i += l;
    }
    return true;
}
