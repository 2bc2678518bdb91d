// UTF-8 decoding, encoding, validation and search against Unicode's Table 3-7; character properties.
#include "ref.h"
#include "ref_xid.h"
#include "ulight/impl/unicode.hpp"
#include "ulight/impl/unicode_algorithm.hpp"
#include "ulight/impl/unicode_chars.hpp"
using namespace ulight;
using SV = std::u8string_view;
static unsigned char* g_s; static size_t g_n;
static SV text()
{
    g_n = (size_t)sym_pick((uint64_t)sym_param("n", 5) + 1);
    g_s = (unsigned char*)sym_buffer(g_n);
    if (sym_param("valid", 0)) sym_assume(ref_utf8_valid(g_s, g_n));
    // The kind of the first byte ("lead"): ASCII, never the start of a sequence, start of one of 2, 3, 4.
    if (int64_t k = sym_param("lead", 0)) {
        sym_assume(g_n > 0);
        unsigned c = g_s[0];
        sym_assume(k == 1 ? c < 0x80 : k == 2 ? (c >= 0x80 && c < 0xC2) || c > 0xF4 : k == 3 ? c >= 0xC2 && c < 0xE0 : k == 4 ? c >= 0xE0 && c < 0xF0 : c >= 0xF0 && c <= 0xF4);
    }
    return { (const char8_t*)g_s, g_n };
}
static char32_t ref_cp(const unsigned char* s, size_t len)
{
    switch (len) {
    case 1: return s[0];
    case 2: return (char32_t)(s[0] - 0xC0) * 64 + (s[1] - 0x80);
    case 3: return ((char32_t)(s[0] - 0xE0) * 64 + (s[1] - 0x80)) * 64 + (s[2] - 0x80);
    default: return (((char32_t)(s[0] - 0xF0) * 64 + (s[1] - 0x80)) * 64 + (s[2] - 0x80)) * 64 + (s[3] - 0x80);
    }
}
// How many bytes a lead byte announces (Table 3-7), 0 for a byte that leads nothing.
static size_t ref_announced(unsigned char a) { return a < 0x80 ? 1 : a < 0xC2 ? 0 : a < 0xE0 ? 2 : a < 0xF0 ? 3 : a < 0xF5 ? 4 : 0; }
// Length of the maximal subpart at the start of an ill-formed text (D93b): the longest prefix of some well-formed sequence, at least 1.
static size_t ref_subpart(const unsigned char* s, size_t n)
{
    size_t want = ref_announced(s[0]);
    if (want < 2) return 1;
    size_t i = 1;
    while (i < want && i < n) {
        unsigned char lo = 0x80, hi = 0xBF;
        if (i == 1) {
            if (s[0] == 0xE0) lo = 0xA0;
            if (s[0] == 0xED) hi = 0x9F;
            if (s[0] == 0xF0) lo = 0x90;
            if (s[0] == 0xF4) hi = 0x8F;
        }
        if (s[i] < lo || s[i] > hi) break;
        i++;
    }
    return i;
}
extern "C" void u_decode()
{
    SV s = text();
    size_t len = ref_utf8_len(g_s, g_n);
    auto r = utf8::decode_and_length(s);
    auto d = utf8::decode(s);
    sym_assert(r.has_value() == (len != 0), "decoding succeeds for exactly the well-formed sequences");
    sym_assert(d.has_value() == r.has_value(), "the two decoding functions disagree");
    bool thrown = false;
    utf8::Code_Point_And_Length t {};
    try { t = utf8::decode_and_length_or_throw(s); }
    catch (const utf8::Unicode_Error& e) { thrown = true; if (!r) sym_assert(e.get_error() == r.error(), "exception carries another error"); }
    sym_assert(thrown == !len, "throws for exactly the ill-formed sequences");
    auto p = utf8::decode_and_length_or_replacement(s);
    if (len) {
        sym_cover("well-formed");
        char32_t c = ref_cp(g_s, len);
        sym_assert(r->code_point == c && r->length == (int)len, "wrong code point or length");
        sym_assert(*d == c, "wrong code point");
        sym_assert(t.code_point == c && t.length == (int)len, "wrong code point or length");
        sym_assert(p.code_point == c && p.length == (int)len, "wrong code point or length");
        auto u = utf8::decode_and_length_unchecked((const char8_t*)g_s);
        sym_assert(u.code_point == c && u.length == (int)len, "unchecked decoding differs");
        sym_log(1, c);
    } else {
        utf8::Error_Code e = r.error(), want = g_n == 0 ? utf8::Error_Code::no_data : !ref_announced(g_s[0]) ? utf8::Error_Code::illegal_bits
            : g_n < ref_announced(g_s[0]) ? utf8::Error_Code::missing_units : utf8::Error_Code::illegal_bits;
        sym_assert(e == want, "wrong kind of error");
        sym_assert(d.error() == want, "wrong kind of error");
        sym_assert(p.code_point == 0xFFFD, "ill-formed text is not replaced by U+FFFD");
        sym_assert(p.length == (g_n ? (int)ref_subpart(g_s, g_n) : 0), "replacement does not cover the maximal subpart");
        sym_cover("ill-formed");
        sym_log(2, (unsigned)e); sym_log(3, p.length);
    }
    sym_assert(utf8::decode_or_replacement(s) == p.code_point, "replacement functions disagree");
    sym_free(g_s);
}
// the overloads on four units
extern "C" void u_decode4()
{
    std::array<char8_t, 4> a;
    sym_bytes(a.data(), 4);
    const unsigned char* s = (const unsigned char*)a.data();
    size_t len = ref_utf8_len(s, 4), ann = ref_announced(s[0]);
    auto p = utf8::decode_and_length_or_replacement(a);
    sym_assert(p.length == (int)(len ? len : ref_subpart(s, 4)), "wrong length");
    sym_assert(p.code_point == (len ? ref_cp(s, len) : 0xFFFD), "wrong code point");
    sym_assert(utf8::decode_or_replacement(a) == p.code_point, "wrong code point");
    sym_assert(utf8::sequence_length((char8_t)s[0]) == (int)ann, "wrong sequence length");
    sym_assert(utf8::sequence_length((char8_t)s[0], 7) == (ann ? (int)ann : 7), "wrong sequence length with a fallback");
    size_t ones = s[0] < 0x80 ? 1 : s[0] < 0xC0 ? 0 : s[0] < 0xE0 ? 2 : s[0] < 0xF0 ? 3 : s[0] < 0xF8 ? 4 : 0;
    sym_assert(utf8::unchecked_sequence_length((char8_t)s[0]) == (int)ones, "wrong unchecked sequence length");
    sym_assert(utf8::unchecked_sequence_length((char8_t)s[0], 9) == (ones ? (int)ones : 9), "wrong unchecked sequence length with a fallback");
    for (int l = 1; l <= 4; l++) {
        bool ok = len == (size_t)l;
        sym_assert(utf8::is_valid(a, l) == ok, "validity for a known length is wrong");
        auto d = utf8::decode(a, l);
        sym_assert(d.has_value() == ok, "decoding for a known length is wrong");
        if (ok) { sym_assert(*d == ref_cp(s, len), "wrong code point"); sym_cover("well-formed"); }
        sym_assert(utf8::decode_or_replacement(a, l) == (ok ? ref_cp(s, len) : 0xFFFD), "wrong code point");
    }
    sym_log(1, p.code_point);
}
extern "C" void u_valid()
{
    SV s = text();
    auto r = utf8::is_valid(s);
    sym_assert(r.has_value() == ref_utf8_valid(g_s, g_n), "validation accepts exactly the well-formed texts");
    sym_log(1, r.has_value());
    sym_cover(r ? "valid" : "invalid");
    sym_free(g_s);
}
extern "C" void u_encode()
{
    char32_t c = sym_u32();
    sym_assume(c <= 0x10FFFF);
    auto e = utf8::encode8_unchecked(c);
    size_t want = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
    sym_assert(e.length == (int)want, "wrong encoded length");
    const unsigned char* s = (const unsigned char*)e.code_units.data();
    sym_assert(e.as_string().size() == want && e.as_string().data() == e.code_units.data(), "string view is wrong");
    sym_assert(e.begin() == e.code_units.data() && e.end() == e.begin() + want, "iterators are wrong");
    sym_assert(utf8::decode_unchecked(e.code_units, e.length) == c, "encoding then decoding changes the code point");
    bool sur = c >= 0xD800 && c <= 0xDFFF;
    if (!sur) {
        sym_assert(ref_utf8_len(s, want) == want, "encoding is not well-formed");
        sym_assert(ref_cp(s, want) == c, "encoding stands for another code point");
        auto d = utf8::decode_and_length(e.as_string());
        sym_assert(d && d->code_point == c && d->length == (int)want, "encoding does not decode");
        sym_cover("scalar");
    } else { sym_cover("surrogate"); sym_assert(!utf8::decode_and_length(e.as_string()), "an encoded surrogate is taken for well-formed"); }
    sym_log(1, s[0]); sym_log(2, s[want - 1]);
}
extern "C" void u_iterate()
{
    SV s = text();
    bool valid = ref_utf8_valid(g_s, g_n);
    size_t at = 0, k = 0;
    bool thrown = false;
    try {
        utf8::Code_Point_View v { s };
        for (char32_t c : v) {
            size_t len = at < g_n ? ref_utf8_len(g_s + at, g_n - at) : 0;
            sym_assert(len != 0, "iteration delivers something that is no code point");
            sym_assert(c == ref_cp(g_s + at, len), "iteration delivers the wrong code point");
            at += len; k++;
        }
    } catch (const utf8::Unicode_Error&) { thrown = true; }
    sym_assert(thrown == !valid, "iteration fails for exactly the ill-formed texts");
    if (valid) {
        sym_assert(at == g_n, "iteration stops early");
        sym_assert(utf8::code_points_unchecked(s) == k, "wrong number of code points");
        sym_cover("valid");
    } else sym_cover("invalid");
    sym_log(1, k); sym_log(2, at);
    sym_free(g_s);
}
extern "C" void u_find()
{
    SV s = text();
    char32_t x = sym_u32();
    sym_assume(x <= 0x110000);
    bool less = sym_pick(2);
    auto pred = [x, less](char32_t c) { return less ? c < x : c == x; };
    size_t yes = SV::npos, no = SV::npos;
    for (size_t i = 0; i < g_n;) {
        size_t len = ref_utf8_len(g_s + i, g_n - i);
        char32_t c = len ? ref_cp(g_s + i, len) : 0xFFFD;
        if (pred(c)) { if (yes == SV::npos) yes = i; }
        else if (no == SV::npos) no = i;
        if (yes != SV::npos && no != SV::npos) break;
        i += len ? len : ref_subpart(g_s + i, g_n - i);
    }
    sym_assert(utf8::find_if(s, pred) == yes, "find_if");
    sym_assert(utf8::find_if_not(s, pred) == no, "find_if_not");
    sym_assert(utf8::length_if(s, pred) == (no == SV::npos ? g_n : no), "length_if");
    sym_assert(utf8::length_if_not(s, pred) == (yes == SV::npos ? g_n : yes), "length_if_not");
    sym_assert(utf8::all_of(s, pred) == (no == SV::npos), "all_of");
    sym_assert(utf8::any_of(s, pred) == (yes != SV::npos), "any_of");
    sym_assert(utf8::none_of(s, pred) == (yes == SV::npos), "none_of");
    sym_assert(utf8::any_not_of(s, pred) == (no != SV::npos), "any_not_of");
    sym_cover(yes == SV::npos ? "none" : "found");
    sym_log(1, yes); sym_log(2, no);
    sym_free(g_s);
}
template <size_t N> static bool in(const Ref_Range (&r)[N], unsigned c)
{
    size_t lo = 0, hi = N; // first range with hi >= c
    while (lo < hi) { size_t m = (lo + hi) / 2; if (r[m].hi < c) lo = m + 1; else hi = m; }
    return lo < N && r[lo].lo <= c;
}
extern "C" void u_xid()
{
    char32_t c = sym_u32();
    unsigned part = (unsigned)sym_param("part", 0);
    bool start = part & 1;
    sym_assume((part & 2) ? c >= 0x3000 : c < 0x3000);
    bool got = start ? is_xid_start(c) : is_xid_continue(c);
    bool want = start ? in(ref_xid_start, c) : in(ref_xid_continue, c);
    sym_assert(got == want, start ? "XID_Start differs from Unicode 15.1" : "XID_Continue differs from Unicode 15.1");
    sym_cover(got ? "member" : "other");
    sym_log(1, got);
}
extern "C" void u_class()
{
    char32_t c = sym_u32();
    bool code = c <= 0x10FFFF, lead = c >= 0xD800 && c < 0xDC00, trail = c >= 0xDC00 && c < 0xE000;
    sym_assert(is_code_point(c) == code, "is_code_point");
    sym_assert(is_leading_surrogate(c) == lead, "is_leading_surrogate");
    sym_assert(is_trailing_surrogate(c) == trail, "is_trailing_surrogate");
    sym_assert(is_surrogate(c) == (lead || trail), "is_surrogate");
    sym_assert(is_scalar_value(c) == (code && !lead && !trail), "is_scalar_value");
    if (code) sym_assert(is_noncharacter(c) == ((c >= 0xFDD0 && c <= 0xFDEF) || (c & 0xFFFE) == 0xFFFE), "is_noncharacter");
    sym_assert(is_private_use_area_character(c) == ((c >= 0xE000 && c <= 0xF8FF) || (c >= 0xF0000 && c <= 0x10FFFF)), "is_private_use_area_character");
    if (c < 0x80) {
        char8_t b = (char8_t)c;
        sym_assert(is_ascii_xid_start(b) == ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')), "is_ascii_xid_start");
        sym_assert(is_ascii_xid_continue(b) == ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'), "is_ascii_xid_continue");
        sym_assert(is_character_name(b) == ((c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == ' ' || c == '-'), "is_character_name");
    }
    sym_cover("any");
}
