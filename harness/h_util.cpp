// The building blocks that the highlighters share: character sets, ASCII text search, numeric literals,
// lines, escapes, buffers, function references, line diffs. Each against a definition of its own.
#include "sym.h"
#include <cstring>
#include <optional>
#include <string_view>
#include <vector>
#include "ulight/function_ref.hpp"
#include "ulight/impl/ascii_algorithm.hpp"
#include "ulight/impl/ascii_chars.hpp"
#include "ulight/impl/buffer.hpp"
#include "ulight/impl/charset.hpp"
#include "ulight/impl/escapes.hpp"
#include "ulight/impl/numbers.hpp"
#include "ulight/impl/parse_utils.hpp"
#include "ulight/impl/strings.hpp"
using namespace ulight;
using SV = std::u8string_view;

// A text: up to n arbitrary bytes, or exactly n of them in the middle of one of the templates
// ([u8 a][a bytes][u8 b][b bytes])* of the blob "tmpl".
static unsigned char* g_s;
static size_t g_n;
static SV text()
{
    static unsigned char blob[60000];
    size_t n = (size_t)sym_param("n", 4), bl = sym_blob("tmpl", blob, sizeof blob), a = 0, b = 0, at = 0;
    if (bl) {
        size_t count = 0;
        for (size_t i = 0; i < bl; count++) { i += 1 + blob[i]; i += 1 + blob[i]; }
        size_t k = (size_t)sym_pick(count);
        while (k--) { at += 1 + blob[at]; at += 1 + blob[at]; }
        a = blob[at];
        b = blob[at + 1 + a];
    }
    else n = (size_t)sym_pick(n + 1);
    g_n = a + n + b;
    g_s = (unsigned char*)sym_malloc(g_n, 1);
    memcpy(g_s, blob + at + 1, a);
    sym_bytes(g_s + a, n);
    memcpy(g_s + a + n, blob + at + 2 + a, b);
    return { (const char8_t*)g_s, g_n };
}
static void done() { sym_free(g_s); sym_assert(sym_heap_live() == 0, "memory is left allocated"); }
static unsigned low(unsigned c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
// The value of a digit in any base up to 36, or 99.
static int digit(unsigned c)
{
    if (c >= '0' && c <= '9') return (int)c - '0';
    unsigned l = low(c);
    return l >= 'a' && l <= 'z' && c < 128 ? (int)l - 'a' + 10 : 99;
}

// ------------------------------------------------------------------ character sets
template <size_t N>
static void charset_ops()
{
    using C = Charset<N>;
    C x, y;
    sym_bytes(&x, sizeof x);
    sym_bytes(&y, sizeof y);
    char8_t c = (char8_t)sym_u8(), d = (char8_t)sym_u8();
    if (N < 256) sym_assume(c < N && d < N);
    bool xc = x(c), yc = y(c);
    sym_assert((x | y)(c) == (xc || yc), "union");
    sym_assert((x & y)(c) == (xc && yc), "intersection");
    sym_assert((x - y)(c) == (xc && !yc), "difference");
    sym_assert((~x)(c) == !xc, "complement");
    sym_assert((x | d)(c) == (xc || c == d), "union with one character");
    sym_assert((x - d)(c) == (xc && c != d), "difference with one character");
    C z = x;
    z.insert(d);
    sym_assert(z(c) == (xc || c == d), "insertion");
    z = x;
    z.remove(d);
    sym_assert(z(c) == (xc && c != d), "removal");
    z = x;
    z |= y;
    sym_assert(z == (x | y), "compound union");
    z = x;
    z &= y;
    sym_assert(z == (x & y), "compound intersection");
    z = x;
    z -= y;
    sym_assert(z == (x - y), "compound difference");
    z = x;
    z |= d;
    sym_assert(z(c) == (xc || c == d), "compound union with one character");
    z = x;
    z -= d;
    sym_assert(z(c) == (xc && c != d), "compound difference with one character");
    z.clear();
    sym_assert(!z(c) && z == C(), "clearing");
    sym_assert(!C()(c), "the default set is empty");
    sym_assert(C(d)(c) == (c == d), "set of one character");
    char32_t w = (char32_t)sym_u32();
    if (N < 256) sym_assume(w < N || w > 255);
    sym_assert(x(w) == (w <= 255 && x((char8_t)w)), "code points beyond the set are in no set");
    // equality is having the same members
    if (x == y) sym_assert(xc == yc, "equal sets have the same members");
    z = x;
    if (x(d)) z.insert(d);
    else z.remove(d);
    sym_assert(z == x && !(z != x), "sets with the same members are equal");
    z = x;
    if (x(d)) z.remove(d);
    else z.insert(d);
    sym_assert(z != x, "sets with other members differ");
}
extern "C" void x_charset256() { charset_ops<256>(); }
extern "C" void x_charset128() { charset_ops<128>(); }
extern "C" void x_charset_make()
{
    size_t i = (size_t)sym_range(0, 255), j = (size_t)sym_u16();
    sym_assume(j <= 256 && i <= j);
    char8_t c = (char8_t)sym_u8();
    sym_assert(Charset256::range_before(i, j)(c) == (c >= i && c < j), "half-open range");
    if (j < 256) sym_assert(Charset256::range_until(i, j)(c) == (c >= i && c <= j), "closed range");
    SV s = text();
    bool in = false;
    for (size_t k = 0; k < g_n; k++) in |= g_s[k] == c;
    sym_assert(Charset256(s)(c) == in, "set of the characters of a text");
    done();
}

// ------------------------------------------------------------------ ASCII
template <class T>
static void ascii_chars(T c)
{
    uint32_t v = (uint32_t)c;
    bool dig = v >= '0' && v <= '9', up = v >= 'A' && v <= 'Z', lo = v >= 'a' && v <= 'z';
    bool af = v >= 'a' && v <= 'f', AF = v >= 'A' && v <= 'F';
    bool punct = (v > ' ' && v < 127) && !dig && !up && !lo;
    sym_assert(is_ascii(c) == (v < 128), "ASCII");
    sym_assert(is_ascii_digit(c) == dig, "digit");
    sym_assert(is_ascii_binary_digit(c) == (v == '0' || v == '1'), "binary digit");
    sym_assert(is_ascii_octal_digit(c) == (v >= '0' && v <= '7'), "octal digit");
    sym_assert(is_ascii_lower_hex_digit(c) == (dig || af), "lower-case hex digit");
    sym_assert(is_ascii_upper_hex_digit(c) == (dig || AF), "upper-case hex digit");
    sym_assert(is_ascii_hex_digit(c) == (dig || af || AF), "hex digit");
    sym_assert(is_ascii_upper_alpha(c) == up, "upper-case letter");
    sym_assert(is_ascii_lower_alpha(c) == lo, "lower-case letter");
    sym_assert(is_ascii_alpha(c) == (up || lo), "letter");
    sym_assert(is_ascii_alphanumeric(c) == (up || lo || dig), "letter or digit");
    sym_assert(is_ascii_punctuation(c) == punct, "punctuation");
    sym_assert(is_ascii_printing(c) == (v >= 32 && v < 127), "printing character");
    sym_assert((uint32_t)to_ascii_upper(c) == (lo ? v - 32 : v), "upper case");
    sym_assert((uint32_t)to_ascii_lower(c) == (up ? v + 32 : v), "lower case");
    int base = (int)sym_range(1, 36);
    sym_assert(is_ascii_digit_base(c, base) == (v < 128 && digit(v) < base), "digit in a base");
}
extern "C" void x_ascii_chars() { ascii_chars((char8_t)sym_u8()); }
extern "C" void x_ascii_chars32() { ascii_chars((char32_t)sym_u32()); }
extern "C" void x_ascii_sets()
{
    char8_t c = (char8_t)sym_u8();
    sym_assert(is_ascii_set(c) == is_ascii(c) && is_ascii_digit_set(c) == is_ascii_digit(c)
                   && is_ascii_binary_digit_set(c) == is_ascii_binary_digit(c) && is_ascii_octal_digit_set(c) == is_ascii_octal_digit(c)
                   && is_ascii_upper_alpha_set(c) == is_ascii_upper_alpha(c) && is_ascii_lower_alpha_set(c) == is_ascii_lower_alpha(c),
               "a set differs from its predicate");
    bool ws = c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r';
    sym_assert(contains(all_ascii_digit8, c) == is_ascii_digit(c), "list of digits");
    sym_assert(contains(all_ascii_lower_alpha8, c) == is_ascii_lower_alpha(c), "list of lower-case letters");
    sym_assert(contains(all_ascii_upper_alpha8, c) == is_ascii_upper_alpha(c), "list of upper-case letters");
    sym_assert(contains(all_ascii_alpha8, c) == is_ascii_alpha(c), "list of letters");
    sym_assert(contains(all_ascii_alphanumeric8, c) == is_ascii_alphanumeric(c), "list of letters and digits");
    sym_assert(contains(all_ascii_whitespace8, c) == ws, "list of whitespace");
    sym_assert(contains(all_cpp_whitespace8, c) == (ws || c == '\v'), "list of C++ whitespace");
    char32_t w = (char32_t)sym_u32();
    bool ws32 = w == ' ' || w == '\t' || w == '\n' || w == '\f' || w == '\r';
    sym_assert(contains(all_ascii_digit, w) == is_ascii_digit(w), "list of digits, UTF-32");
    sym_assert(contains(all_ascii_lower_alpha, w) == is_ascii_lower_alpha(w), "list of lower-case letters, UTF-32");
    sym_assert(contains(all_ascii_upper_alpha, w) == is_ascii_upper_alpha(w), "list of upper-case letters, UTF-32");
    sym_assert(contains(all_ascii_alpha, w) == is_ascii_alpha(w), "list of letters, UTF-32");
    sym_assert(contains(all_ascii_alphanumeric, w) == is_ascii_alphanumeric(w), "list of letters and digits, UTF-32");
    sym_assert(contains(all_ascii_whitespace, w) == ws32, "list of whitespace, UTF-32");
}
extern "C" void x_ascii_search()
{
    SV s = text();
    size_t from = (size_t)sym_pick(g_n + 1);
    char8_t k = (char8_t)sym_u8(), k2 = (char8_t)sym_u8();
    auto p = [k](char8_t c) { return c < k; };
    auto p2 = [k2](char8_t c) { return c != k2; };
    size_t yes = g_n, no = g_n, eq = g_n, ne = g_n, i;
    for (i = g_n; i > from; i--) {
        if (g_s[i - 1] < k) yes = i - 1;
        else no = i - 1;
        if (g_s[i - 1] == k) eq = i - 1;
        else ne = i - 1;
    }
    size_t npos = SV::npos;
    sym_assert(ascii::find_if(s, p, from) == (yes == g_n ? npos : yes), "find_if");
    sym_assert(ascii::find_if_not(s, p, from) == (no == g_n ? npos : no), "find_if_not");
    sym_assert(ascii::length_if(s, p, from) == no, "length_if");
    sym_assert(ascii::length_if_not(s, p, from) == yes, "length_if_not");
    sym_assert(ascii::length_before(s, k, from) == eq, "length_before");
    sym_assert(ascii::length_before_not(s, k, from) == ne, "length_before_not");
    sym_assert(ascii::length_until(s, k, from) == (eq == g_n ? g_n : eq + 1), "length_until");
    sym_assert(ascii::length_until_not(s, k, from) == (ne == g_n ? g_n : ne + 1), "length_until_not");
    if (from == 0) {
        size_t h = 0;
        if (g_n && g_s[0] < k)
            for (h = 1; h < g_n && g_s[h] != k2; h++) { }
        sym_assert(ascii::length_if_head_tail(s, p, p2) == h, "length_if_head_tail");
        bool all = true;
        for (i = 0; i < g_n; i++) all &= g_s[i] < 128;
        sym_assert(is_all_ascii(s) == all, "is_all_ascii");
    }
    done();
}
extern "C" void x_ascii_compare()
{
    SV s = text();
    size_t cut = (size_t)sym_pick(g_n + 1);
    SV x = s.substr(0, cut), y = s.substr(cut);
    const unsigned char *a = g_s, *b = g_s + cut;
    size_t m = cut, n = g_n - cut, i;
    int order = 0;
    for (i = 0; i < m && i < n && !order; i++) order = low(a[i]) < low(b[i]) ? -1 : low(a[i]) > low(b[i]) ? 1 : 0;
    if (!order) order = m < n ? -1 : m > n ? 1 : 0;
    auto r = ascii::compare_to_lower(x, y);
    sym_assert((r < 0) == (order < 0) && (r > 0) == (order > 0), "comparison in lower case");
    sym_assert(ascii::equals_ignore_case(x, y) == (order == 0), "equality without case");
    bool starts = m >= n;
    for (i = 0; starts && i < n; i++) starts = low(a[i]) == low(b[i]);
    sym_assert(ascii::starts_with_ignore_case(x, y) == starts, "prefix without case");
    bool has = n == 0;
    for (i = 0; !has && i + n <= m; i++) {
        has = true;
        for (size_t j = 0; has && j < n; j++) has = low(a[i + j]) == low(b[j]);
    }
    sym_assert(ascii::contains_ignore_case(x, y) == has, "infix without case");
    done();
}

// ------------------------------------------------------------------ digits and numbers
// Digits and separators from i on. Separators have to be alone between digits unless l(eading), t(railing) or r(epeated) ones are allowed.
static size_t digits_end(size_t i, int base, unsigned char sep, bool* bad, bool l = false, bool t = false, bool r = false)
{
    size_t from = i, first = 0, last = 0;
    unsigned pair = 0;
    bool some = false;
    for (; i < g_n; i++) {
        bool is = sep && g_s[i] == sep;
        if (!is && digit(g_s[i]) >= base) break;
        if (is) continue;
        if (!some) first = i;
        else pair |= (unsigned)(i - last > 2);
        some = true;
        last = i;
    }
    unsigned b = 0;
    if (i > from) {
        if (!some) b = 1;
        else b = ((unsigned)(first > from) & (unsigned)!l) | ((unsigned)(last + 1 < i) & (unsigned)!t) | (pair & (unsigned)!r)
            | ((unsigned)(first > from + 1) & (unsigned)!l) | ((unsigned)(last + 2 < i) & (unsigned)!r);
    }
    *bad |= b != 0;
    return i;
}
extern "C" void x_digits()
{
    SV s = text();
    int base = (int)sym_range(1, 36);
    bool bad = false;
    size_t e = digits_end(0, base, 0, &bad);
    sym_assert(match_digits(s, base) == e, "match_digits");
    Digits_Result r = match_digits_as_result(s, base);
    sym_assert(r.length == e && !r.erroneous && !!r == (e != 0), "match_digits_as_result");
    r = match_separated_digits(s, base, 0);
    sym_assert(r.length == e && !r.erroneous, "digits without separator");
    char8_t sep = sym_bool() ? u8'_' : u8'\'';
    e = digits_end(0, base, sep, &bad);
    r = match_separated_digits(s, base, sep);
    sym_assert(r.length == e, "length of digits with separators");
    sym_assert(r.erroneous == bad, "separators are leading, trailing or repeated");
    Separator_Rules rules { .leading = sym_bool(), .trailing = sym_bool(), .repeated = sym_bool() };
    bad = false;
    digits_end(0, base, sep, &bad, rules.leading, rules.trailing, rules.repeated);
    r = match_separated_digits(s, base, sep, rules);
    sym_assert(r.length == e, "length of digits with separators");
    sym_assert(r.erroneous == bad, "separators are leading, trailing or repeated, though not allowed to be");
    done();
}
static bool at(size_t i, const char* t)
{
    size_t l = strlen(t);
    if (i + l > g_n) return false;
    for (size_t k = 0; k < l; k++)
        if (g_s[i + k] != (unsigned char)t[k]) return false;
    return true;
}
static size_t cut_suffix(SV s) { return !s.empty() && s[0] == u8'x' ? 1 + (s.size() > 1 && s[1] == u8'y') : 0; }
extern "C" void x_number()
{
    SV s = text();
    int signs = (int)sym_pick(4), suffix_kind = (int)sym_pick(3);
    bool hexf = sym_pick(2), sepa = sym_pick(2), zero8 = sym_pick(2), ni = sym_bool(), nf = sym_bool();
    const Number_Prefix prefixes[] { { u8"0x", 16, hexf }, { u8"0b", 2 }, { u8"$", 16, hexf } };
    const Exponent_Separator exps[] { { u8"e+", 10 }, { u8"e-", 10 }, { u8"e", 10 }, { u8"p", 16 } };
    const SV suffixes[] { u8"ul", u8"u", u8"f" };
    Common_Number_Options o { .signs = (Matched_Signs)signs, .prefixes = prefixes, .exponent_separators = exps };
    if (suffix_kind == 1) o.suffixes = suffixes;
    if (suffix_kind == 2) o.match_suffix = Constant<&cut_suffix> {};
    if (zero8) o.default_leading_zero_base = 8;
    if (sepa) o.digit_separator = u8'_';
    o.nonempty_integer = ni;
    o.nonempty_fraction = nf;
    bool srep = false, strail = false, spre = false, sexp = false;
    if (sepa) srep = sym_bool(), strail = sym_bool(), spre = sym_bool(), sexp = sym_bool();
    o.repeated_separators = srep;
    o.trailing_separators = strail;
    o.separators_after_prefix = spre;
    o.leading_exponent_separators = sexp;
    // the definition
    Common_Number_Result w {};
    size_t i = 0;
    bool bad = false;
    if (g_n && ((g_s[0] == '-' && (signs & 1)) || (g_s[0] == '+' && (signs & 2)))) w.sign = i = 1;
    const char* pre[] { "0x", "0b", "$" };
    int base = 0;
    bool fl = true;
    for (int k = 0; k < 3 && !base; k++)
        if (at(i, pre[k])) {
            w.prefix = strlen(pre[k]);
            base = k == 1 ? 2 : 16;
            fl = k != 1 && hexf;
            i += w.prefix;
        }
    if (!base) base = zero8 && at(i, "0") ? 8 : 10;
    size_t e = digits_end(i, base, sepa ? '_' : 0, &bad, w.prefix && spre, strail, srep);
    w.integer = e - i;
    i = e;
    bad |= ni && !w.integer;
    bool number = w.prefix || w.integer, name = sepa && !w.prefix && at(w.sign, "_"); // like _1
    if (fl && !name && at(i, ".")) {
        if (number || (i + 1 < g_n && g_s[i + 1] >= '0' && g_s[i + 1] <= '9')) {
            number = true;
            w.radix_point = 1;
            e = digits_end(i + 1, base, sepa ? '_' : 0, &bad, false, strail, srep);
            w.fractional = e - i - 1;
            bad |= nf && !w.fractional;
            i = e;
        }
    }
    number &= !name;
    if (number) {
        const char* es[] { "e+", "e-", "e", "p" };
        for (int k = 0; k < 4 && fl; k++)
            if (at(i, es[k])) {
                w.exponent_sep = strlen(es[k]);
                i += w.exponent_sep;
                e = digits_end(i, 10, sepa ? '_' : 0, &bad, sexp, strail, srep);
                w.exponent_digits = e - i;
                bad |= e == i;
                i = e;
                break;
            }
        if (suffix_kind == 1) w.suffix = at(i, "ul") ? 2 : at(i, "u") || at(i, "f") ? 1 : 0;
        if (suffix_kind == 2) w.suffix = at(i, "xy") ? 2 : at(i, "x") ? 1 : 0;
        i += w.suffix;
        bad |= w.prefix && i == w.sign + w.prefix;
        w.length = i;
    }
    Common_Number_Result r = match_common_number(s, o);
    if (!number) {
        sym_cover("no number");
        sym_assert(!r && r.length == 0, "something that is no number was matched");
        done();
        return;
    }
    sym_assert(!!r, "a number was not matched");
    sym_assert(r.sign == w.sign && r.prefix == w.prefix, "sign or prefix");
    sym_assert(r.integer == w.integer && r.radix_point == w.radix_point && r.fractional == w.fractional, "digits");
    sym_assert(r.exponent_sep == w.exponent_sep && r.exponent_digits == w.exponent_digits, "exponent");
    sym_assert(r.suffix == w.suffix, "suffix");
    sym_assert(r.length == w.length, "length of the number");
    sym_assert(r.erroneous == bad, "erroneous number");
    sym_assert(r.extract_prefix(s).data() == s.data() + w.sign && r.extract_integer(s).data() == s.data() + w.sign + w.prefix
                   && r.extract_integer(s).size() == w.integer && r.extract_suffix(s).data() == s.data() + w.length - w.suffix
                   && r.extract_sign(s).size() == w.sign,
               "extracted parts");
    sym_assert(r.is_integer() == !(w.radix_point || w.exponent_sep), "integer or not");
    done();
}
static SV g_seen;
static Base_Suffix base_suffix(SV s)
{
    g_seen = s;
    switch (s.back()) {
    case u8'h': return { 1, 16 };
    case u8'b': return { 1, 2 };
    case u8'd': return { 1, 10 };
    default: return {};
    }
}
extern "C" void x_suffix_number()
{
    SV s = text();
    bool sepa = sym_pick(2);
    unsigned char sep = sepa ? '_' : 0;
    size_t n = 0;
    while (n < g_n && (digit(g_s[n]) < 36 || (sepa && g_s[n] == sep))) n++;
    int base = 0;
    if (n > 1) base = g_s[n - 1] == 'h' ? 16 : g_s[n - 1] == 'b' ? 2 : g_s[n - 1] == 'd' ? 10 : 0;
    auto r = match_suffix_number(s, Constant<&base_suffix> {}, sepa ? u8'_' : char8_t(0));
    if (!base) {
        sym_assert(!r, "a number without base suffix");
        done();
        return;
    }
    bool bad = false, was = true;
    for (size_t i = 0; i + 1 < n; i++) {
        bool is = sepa && g_s[i] == sep;
        bad |= is ? was : digit(g_s[i]) >= base;
        was = is;
    }
    bad |= was;
    sym_assert(g_seen.data() == s.data() && g_seen.size() == n, "the suffix is looked for in the whole word");
    if (bad && !(g_s[0] >= '0' && g_s[0] <= '9')) {
        sym_cover("word");
        sym_assert(!r, "a word that is no number");
    }
    else {
        sym_cover("number");
        sym_assert(!!r && r.digits == n - 1 && r.suffix == 1 && r.base == base, "parts of the number");
        sym_assert(r.erroneous == bad, "erroneous digits");
    }
    done();
}
extern "C" void x_integer()
{
    SV s = text();
    size_t i = 0;
    bool neg = sym_pick(2);
    if (neg) sym_assume(g_n && g_s[0] == '-');
    else sym_assume(!g_n || g_s[0] != '-');
    if (neg) i = 1;
    unsigned base = 10;
    if (at(i, "0b")) base = 2, i += 2;
    else if (at(i, "0x")) base = 16, i += 2;
    else if (at(i, "0")) base = 8;
    bool ok = i < g_n;
    unsigned __int128 v = 0;
    for (; i < g_n && ok; i++) {
        ok = digit(g_s[i]) < (int)base;
        if (ok) v = v * base + (unsigned)digit(g_s[i]);
        if (v >> 100) sym_ignore();
    }
    if (!neg) {
        auto u = parse_uinteger_literal(s);
        sym_assert(u.has_value() == (ok && !(v >> 64)), "unsigned integers that are accepted");
        if (u) sym_assert(*u == (unsigned long long)v, "value of an unsigned integer");
    }
    else sym_assert(!parse_uinteger_literal(s), "a negative number is not unsigned");
    auto r = parse_integer_literal(s);
    sym_assert(r.has_value() == (ok && v <= ((unsigned __int128)1 << 63) - !neg), "integers that are accepted");
    if (r) sym_assert((__int128)*r == (neg ? -(__int128)v : (__int128)v), "value of an integer");
    done();
}

// ------------------------------------------------------------------ lines and enclosed text
extern "C" void x_line()
{
    SV s = text();
    size_t c = 0, t = 0;
    while (c < g_n && g_s[c] != '\n' && g_s[c] != '\r') c++;
    if (c < g_n) t = g_s[c] == '\r' && c + 1 < g_n && g_s[c + 1] == '\n' ? 2 : 1;
    Line_Result r = match_crlf_line(s);
    sym_assert(r.content_length == c, "content of a line");
    sym_assert(r.terminator_length == t, "line terminator");
    done();
}
extern "C" void x_blank()
{
    SV s = text();
    // blank lines: those that end in \n and have only whitespace; the first maximal run of them
    size_t begin = 0, end = 0, line = 0;
    bool found = false, over = false;
    while (line < g_n && !over) {
        size_t e = line;
        bool blank = true;
        while (e < g_n && g_s[e] != '\n') {
            unsigned char c = g_s[e];
            blank &= c == ' ' || c == '\t' || c == '\r' || c == '\f';
            e++;
        }
        if (e == g_n) break;
        if (blank) {
            if (!found) begin = line;
            found = true;
            end = e + 1;
        }
        else over = found;
        line = e + 1;
    }
    Blank_Line b = find_blank_line_sequence(s);
    sym_assert(!!b == found, "blank lines are found");
    if (found) sym_assert(b.begin == begin && b.length == end - begin, "extent of the blank lines");
    done();
}
extern "C" void x_enclosed()
{
    SV s = text();
    char8_t a = (char8_t)sym_u8(), b = (char8_t)sym_u8(), c = (char8_t)sym_u8();
    {
        size_t len = 0;
        bool term = false;
        if (g_n && g_s[0] == a) {
            len = g_n;
            for (size_t i = 1; i < g_n && !term; i++)
                if (g_s[i] == b) len = i + 1, term = true;
        }
        Enclosed_Result r = match_enclosed(s, a, b);
        sym_assert(r.length == len && r.is_terminated == term && !!r == (len != 0), "text between two characters");
    }
    {
        char8_t suf[] { b, c };
        size_t len = 0;
        bool term = false;
        if (g_n && g_s[0] == a) {
            len = g_n;
            for (size_t i = 1; i + 1 < g_n && !term; i++)
                if (g_s[i] == b && g_s[i + 1] == c) len = i + 2, term = true;
        }
        Enclosed_Result r = match_enclosed(s, SV(&a, 1), SV(suf, 2));
        sym_assert(r.length == len && r.is_terminated == term, "text between a prefix and a suffix");
    }
    done();
}

// ------------------------------------------------------------------ escapes
static size_t run(size_t max, int base)
{
    size_t i = 0;
    while (i < g_n && i < max && digit(g_s[i]) < base) i++;
    return i;
}
static bool cont(size_t i) { return i < g_n && (g_s[i] & 0xC0) == 0x80; }
template <Common_Escape T>
static void fixed(SV s, size_t n, const char* msg)
{
    size_t d = run(n, 16), len = 0;
    Escape_Result r = match_common_escape<T>(s);
    sym_assert(r.erroneous == (d != n), msg);
    // An erroneous escape includes letters and digits only, so never a closing quote.
    while (len < n && len < g_n && digit(g_s[len]) < 36) len++;
    sym_assert(r.length == len, msg);
    Escape_Result q = match_common_escape<T>(s, 0);
    sym_assert(q == r, "escape after a prefix");
    if (g_n) {
        Escape_Result t = match_common_escape<T>(s, 1), u = match_common_escape<T>(s.substr(1));
        sym_assert(t.length == u.length + 1 && t.erroneous == u.erroneous, "escape after a prefix");
    }
}
template <Common_Escape T>
static void braced(SV s, int base, const char* msg)
{
    Escape_Result r = match_common_escape<T>(s);
    if (!g_n || g_s[0] != '{') {
        sym_assert(r.length == 0 && r.erroneous, msg);
        return;
    }
    size_t i = 1;
    bool bad = false;
    auto ends = [](unsigned char c) { return c == '}' || c == '"' || c == '\'' || c == '`' || c == '\\' || c == '\n' || c == '\r'; };
    while (i < g_n && !ends(g_s[i])) bad |= base && digit(g_s[i]) >= base, i++;
    bool closed = i < g_n && g_s[i] == '}';
    bad |= i == 1 || !closed;
    sym_assert(r.length == i + closed, msg);
    sym_assert(r.erroneous == bad, msg);
}
extern "C" void x_escape()
{
    SV s = text();
    using enum Common_Escape;
    size_t o2 = run(2, 8), o3 = run(3, 8), h2 = run(2, 16), h = run(99, 16);
    sym_assert(match_common_escape<octal_1_to_2>(s) == (Escape_Result { o2, o2 == 0 }), "one or two octal digits");
    sym_assert(match_common_escape<octal_1_to_3>(s) == (Escape_Result { o3, o3 == 0 }), "one to three octal digits");
    sym_assert(match_common_escape<octal_3>(s) == (Escape_Result { o3, o3 != 3 }), "three octal digits");
    sym_assert(match_common_escape<hex_1_to_2>(s) == (Escape_Result { h2, h2 == 0 }), "one or two hex digits");
    sym_assert(match_common_escape<hex_1_to_inf>(s) == (Escape_Result { h, h == 0 }), "hex digits");
    fixed<hex_2>(s, 2, "two hex digits");
    fixed<hex_4>(s, 4, "four hex digits");
    fixed<hex_8>(s, 8, "eight hex digits");
    braced<octal_braced>(s, 8, "octal digits in braces");
    braced<hex_braced>(s, 16, "hex digits in braces");
    braced<nonempty_braced>(s, 0, "characters in braces");
    size_t l = at(0, "\r\n") ? 2 : at(0, "\r") || at(0, "\n") ? 1 : 0;
    sym_assert(match_common_escape<lf_cr_crlf>(s) == (Escape_Result { l, l == 0 }), "line terminator");
    done();
}

// ------------------------------------------------------------------ buffers and function references
struct Sink {
    uint16_t got[32];
    size_t n = 0, calls = 0, last = 0, cap = 0;
    uint16_t* buf = nullptr;
    bool ok = true;
};
extern "C" void x_buffer()
{
    size_t cap = 1 + (size_t)sym_pick((uint64_t)sym_param("cap", 3)), steps = (size_t)sym_param("ops", 4);
    auto* mem = (uint16_t*)sym_malloc(cap * 2, 2);
    Sink k;
    k.cap = cap;
    k.buf = mem;
    auto take = [](const void* d, uint16_t* p, size_t n) {
        Sink& k = *(Sink*)d;
        k.ok &= p == k.buf && n != 0 && n <= k.cap;
        for (size_t i = 0; i < n; i++) k.got[k.n++] = p[i];
        k.calls++;
        k.last = n;
    };
    Non_Owning_Buffer<uint16_t> b { mem, cap, &k, take };
    uint16_t want[32];
    size_t n = 0; // elements so far
    bool early = false;
    sym_assert(b.capacity() == cap, "capacity");
    for (size_t s = 0; s < steps; s++) {
        size_t calls = k.calls, held = n - k.n;
        switch (sym_pick(7)) {
        case 0: {
            uint16_t v = sym_u16();
            want[n++] = v;
            sym_assert(b.push_back(v) == v, "push_back returns the element");
            break;
        }
        case 1: {
            const uint16_t v = sym_u16();
            want[n++] = v;
            sym_assert(&b.push_back(v) == &b.back(), "the element pushed is the last one");
            break;
        }
        case 2: {
            uint16_t v = sym_u16();
            want[n++] = v;
            sym_assert(b.emplace_back(v) == v, "emplace_back returns the element");
            break;
        }
        case 3: {
            uint16_t v[5];
            size_t m = (size_t)sym_pick(6);
            for (size_t i = 0; i < m; i++) want[n++] = v[i] = sym_u16();
            if (sym_pick(2)) b.append(v, v + m);
            else b.append_range(std::span<const uint16_t>(v, m));
            break;
        }
        case 4:
            b.flush();
            early = true;
            sym_assert(k.calls == calls + (held != 0) && b.empty(), "flushing");
            break;
        case 5:
            n -= held;
            b.clear();
            sym_assert(k.calls == calls && b.empty(), "clearing");
            early = true;
            break;
        default: {
            struct It { // an input iterator that is not random access
                using value_type = uint16_t;
                using difference_type = ptrdiff_t;
                const uint16_t* p;
                uint16_t operator*() const { return *p; }
                It& operator++() { ++p; return *this; }
                void operator++(int) { ++p; }
                bool operator==(const It& o) const { return p == o.p; }
            };
            uint16_t v[3];
            size_t m = (size_t)sym_pick(4);
            for (size_t i = 0; i < m; i++) want[n++] = v[i] = sym_u16();
            b.append(It { v }, It { v + m });
        }
        }
        sym_assert(k.ok, "a flush passed something else than the buffer");
        sym_assert(early || k.calls == calls || k.last == cap, "flushed while there was room");
        early = false;
        sym_assert(b.size() + k.n == n && b.size() <= cap, "size");
        sym_assert(b.available() == cap - b.size() && b.full() == (b.size() == cap) && b.empty() == (b.size() == 0), "room");
        if (!b.empty()) sym_assert(b.back() == want[n - 1] && std::as_const(b).back() == want[n - 1], "last element");
    }
    b.flush();
    sym_assert(k.n == n && b.empty(), "elements are lost or doubled");
    for (size_t i = 0; i < n; i++) sym_assert(k.got[i] == want[i], "an element changed");
    sym_free(mem);
    sym_assert(sym_heap_live() == 0, "memory is left allocated");
}
static uint32_t f_free(uint32_t a, uint16_t b) { return a * 3 + b; }
static uint32_t f_free_no(uint32_t a, uint16_t b) noexcept { return a * 5 + b; }
static uint32_t f_narrow(uint32_t a, uint16_t b) noexcept { return a ^ b; }
static uint32_t f_member(uint32_t* e, uint32_t a, uint16_t b) { return *e += a * 7 + b; }
extern "C" void x_function_ref()
{
    using F = Function_Ref<uint32_t(uint32_t, uint16_t)>;
    uint32_t a = sym_u32(), cap = sym_u32();
    uint16_t b = sym_u16();
    F none;
    sym_assert(!none && !none.has_value() && none.get_invoker() == nullptr && none.get_entity() == nullptr, "an empty reference");
    F f1 = f_free, f2 = &f_free_no, f3 = Constant<&f_free> {}, f4 { Constant<&f_member> {}, &cap };
    sym_assert(f1 && f2 && f3 && f4, "a reference that is not empty");
    sym_assert(f1(a, b) == a * 3 + b, "reference to a function");
    sym_assert(f2(a, b) == a * 5 + b, "reference to a function pointer");
    sym_assert(f3(a, b) == a * 3 + b, "reference to a constant");
    uint32_t was = cap;
    sym_assert(f4(a, b) == was + a * 7 + b && cap == was + a * 7 + b, "reference to a constant with an entity");
    sym_assert(f4.get_entity() == &cap, "entity");
    uint32_t (*volatile vp)(uint32_t, uint16_t) = f_free;
    uint32_t (*ptr)(uint32_t, uint16_t) = vp;
    F f5 = ptr;
    ptr = nullptr;
    sym_assert(f5(a, b) == a * 3 + b, "reference to a pointer that changed later");
    uint32_t state = cap;
    auto lam = [&state, n = 0u](uint32_t x, uint16_t y) mutable -> uint32_t { n++; state += n; return x - y + state; };
    F f6 = lam;
    F f7 = f6;
    uint32_t s0 = state;
    sym_assert(f6(a, b) == a - b + s0 + 1 && f7(a, b) == a - b + s0 + 3 && state == s0 + 3, "reference to an object with state");
    F f8 = [](uint32_t x, uint16_t y) -> uint32_t { return x | y; };
    sym_assert(f8(a, b) == (a | b), "reference to a lambda without captures");
    F f9 = [](uint64_t x, uint32_t y) -> uint64_t { return x + y; };
    sym_assert(f9(a, b) == a + b, "reference to a lambda of another signature");
    const auto clam = [cap](uint32_t x, uint16_t y) -> uint32_t { return x + y + cap; };
    Function_Ref<uint32_t(uint32_t, uint16_t) const> g1 = clam;
    sym_assert(g1(a, b) == a + b + cap, "reference to a constant object");
    Function_Ref<uint32_t(uint32_t, uint16_t) noexcept> g2 = f_free_no;
    sym_assert(g2(a, b) == a * 5 + b, "reference to a function that does not throw");
    Function_Ref<uint32_t(uint32_t, uint16_t) const noexcept> g3 = Constant<&f_narrow> {};
    sym_assert(g3(a, b) == (a ^ b), "reference to a constant that does not throw");
    uint32_t out = 0;
    auto set = [&out](uint32_t x) { out = x; };
    Function_Ref<void(uint32_t)> h = set;
    h(a);
    sym_assert(out == a, "reference without result");
    F f10 { f6.get_invoker(), f6.get_entity() };
    s0 = state;
    sym_assert(f10(a, b) == a - b + s0 + 3, "reference made of its parts");
}
