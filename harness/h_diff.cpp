// Line diffs: the edit script is a shortest one, and the printed hunks turn one text into the other.
#include "sym.h"
#include <algorithm>
#include <cstring>
#include <memory_resource>
#include <ostream>
#include <span>
#include <string_view>
#include <vector>
// The printing functions are compiled against an output stream that only records.
namespace std {
struct vp_ostream {
    char b[1024];
    size_t n = 0;
    void put(const char* p, size_t k)
    {
        sym_assert(n + k <= sizeof b, "the output is too long");
        memcpy(b + n, p, k);
        n += k;
    }
};
inline vp_ostream& operator<<(vp_ostream& o, std::string_view s) { o.put(s.data(), s.size()); return o; }
inline vp_ostream& operator<<(vp_ostream& o, const char* s) { o.put(s, strlen(s)); return o; }
inline vp_ostream& operator<<(vp_ostream& o, char c) { o.put(&c, 1); return o; }
inline vp_ostream& operator<<(vp_ostream& o, unsigned long v)
{
    char t[24];
    size_t i = sizeof t;
    do t[--i] = char('0' + v % 10);
    while (v /= 10);
    o.put(t + i, sizeof t - i);
    return o;
}
}
// The runtime's default memory resource, spelled out so that it is part of the encoding.
namespace {
struct New_Resource final : std::pmr::memory_resource {
    void* do_allocate(size_t n, size_t a) override { return ::operator new(n, std::align_val_t(a)); }
    void do_deallocate(void* p, size_t n, size_t a) override { ::operator delete(p, n, std::align_val_t(a)); }
    bool do_is_equal(const memory_resource& o) const noexcept override { return &o == this; }
} g_new;
}
std::pmr::memory_resource* std::pmr::get_default_resource() noexcept { return &g_new; }
#define ostream vp_ostream
#include "ulight/impl/string_diff.hpp"
#undef ostream
using namespace ulight;
using SV = std::u8string_view;
struct Lines {
    SV l[16];
    size_t n = 0;
};
static void ref_split(Lines& o, SV s)
{
    size_t b = 0;
    for (size_t i = 0; i <= s.size(); i++)
        if (i == s.size() || s[i] == '\n') o.l[o.n++] = s.substr(b, i - b), b = i + 1;
}
extern "C" void d_split()
{
    size_t n = (size_t)sym_pick((uint64_t)sym_param("n", 5) + 1);
    char* p = sym_buffer(n);
    SV s((const char8_t*)p, n);
    Lines w;
    ref_split(w, s);
    {
        std::vector<SV> r;
        split_lines(r, s);
        sym_assert(r.size() == w.n, "number of lines");
        for (size_t i = 0; i < w.n; i++) sym_assert(r[i].data() == w.l[i].data() && r[i].size() == w.l[i].size(), "extent of a line");
    }
    sym_free(p);
    sym_assert(sym_heap_live() == 0, "memory is left allocated");
}
static size_t lcs(const SV* a, size_t m, const SV* b, size_t n)
{
    size_t t[8][8] {};
    for (size_t i = 1; i <= m; i++)
        for (size_t j = 1; j <= n; j++) t[i][j] = a[i - 1] == b[j - 1] ? t[i - 1][j - 1] + 1 : t[i - 1][j] > t[i][j - 1] ? t[i - 1][j] : t[i][j - 1];
    return t[m][n];
}
extern "C" void d_script()
{
    size_t m = (size_t)sym_pick((uint64_t)sym_param("from", 3) + 1), n = (size_t)sym_pick((uint64_t)sym_param("to", 3) + 1);
    unsigned kinds = (unsigned)sym_param("kinds", 3);
    char* p = (char*)sym_malloc(m + n, 1);
    SV l[16];
    for (size_t i = 0; i < m + n; i++) {
        p[i] = (char)('a' + sym_pick(kinds));
        l[i] = SV((const char8_t*)p + i, 1);
    }
    {
        auto r = shortest_edit_script(std::span<const SV>(l, m), std::span<const SV>(l + m, n));
        size_t i = 0, j = 0, common = 0;
        bool ins = false;
        for (Edit_Type e : r) {
            if (e == Edit_Type::common) {
                sym_assert(i < m && j < n && l[i] == l[m + j], "a line that is kept differs");
                i++, j++, common++;
                ins = false;
            }
            else if (e == Edit_Type::del) {
                sym_assert(i < m, "more lines deleted than there are");
                sym_assert(!ins, "a deletion follows an insertion");
                i++;
            }
            else {
                sym_assert(e == Edit_Type::ins && j < n, "more lines inserted than there are");
                ins = true;
                j++;
            }
        }
        sym_assert(i == m && j == n, "the script does not cover both texts");
        sym_assert(common == lcs(l, m, l + m, n), "the script is not a shortest one");
    }
    sym_free(p);
    sym_assert(sym_heap_live() == 0, "memory is left allocated");
}
static size_t number(const char* b, size_t n, size_t& i)
{
    size_t v = 0, from = i;
    while (i < n && b[i] >= '0' && b[i] <= '9') v = v * 10 + size_t(b[i++] - '0');
    sym_assert(i > from, "a number is missing in the header of a hunk");
    return v;
}
static void expect(const char* b, size_t n, size_t& i, const char* t)
{
    size_t k = strlen(t);
    sym_assert(i + k <= n && memcmp(b + i, t, k) == 0, "malformed hunk");
    i += k;
}
static void expect_line(const char* b, size_t n, size_t& i, SV l)
{
    for (char8_t c : l) {
        if (c == '\t') expect(b, n, i, "\\t");
        else if (c == '\r') expect(b, n, i, "\\r");
        else if (c == '\v') expect(b, n, i, "\\v");
        else {
            sym_assert(i < n && b[i] == (char)c, "a printed line differs");
            i++;
        }
    }
    expect(b, n, i, "\n");
}
extern "C" void d_print()
{
    size_t n = (size_t)sym_param("n", 5), cut = (size_t)sym_pick(n + 1), context = (size_t)sym_pick((uint64_t)sym_param("context", 2) + 1);
    unsigned char* p = (unsigned char*)sym_malloc(n, 1);
    for (size_t k = 0; k < n; k++) {
        p[k] = sym_u8();
        sym_assume(p[k] != 27); // what is not coloured
        if (sym_param("few", 0)) sym_assume(p[k] == '\n' || p[k] == 'a' || p[k] == 'b');
    }
    SV from((const char8_t*)p, cut), to((const char8_t*)p + cut, n - cut);
    Lines a, b;
    ref_split(a, from);
    ref_split(b, to);
    std::vp_ostream o, c;
    print_lines_diff(o, from, to, context, false);
    print_lines_diff(c, from, to, context, true);
    size_t i = 0, x = 0, y = 0;
    bool same = from == to;
    sym_assert((o.n == 0) == same, "hunks are printed exactly for texts that differ");
    size_t kept = 0, hunks = 0;
    while (i < o.n) {
        expect(o.b, o.n, i, "@@ -");
        size_t fs = number(o.b, o.n, i);
        expect(o.b, o.n, i, ",");
        size_t fc = number(o.b, o.n, i);
        expect(o.b, o.n, i, " +");
        size_t ts = number(o.b, o.n, i);
        expect(o.b, o.n, i, ",");
        size_t tc = number(o.b, o.n, i);
        expect(o.b, o.n, i, " @@\n");
        sym_assert(fs > x && ts > y && fs - 1 - x == ts - 1 - y, "hunks are out of order");
        if (hunks) sym_assert(fs - 1 > x, "touching hunks");
        for (; x < fs - 1; x++, y++) {
            sym_assert(x < a.n && y < b.n && a.l[x] == b.l[y], "a difference is in no hunk");
            kept++;
        }
        size_t run = 0, fe = x + fc, te = y + tc;
        bool any = false, first = x == 0 && y == 0;
        while (i < o.n && o.b[i] != '@') {
            char k = o.b[i++];
            if (k == ' ') {
                sym_assert(x < a.n && y < b.n && a.l[x] == b.l[y], "context that is not common");
                expect_line(o.b, o.n, i, a.l[x]);
                x++, y++, run++, kept++;
                continue;
            }
            if (any) sym_assert(run <= 2 * context, "one hunk where there should be two");
            else sym_assert(run == context || (run < context && first), "context before the changes");
            run = 0;
            any = true;
            if (k == '-') {
                sym_assert(x < a.n, "deleted line that is not there");
                expect_line(o.b, o.n, i, a.l[x++]);
            }
            else {
                sym_assert(k == '+' && y < b.n, "inserted line that is not there");
                expect_line(o.b, o.n, i, b.l[y++]);
            }
        }
        sym_assert(any, "a hunk without a change");
        sym_assert(run <= context && (run == context || x == a.n), "context after the changes");
        sym_assert(x == fe && y == te, "the header of a hunk counts other lines than it has");
        hunks++;
    }
    for (; x < a.n; x++, y++, kept++) sym_assert(y < b.n && a.l[x] == b.l[y], "a difference is in no hunk");
    sym_assert(y == b.n, "a difference is in no hunk");
    sym_assert(kept == lcs(a.l, a.n, b.l, b.n) , "more is deleted or inserted than necessary");
    // colours are all that is added
    size_t q = 0;
    for (size_t k = 0; k < c.n;) {
        if (c.b[k] == 27) {
            while (k < c.n && c.b[k] != 'm') k++;
            sym_assert(k < c.n, "a colour code does not end");
            k++;
            continue;
        }
        sym_assert(q < o.n && c.b[k] == o.b[q], "the coloured output differs");
        q++, k++;
    }
    sym_assert(q == o.n, "the coloured output is shorter");
    sym_free(p);
    sym_assert(sym_heap_live() == 0, "memory is left allocated");
}
