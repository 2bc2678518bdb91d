// Highlighting: every property that is stated over (source, language, flags, buffers).
#include "src.h"

// ------------------------------------------------------------------ H01
static void ignore_flush(const void*, ulight_token*, size_t) { }
extern "C" void hl_status()
{
    size_t live = sym_heap_live();
    make_source();
    ulight_token tok[4];
    ulight_state st;
    base_state(st, tok, 4, ignore_flush);
    ulight_status r = ulight_source_to_tokens(&st);
    sym_log(1, r);
    if (r != ULIGHT_STATUS_OK) {
        sym_assert(r == ULIGHT_STATUS_BAD_TEXT, "status is neither ok nor bad_text");
        sym_assert(!source_valid(), "bad_text for a well-formed source");
        sym_assert(st.error && st.error_length, "failure without an error text");
        sym_cover("bad_text");
    } else {
        sym_cover("ok");
    }
    done();
    sym_assert(sym_heap_live() == live, "memory leaked");
}

// ------------------------------------------------------------------ H02
static size_t g_last, g_count;
static void wf_flush(const void*, ulight_token* t, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        g_count++;
        sym_assert(t[i].length > 0, "token is empty");
        sym_assert(t[i].begin >= g_last, "token overlaps its predecessor or is out of order");
        sym_assert(t[i].begin < g_len && t[i].length <= g_len - t[i].begin, "token reaches beyond the source");
        ulight_string_view nm = ulight_highlight_type_long_string((ulight_highlight_type)t[i].type);
        sym_assert(t[i].type != ULIGHT_HL_NONE, "token has the type meaning no highlighting");
        sym_assert(nm.text != nullptr && nm.length > 0, "token has an undefined highlight type");
        sym_log(3, t[i].begin); sym_log(4, t[i].length); sym_log(5, t[i].type);
        g_last = t[i].begin + t[i].length;
    }
    sym_cover("token flushed");
}
extern "C" void hl_tokens()
{
    make_source();
    size_t cap = (size_t)sym_param("cap", 1);
    ulight_token tok[8];
    ulight_state st;
    base_state(st, tok, cap, wf_flush);
    ulight_status r = ulight_source_to_tokens(&st);
    sym_assert(r == ULIGHT_STATUS_OK || (r == ULIGHT_STATUS_BAD_TEXT && !source_valid()),
        "no token list: highlighting failed");
    done();
}

// ------------------------------------------------------------------ H03
extern "C" void hl_memory()
{
    make_source();
    size_t cap = (size_t)sym_pick((uint64_t)sym_param("maxcap", 3)) + 1;
    ulight_token* tok = (ulight_token*)sym_malloc(cap * sizeof(ulight_token), 8);
    ulight_state st;
    base_state(st, tok, cap, ignore_flush);
    size_t live = sym_heap_live();
    ulight_status r = ulight_source_to_tokens(&st);
    sym_log(1, r);
    sym_assert(sym_heap_live() == live, "memory leaked");
    sym_assert(r != ULIGHT_STATUS_INTERNAL_ERROR, "internal error (a range check failed)");
    sym_free(tok);
    done();
}

// ------------------------------------------------------------------ per-byte classification
static unsigned char g_cls[2][512], g_start[2][512];
static size_t g_ntok[2];
static int g_run;
static void cls_flush(const void*, ulight_token* t, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        sym_assert(t[i].begin <= g_len && t[i].length <= g_len - t[i].begin, "token reaches beyond the source");
        for (size_t k = 0; k < t[i].length; k++) g_cls[g_run][t[i].begin + k] = t[i].type;
        if (t[i].length) g_start[g_run][t[i].begin] = 1;
        g_ntok[g_run]++;
    }
}
static ulight_status run_cls(int run, size_t cap, ulight_lang lang, int flags)
{
    ulight_token tok[64];
    ulight_state st;
    base_state(st, tok, cap, cls_flush);
    st.lang = lang;
    st.flags = (ulight_flag)flags;
    g_run = run;
    for (size_t i = 0; i < g_len; i++) g_cls[run][i] = g_start[run][i] = 0;
    g_ntok[run] = 0;
    return ulight_source_to_tokens(&st);
}
static void same_cls(const char* msg)
{
    for (size_t i = 0; i < g_len; i++) sym_assert(g_cls[0][i] == g_cls[1][i], msg);
    sym_cover("compared");
}
// H04: capacity 1 against capacities 2, 3 and 64
extern "C" void hl_capacity()
{
    make_source();
    // "all" capacities up to a limit, one per template ("spread"), or 1 against some others.
    static const unsigned char caps[] = { 64, 2, 3, 5 };
    size_t all = (size_t)sym_param("all", 0), spread = (size_t)sym_param("spread", 0), low = 1, cap;
    if (all) { low = 1 + sym_pick(all); cap = 64; }
    else if (spread) { low = 1 + g_tmpl % spread; cap = 64; }
    else cap = caps[sym_pick((uint64_t)sym_param("ncap", 2))];
    ulight_lang l = (ulight_lang)sym_param("lang", 1);
    int flags = (int)sym_param("flags", 0);
    ulight_status a = run_cls(0, low, l, flags), b = run_cls(1, cap, l, flags);
    sym_assert(a == b, "status depends on the token buffer capacity");
    sym_log(1, a);
    same_cls("classification depends on the token buffer capacity");
    if (a == ULIGHT_STATUS_OK) {
        sym_assert(g_ntok[0] == g_ntok[1], "the number of tokens depends on the token buffer capacity");
        for (size_t i = 0; i < g_len; i++) sym_assert(g_start[0][i] == g_start[1][i], "where tokens start depends on the token buffer capacity");
    }
    for (size_t i = 0; i < g_len; i++) sym_log(2, g_cls[0][i]);
    done();
}
// H06: without and with coalescing; strictness fixed by "flags"
static size_t c_last; static unsigned char c_type; static bool c_any;
static void coal_flush(const void* d, ulight_token* t, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        if (c_any && t[i].begin == c_last) {
            sym_cover("adjacent tokens");
            if (!sym_param("nested", 0)) sym_assert(t[i].type != c_type, "coalescing left two touching tokens of one type");
        }
        c_any = true; c_last = t[i].begin + t[i].length; c_type = t[i].type;
    }
    cls_flush(d, t, n);
}
extern "C" void hl_coalesce()
{
    make_source();
    ulight_lang l = (ulight_lang)sym_param("lang", 1);
    int flags = (int)sym_param("flags", 0);
    ulight_status a = run_cls(0, 64, l, flags);
    ulight_token tok[256];
    ulight_state st;
    base_state(st, tok, 256, coal_flush);
    st.flags = (ulight_flag)(flags | ULIGHT_COALESCE);
    g_run = 1;
    for (size_t i = 0; i < g_len; i++) g_cls[1][i] = 0;
    g_ntok[1] = 0;
    ulight_status b = ulight_source_to_tokens(&st);
    sym_assert(a == b, "status depends on the coalescing flag");
    same_cls("coalescing changes the classification");
    sym_assert(g_ntok[1] <= g_ntok[0], "coalescing produces more tokens");
    sym_log(1, g_ntok[0]); sym_log(2, g_ntok[1]);
    done();
}
// H07: two languages that must agree (TeX and LaTeX; JSON and JSONC on sources without '/')
extern "C" void hl_alias()
{
    make_source();
    ulight_lang l1 = (ulight_lang)sym_param("lang", 14), l2 = (ulight_lang)sym_param("lang2", 15);
    int flags = (int)sym_param("flags", 0);
    if (sym_param("noslash", 0)) for (size_t i = 0; i < g_holelen; i++) sym_assume(g_src[g_hole + i] != '/');
    ulight_status a = run_cls(0, 4, l1, flags), b = run_cls(1, 4, l2, flags);
    sym_assert(a == b, "status differs between the two languages");
    same_cls("classification differs between the two languages");
    sym_assert(g_ntok[0] == g_ntok[1], "token count differs between the two languages");
    sym_log(1, g_ntok[0]);
    done();
}
extern "C" void hl_txt()
{
    make_source();
    ulight_status a = run_cls(0, 1, ULIGHT_LANG_TXT, (int)sym_param("flags", 0));
    sym_assert(a == ULIGHT_STATUS_OK && g_ntok[0] == 0, "plain text produced a token");
    sym_cover("compared");
    done();
}
// H07: neither the same call nor calls with other flags or another language change a later call
struct Outcome { ulight_status status; size_t tokens; uint8_t cls[300]; ulight_flag flags; };
static void outcome_flush(const void* d, ulight_token* t, size_t n)
{
    Outcome& o = *(Outcome*)d;
    o.tokens += n;
    for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < t[i].length; j++) if (t[i].begin + j < g_len && t[i].begin + j < sizeof o.cls) o.cls[t[i].begin + j] = (uint8_t)t[i].type;
}
static void outcome_run(void* p)
{
    Outcome& o = *(Outcome*)p;
    ulight_token tok[4];
    ulight_state st;
    base_state(st, tok, 4, outcome_flush);
    st.flags = o.flags;
    st.flush_tokens_data = &o;
    o.tokens = 0;
    for (size_t i = 0; i < g_len && i < sizeof o.cls; i++) o.cls[i] = 0;
    o.status = ulight_source_to_tokens(&st);
}
static void outcome_same(const Outcome& a, const Outcome& b)
{
    sym_assert(a.status == b.status, "status depends on earlier calls");
    sym_assert(a.tokens == b.tokens, "number of tokens depends on earlier calls");
    uint64_t d = 0;
    for (size_t i = 0; i < g_len && i < sizeof a.cls; i++) d |= a.cls[i] ^ b.cls[i];
    sym_assert(d == 0, "classification depends on earlier calls");
}
extern "C" void hl_repeat()
{
    make_source();
    ulight_lang other = (ulight_lang)sym_param("lang2", 1);
    int flags = (int)sym_param("flags", 0);
    Outcome* first = (Outcome*)sym_shared(sizeof(Outcome));
    first->flags = (ulight_flag)flags;
    sym_fresh(outcome_run, first);
    static Outcome o;
    o.flags = (ulight_flag)(flags ^ 3);
    outcome_run(&o);
    o.flags = (ulight_flag)flags;
    outcome_run(&o);
    outcome_same(*first, o);
    ulight_token t2[4];
    ulight_state s2;
    base_state(s2, t2, 4, ignore_flush);
    s2.lang = other;
    ulight_source_to_tokens(&s2);
    outcome_run(&o);
    outcome_same(*first, o);
    sym_log(1, o.tokens);
    done();
}

// ------------------------------------------------------------------ H05
static ulight_token* f_buf; static size_t f_cap, f_calls, f_total, f_last; static bool f_done;
static int f_data;
static void proto_flush(const void* d, ulight_token* t, size_t n)
{
    sym_assert(d == &f_data, "flush got the wrong user data");
    sym_assert(t == f_buf, "flush got a pointer other than the token buffer");
    sym_assert(n >= 1 && n <= f_cap, "flush got an impossible token count");
    sym_assert(!f_done, "flush called again after a partial flush");
    if (n < f_cap) f_done = true;
    f_calls++; f_total += n;
    for (size_t i = 0; i < n; i++) {
        sym_assert(t[i].begin >= f_last, "tokens are delivered twice or out of order");
        f_last = t[i].begin + t[i].length;
        for (size_t k = 0; k < t[i].length; k++) g_cls[0][t[i].begin + k] = t[i].type;
        t[i].begin = t[i].length = 0xdddddddd; t[i].type = 0xdd; // the callee may reuse the buffer freely
    }
    sym_cover(n == f_cap ? "full flush" : "final flush");
}
extern "C" void hl_flush()
{
    make_source();
    ulight_token tok[8];
    f_cap = (size_t)sym_param("cap", 2); f_buf = tok + 1;
    tok[0] = { 11, 12, 13 }; tok[f_cap + 1] = { 14, 15, 16 };
    for (size_t i = 0; i < g_len; i++) g_cls[0][i] = 0;
    ulight_state st;
    base_state(st, f_buf, f_cap, proto_flush);
    st.flush_tokens_data = &f_data;
    ulight_status r = ulight_source_to_tokens(&st);
    sym_assert(r != ULIGHT_STATUS_INTERNAL_ERROR, "internal error");
    sym_assert(tok[0].begin == 11 && tok[0].length == 12 && tok[0].type == 13, "wrote before the token buffer");
    sym_assert(tok[f_cap + 1].begin == 14 && tok[f_cap + 1].length == 15 && tok[f_cap + 1].type == 16, "wrote behind the token buffer");
    sym_assert(st.source == g_src && st.source_length == g_len && st.token_buffer == f_buf && st.token_buffer_length == f_cap,
        "the caller's state was modified");
    sym_log(1, f_calls); sym_log(2, f_total);
    // nothing is lost: a single large buffer delivers the same classification
    if (r == ULIGHT_STATUS_OK) {
        run_cls(1, 64, (ulight_lang)sym_param("lang", 1), (int)sym_param("flags", 0));
        same_cls("a token was lost or changed between flushes");
    }
    done();
}

// ------------------------------------------------------------------ H10
extern "C" void hl_alloc()
{
    make_source();
    ulight_token tok[4];
    ulight_state st;
    base_state(st, tok, 4, ignore_flush);
    size_t live = sym_heap_live();
    uint64_t k = sym_range(1, (uint64_t)sym_param("maxfail", 6)); // stays symbolic: only an allocation splits on it
    sym_alloc_count = 0;
    sym_fail_at = k;
    ulight_status r = ulight_source_to_tokens(&st);
    sym_fail_at = 0;
    bool failed = sym_alloc_count >= k;
    sym_log(1, r);
    if (failed) {
        sym_cover("allocation failed");
        sym_assert(r == ULIGHT_STATUS_BAD_ALLOC || r == ULIGHT_STATUS_OK || r == ULIGHT_STATUS_BAD_CODE, "allocation failure reported as another status");
        sym_assert(r == ULIGHT_STATUS_BAD_ALLOC, "allocation failure not reported");
        sym_assert(st.error && st.error_length, "allocation failure without an error text");
    } else sym_assert(r != ULIGHT_STATUS_BAD_ALLOC, "bad_alloc although every allocation succeeded");
    sym_assert(sym_heap_live() == live, "memory leaked after an allocation failure");
    // the library is usable afterwards
    ulight_status r2 = ulight_source_to_tokens(&st);
    sym_assert(r2 != ULIGHT_STATUS_BAD_ALLOC && r2 != ULIGHT_STATUS_INTERNAL_ERROR, "state unusable after an allocation failure");
    done();
}

// ------------------------------------------------------------------ H13
static bool inside_code_point(size_t i) { return i < g_len && ((unsigned char)g_src[i] & 0xC0) == 0x80; }
static void boundary_flush(const void*, ulight_token* t, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        sym_assert(!inside_code_point(t[i].begin), "token begins inside a code point");
        sym_assert(!inside_code_point(t[i].begin + t[i].length), "token ends inside a code point");
        sym_log(3, t[i].begin); sym_log(4, t[i].length);
    }
    sym_cover("token flushed");
}
extern "C" void hl_boundaries()
{
    make_source();
    sym_assume(source_valid());
    ulight_token tok[8];
    ulight_state st;
    base_state(st, tok, 8, boundary_flush);
    ulight_status r = ulight_source_to_tokens(&st);
    sym_assert(r == ULIGHT_STATUS_OK, "a well-formed source is rejected");
    done();
}
