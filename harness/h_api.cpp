// The C API around the highlighters: HTML output, argument checks, faults, the registry of languages,
// the strings of the highlight types, and the C++ wrapper.
#include "src.h"
#include "ulight/ulight.hpp"
#include "ulight/function_ref.hpp"
#include <cstring>
#include <new>

// ------------------------------------------------------------------ tokens for reference
static ulight_token g_tok[700];
static size_t g_ntok;
static void collect(const void*, ulight_token* t, size_t n)
{
    for (size_t i = 0; i < n; i++) g_tok[g_ntok++] = t[i];
}
static ulight_status reference_tokens()
{
    ulight_token tok[64];
    ulight_state st;
    base_state(st, tok, 64, collect);
    g_ntok = 0;
    return ulight_source_to_tokens(&st);
}

// ------------------------------------------------------------------ H08
static char g_exp[40000], g_out[40000];
static size_t g_nexp, g_nout;
static void exp_str(const char* s, size_t n) { for (size_t i = 0; i < n; i++) g_exp[g_nexp++] = s[i]; }
static void exp_escaped(size_t from, size_t to)
{
    for (size_t i = from; i < to; i++) {
        if (g_src[i] == '<') exp_str("&lt;", 4);
        else if (g_src[i] == '>') exp_str("&gt;", 4);
        else if (g_src[i] == '&') exp_str("&amp;", 5);
        else g_exp[g_nexp++] = g_src[i];
    }
}
static char* h_buf; static size_t h_cap, h_calls; static bool h_done; static int h_data;
static void html_flush(const void* d, char* t, size_t n)
{
    sym_assert(d == &h_data, "flush_text got the wrong user data");
    sym_assert(t == h_buf, "flush_text got a pointer other than the text buffer");
    sym_assert(n >= 1 && n <= h_cap, "flush_text got an impossible length");
    sym_assert(!h_done, "flush_text called again after a partial flush");
    if (n < h_cap) h_done = true;
    h_calls++;
    for (size_t i = 0; i < n; i++) { g_out[g_nout++] = t[i]; t[i] = (char)0xdd; } // the callee may reuse the buffer
}
extern "C" void api_html()
{
    make_source();
    ulight_status expected = reference_tokens();
    size_t tcap = (size_t)sym_pick((uint64_t)sym_param("maxcap", 2)) + 1;
    static const unsigned short caps[] = { 4096, 1, 7, 2, 3, 5, 16, 64 };
    h_cap = (size_t)sym_param("tcap", 0);
    if (!h_cap) h_cap = caps[sym_pick((uint64_t)sym_param("ncap", 2))];
    h_buf = (char*)sym_malloc(h_cap, 1);
    ulight_token* tok = (ulight_token*)sym_malloc(tcap * sizeof(ulight_token), 8);
    ulight_state st;
    base_state(st, tok, tcap, nullptr);
    size_t names = (size_t)sym_param("names", 0), tl = 2, al = 6;
    char *tag = nullptr, *attr = nullptr;
    if (names) {
        tl = sym_pick(names) + 1; al = sym_pick(names) + 1;
        st.html_tag_name = tag = sym_buffer(tl); st.html_tag_name_length = tl;
        st.html_attr_name = attr = sym_buffer(al); st.html_attr_name_length = al;
    }
    st.text_buffer = h_buf; st.text_buffer_length = h_cap; st.flush_text = html_flush; st.flush_text_data = &h_data;
    const char *tn = names ? tag : "h-", *an = names ? attr : "data-h";
    ulight_status r = ulight_source_to_html(&st);
    sym_log(1, r); sym_log(2, g_nout);
    sym_assert(r == expected, "HTML conversion ends with another status than tokenizing");
    if (r == ULIGHT_STATUS_OK) {
        size_t at = 0;
        for (size_t i = 0; i < g_ntok; i++) {
            ulight_token t = g_tok[i];
            exp_escaped(at, t.begin);
            at = t.begin + t.length;
            ulight_string_view id = ulight_highlight_type_short_string((ulight_highlight_type)t.type);
            exp_str("<", 1); exp_str(tn, tl); exp_str(" ", 1); exp_str(an, al); exp_str("=", 1); exp_str(id.text, id.length); exp_str(">", 1);
            exp_escaped(t.begin, at);
            exp_str("</", 2); exp_str(tn, tl); exp_str(">", 1);
        }
        exp_escaped(at, g_len);
        sym_assert(g_nout == g_nexp, "HTML output has the wrong length");
        unsigned char d = 0;
        for (size_t i = 0; i < g_nexp; i++) d |= (unsigned char)(g_out[i] ^ g_exp[i]);
        sym_assert(d == 0, "HTML output is not the highlighted source");
        sym_cover("compared");
        if (g_ntok) sym_cover("highlighted");
    } else sym_assert(st.error && st.error_length, "failure without an error text");
    sym_assert(st.source == g_src && st.source_length == g_len && st.text_buffer == h_buf && st.text_buffer_length == h_cap
            && st.token_buffer == tok && st.token_buffer_length == tcap && st.flush_text == html_flush && st.flush_text_data == &h_data
            && st.html_tag_name_length == tl && st.html_attr_name_length == al,
        "the caller's state was modified");
    sym_free(h_buf); sym_free(tok);
    if (names) { sym_free(tag); sym_free(attr); }
    done();
}

// ------------------------------------------------------------------ H09
static size_t v_calls;
static void v_tokens(const void*, ulight_token*, size_t) { v_calls++; }
static void v_text(const void*, char*, size_t) { v_calls++; }
extern "C" void api_validate()
{
    ulight::assertion_handler = on_assertion;
    bool html = sym_param("html", 0) != 0;
    static char src[] = { '1', '+' };
    static ulight_token tok[2];
    static char text[8];
    ulight_state st;
    ulight_init(&st);
    bool nosrc = sym_bool(), notok = sym_bool(), notext = sym_bool(), nofl = sym_bool(), noft = sym_bool(), notag = sym_bool(), noattr = sym_bool();
    st.source = nosrc ? nullptr : src;
    st.source_length = sym_range(0, 2);
    uint32_t lang = sym_u32();
    __builtin_memcpy(&st.lang, &lang, sizeof st.lang);
    st.flags = (ulight_flag)sym_pick(4);
    st.token_buffer = notok ? nullptr : tok;
    st.token_buffer_length = sym_range(0, 2);
    st.flush_tokens = nofl ? nullptr : v_tokens;
    st.text_buffer = notext ? nullptr : text;
    st.text_buffer_length = sym_range(0, 8);
    st.flush_text = noft ? nullptr : v_text;
    if (notag) st.html_tag_name = nullptr;
    st.html_tag_name_length = sym_range(0, 2);
    if (noattr) st.html_attr_name = nullptr;
    st.html_attr_name_length = sym_range(0, 2);
    ulight_status r = html ? ulight_source_to_html(&st) : ulight_source_to_tokens(&st);
    bool bad_src = nosrc && st.source_length != 0;
    bool bad_lang = lang == 0 || lang > 25;
    bool bad_buf = notok || st.token_buffer_length == 0;
    if (html) {
        bad_buf |= notext || st.text_buffer_length == 0 || noft;
        bad_src |= notag || st.html_tag_name_length == 0 || noattr || st.html_attr_name_length == 0;
    } else bad_buf |= nofl;
    sym_log(1, r);
    switch (r) {
    case ULIGHT_STATUS_OK: sym_assert(!bad_src && !bad_lang && !bad_buf, "ok in spite of a bad argument"); sym_cover("ok"); break;
    case ULIGHT_STATUS_BAD_BUFFER: sym_assert(bad_buf, "bad_buffer with proper buffers"); sym_cover("bad_buffer"); break;
    case ULIGHT_STATUS_BAD_LANG: sym_assert(bad_lang, "bad_lang for a valid language"); sym_cover("bad_lang"); break;
    case ULIGHT_STATUS_BAD_STATE: sym_assert(bad_src, "bad_state with a proper source and names"); sym_cover("bad_state"); break;
    default: sym_assert(false, "undocumented status");
    }
    if (r != ULIGHT_STATUS_OK) {
        sym_assert(v_calls == 0, "a callback was invoked in spite of a bad argument");
        sym_assert(st.error != nullptr && st.error_length != 0, "failure without an error text");
        unsigned char d = 0;
        for (size_t i = 0; i < st.error_length; i++) d |= (unsigned char)(st.error[i] < 32 || st.error[i] > 126);
        sym_assert(d == 0, "error text is not printable");
    }
    sym_assert(st.source_length <= 2 && st.source == (nosrc ? nullptr : src) && memcmp(&st.lang, &lang, sizeof lang) == 0 && st.token_buffer == (notok ? nullptr : tok),
        "the caller's state was modified");
}
static bool lit(ulight_string_view v, const char* s) { size_t n = strlen(s); return v.length == n && memcmp(v.text, s, n) == 0; }
static void check_initial(const ulight_state& st)
{
    sym_assert(st.source == nullptr && st.source_length == 0, "ulight_init: source");
    sym_assert(st.lang == ULIGHT_LANG_NONE && st.flags == ULIGHT_NO_FLAGS, "ulight_init: lang, flags");
    sym_assert(st.token_buffer == nullptr && st.token_buffer_length == 0 && st.flush_tokens == nullptr && st.flush_tokens_data == nullptr, "ulight_init: tokens");
    sym_assert(st.text_buffer == nullptr && st.text_buffer_length == 0 && st.flush_text == nullptr && st.flush_text_data == nullptr, "ulight_init: text");
    sym_assert(lit({ st.html_tag_name, st.html_tag_name_length }, "h-") && lit({ st.html_attr_name, st.html_attr_name_length }, "data-h"), "ulight_init: names");
    sym_assert(st.error == nullptr && st.error_length == 0, "ulight_init: error");
}
// whatever the memory held before
extern "C" void api_init()
{
    ulight_state st;
    sym_bytes(&st, sizeof st);
    sym_assert(ulight_init(&st) == &st, "ulight_init does not return its argument");
    check_initial(st);
    ulight_destroy(&st);
    ulight::State w;
    check_initial(w.impl);
    sym_cover("init");
}
// allocation, also when it fails
extern "C" void api_alloc()
{
    size_t live = sym_heap_live();
    bool fail = sym_bool();
    sym_alloc_count = 0;
    sym_fail_at = fail ? 1 : 0;
    ulight_state* st = ulight_new();
    sym_fail_at = 0;
    if (fail) { sym_assert(st == nullptr, "ulight_new succeeds without memory"); sym_assert(sym_heap_live() == live, "leak"); sym_cover("failed"); }
    else {
        sym_assert(st != nullptr, "ulight_new fails although memory is available");
        check_initial(*st);
        sym_assert(sym_heap_live() == live + 1, "ulight_new allocates something else than the state");
        sym_cover("allocated");
    }
    ulight_delete(st);
    sym_assert(sym_heap_live() == live, "ulight_delete does not free the state");
    size_t n = sym_pick(40), al = (size_t)1 << sym_pick(7);
    sym_alloc_count = 0;
    sym_fail_at = sym_bool() ? 1 : 0;
    bool f2 = sym_fail_at != 0;
    char* p = (char*)ulight_alloc(n, al);
    sym_fail_at = 0;
    sym_assert((p == nullptr) == f2, "ulight_alloc: null exactly if memory runs out");
    if (p) {
        sym_assert((uintptr_t)p % al == 0, "ulight_alloc: alignment");
        for (size_t i = 0; i < n; i++) p[i] = (char)i;
        for (size_t i = 0; i < n; i++) sym_assert(p[i] == (char)i, "ulight_alloc: contents");
        sym_cover("block");
    }
    ulight_free(p, n, al);
    sym_assert(sym_heap_live() == live, "ulight_free does not free");
}

// ------------------------------------------------------------------ H10: the caller's callbacks throw
static uint64_t x_at, x_calls; static int x_kind; static bool x_thrown;
struct My_Error { int v; };
static void x_maybe()
{
    sym_assert(!x_thrown, "a callback is invoked again after it threw");
    if (++x_calls == x_at) {
        x_thrown = true;
        x_kind = (int)sym_pick(3);
        if (x_kind == 0) throw std::bad_alloc();
        if (x_kind == 1) throw My_Error { 1 };
        throw 17;
    }
}
static void x_tokens(const void*, ulight_token*, size_t) { x_maybe(); }
static void x_text(const void*, char*, size_t) { x_maybe(); }
extern "C" void api_throw()
{
    make_source();
    bool html = sym_param("html", 0) != 0;
    ulight_token tok[2];
    char text[64];
    ulight_state st;
    base_state(st, tok, (size_t)sym_param("cap", 1), x_tokens);
    st.text_buffer = text; st.text_buffer_length = (size_t)sym_param("tcap", 3); st.flush_text = x_text;
    x_at = sym_range(1, (uint64_t)sym_param("maxfail", 6)); // stays symbolic: only a callback splits on it
    size_t live = sym_heap_live();
    sym_alloc_count = 0;
    ulight_status r = html ? ulight_source_to_html(&st) : ulight_source_to_tokens(&st);
    sym_log(1, r); sym_log(2, x_calls);
    if (x_thrown) {
        sym_assert(r == (x_kind == 0 ? ULIGHT_STATUS_BAD_ALLOC : ULIGHT_STATUS_INTERNAL_ERROR), x_kind == 0 ? "std::bad_alloc from a callback is not reported as bad_alloc" : "an exception from a callback is not reported as an internal error");
        sym_assert(st.error && st.error_length, "failure without an error text");
        sym_cover("thrown");
    } else sym_assert(r == ULIGHT_STATUS_OK || (r == ULIGHT_STATUS_BAD_TEXT && !source_valid()), "failure although nothing went wrong");
    sym_assert(sym_heap_live() == live, "memory leaked after an exception");
    // the same state works again
    x_at = 0; x_thrown = false; x_calls = 0;
    st.flush_tokens = x_tokens;
    ulight_status r2 = html ? ulight_source_to_html(&st) : ulight_source_to_tokens(&st);
    sym_assert(r2 == ULIGHT_STATUS_OK || (r2 == ULIGHT_STATUS_BAD_TEXT && !source_valid()), "state unusable after an exception");
    done();
}

// ------------------------------------------------------------------ R01
// The table of README.md.
static const struct { const char* name; int lang; } README[] = {
    { "bash", 8 }, { "sh", 8 }, { "zsh", 8 }, { "c", 6 }, { "h", 6 }, { "cow", 1 }, { "cowel", 1 },
    { "c++", 2 }, { "cc", 2 }, { "cplusplus", 2 }, { "cpp", 2 }, { "cxx", 2 }, { "h++", 2 }, { "hpp", 2 }, { "css", 5 },
    { "diff", 9 }, { "patch", 9 }, { "ebnf", 17 }, { "htm", 4 }, { "html", 4 }, { "java", 24 },
    { "cjs", 7 }, { "javascript", 7 }, { "js", 7 }, { "jsx", 7 }, { "mjs", 7 }, { "json", 10 }, { "jsonc", 11 }, { "latex", 15 },
    { "kotlin", 19 }, { "kt", 19 }, { "kts", 19 }, { "ll", 22 }, { "llvm", 22 }, { "lua", 3 }, { "markdown", 23 }, { "md", 23 },
    { "asm", 16 }, { "assembler", 16 }, { "assembly", 16 }, { "nasm", 16 }, { "x86asm", 16 }, { "gyp", 18 }, { "py", 18 }, { "python", 18 },
    { "tex", 14 }, { "plaintext", 13 }, { "text", 13 }, { "txt", 13 }, { "ts", 20 }, { "tsx", 20 }, { "typescript", 20 },
    { "atom", 12 }, { "mathml", 12 }, { "mml", 12 }, { "plist", 12 }, { "rss", 12 }, { "svg", 12 }, { "xbj", 12 }, { "xhtml", 12 },
    { "xml", 12 }, { "xsd", 12 }, { "xsl", 12 }, { "yaml", 25 }, { "yml", 25 },
    // in ulight_lang_list, not (yet) in README.md
    { "hxx", 2 }, { "rs", 21 }, { "rust", 21 },
};
static unsigned ref_lang(const char* s, size_t n)
{
    unsigned r = 0;
    for (auto& e : README) {
        if (strlen(e.name) != n) continue;
        unsigned char d = 0;
        for (size_t i = 0; i < n; i++) d |= (unsigned char)(s[i] ^ e.name[i]);
        r |= (unsigned)e.lang & (0u - (unsigned)(d == 0));
    }
    return r;
}
extern "C" void api_lang()
{
    size_t n = (size_t)sym_param("n", 4);
    char* s = sym_buffer(n);
    unsigned want = ref_lang(s, n), got = ulight_get_lang(s, n), got8 = ulight_get_lang_u8((const char8_t*)s, n);
    sym_log(1, got);
    sym_assert(got == want, "a language name is looked up wrongly");
    sym_assert(got8 == want && (unsigned)ulight::get_lang(std::string_view(s, n)) == want
            && (unsigned)ulight::get_lang(std::u8string_view((const char8_t*)s, n)) == want, "variants of get_lang disagree");
    if (got) sym_cover("found"); else sym_cover("not found");
    sym_free(s);
}
extern "C" void api_path()
{
    size_t n = (size_t)sym_param("n", 4), dot = n;
    char* s = sym_buffer(n);
    size_t ext = (size_t)sym_param("ext", 0); // the last ext+1 bytes: a dot and no other
    if (ext) { sym_assume(s[n - ext - 1] == '.'); for (size_t i = n - ext; i < n; i++) sym_assume(s[i] != '.'); }
    for (size_t i = 0; i < n; i++) if (s[i] == '.') dot = i;
    unsigned want = dot == n ? 0 : ref_lang(s + dot + 1, n - dot - 1);
    unsigned got = ulight_lang_from_path(s, n), got8 = ulight_lang_from_path_u8((const char8_t*)s, n);
    sym_log(1, got);
    sym_assert(got == want, "the language of a path is not that of its extension");
    sym_assert(got8 == want && (unsigned)ulight::lang_from_path(std::string_view(s, n)) == want
            && (unsigned)ulight::lang_from_path(std::u8string_view((const char8_t*)s, n)) == want, "variants of lang_from_path disagree");
    if (got) sym_cover("found"); else sym_cover("not found");
    sym_free(s);
}
// The published list: sorted, distinct, lower-case ASCII, consistent with lookup; every language has a name.
extern "C" void api_lang_list()
{
    size_t k = sym_range(0, 255);
    sym_assume(k < ulight_lang_list_length);
    k = sym_concretize(k);
    const ulight_lang_entry& e = ulight_lang_list[k];
    sym_assert(e.name_length > 0 && e.lang > 0 && e.lang < ULIGHT_LANG_COUNT, "ulight_lang_list: bad entry");
    for (size_t i = 0; i < e.name_length; i++) sym_assert((unsigned char)e.name[i] > 32 && (unsigned char)e.name[i] < 127 && !(e.name[i] >= 'A' && e.name[i] <= 'Z'), "ulight_lang_list: not lower-case ASCII");
    sym_assert(ulight_get_lang(e.name, e.name_length) == e.lang, "ulight_lang_list: entry is not found by its name");
    if (k + 1 < ulight_lang_list_length) {
        const ulight_lang_entry& f = ulight_lang_list[k + 1];
        sym_assert(std::string_view(e.name, e.name_length) < std::string_view(f.name, f.name_length), "ulight_lang_list is not sorted");
    }
    sym_assert(ulight_lang_list_length >= std::size(README), "ulight_lang_list is incomplete");
    for (int l = 1; l < ULIGHT_LANG_COUNT; l++) {
        bool any = false;
        for (size_t i = 0; i < ulight_lang_list_length; i++) any |= ulight_lang_list[i].lang == l;
        sym_assert(any, "a language has no name");
    }
    sym_cover("entry");
}
static const char* const DISPLAY[26] = { "", "COWEL", "C++", "Lua", "HTML", "CSS", "C", "JavaScript", "Bash", "Diff", "JSON", "JSON with Comments", "XML", "Plaintext",
    "TeX", "LaTeX", "NASM", "EBNF", "Python", "Kotlin", "TypeScript", "Rust", nullptr, "Markdown", "Java", "YAML" };
extern "C" void api_display()
{
    uint32_t v = sym_u32();
    if (v < 26) v = (uint32_t)sym_concretize(v);
    ulight_lang l;
    __builtin_memcpy(&l, &v, sizeof l);
    ulight_string_view a = ulight_lang_display_name(l);
    ulight_u8string_view b = ulight_lang_display_name_u8(l);
    sym_log(1, a.length);
    if (v == 0 || v > 25) {
        sym_assert(a.length == 0 && b.length == 0, "display name of an invalid language");
        sym_cover("invalid");
    } else {
        sym_assert(a.length > 0 && a.text[a.length] == 0, "display name is empty or not null-terminated");
        sym_assert(b.length == a.length && (const char*)b.text == a.text, "display names disagree");
        if (DISPLAY[v]) sym_assert(lit(a, DISPLAY[v]), "wrong display name");
        sym_assert(ulight::lang_display_name(ulight::Lang(v)) == std::string_view(a.text, a.length) && ulight::lang_display_name_u8(ulight::Lang(v)) == std::u8string_view(b.text, b.length), "display names disagree");
        sym_cover("name");
    }
}

// ------------------------------------------------------------------ R02
#include "hl_types.h"
static bool word(std::string_view s, char sep)
{
    for (size_t i = 0; i < s.size(); i++)
        if (!((s[i] >= 'a' && s[i] <= 'z') || (s[i] >= '0' && s[i] <= '9') || (s[i] == sep && i && i + 1 < s.size() && s[i - 1] != sep))) return false;
    return true;
}
static std::string_view sv(ulight_string_view v) { return { v.text, v.length }; }
static std::string_view sv(ulight_u8string_view v) { return { (const char*)v.text, v.length }; }
static std::string_view sv(std::u8string_view v) { return { (const char*)v.data(), v.size() }; }
extern "C" void api_types()
{
    unsigned t = (unsigned)sym_pick(256), u = (unsigned)sym_pick(256);
    std::string_view lg = sv(ulight_highlight_type_long_string((ulight_highlight_type)t)), sh = sv(ulight_highlight_type_short_string((ulight_highlight_type)t));
    std::string_view lg2 = sv(ulight_highlight_type_long_string((ulight_highlight_type)u)), sh2 = sv(ulight_highlight_type_short_string((ulight_highlight_type)u));
    const char *want = nullptr, *msg = "";
    for (auto& e : HL_TYPES) if (e.value == t) { want = e.name; msg = e.msg; }
    if (!want) sym_assert(lg.empty() && sh.empty(), "an undefined highlight type has a string");
    else {
        sym_assert(sh.empty() == lg.empty() && word(sh, '_'), "the short string of a highlight type is not made of lower-case letters and underscores");
        sym_assert(lg.data()[lg.size()] == 0 && sh.data()[sh.size()] == 0, "a highlight type string is not null-terminated");
        sym_cover("defined");
    }
    if (t != u && !sh.empty()) {
        sym_assert(sh != sh2, "two highlight types have the same short string");
        sym_assert(lg != lg2, "two highlight types have the same long string");
    }
    auto ht = (ulight_highlight_type)t;
    auto HT = ulight::Highlight_Type(t);
    sym_assert(sv(ulight_highlight_type_long_string_u8(ht)) == lg && ulight::highlight_type_long_string(HT) == lg && sv(ulight::highlight_type_long_string_u8(HT)) == lg, "variants of the long string disagree");
    sym_assert(sv(ulight_highlight_type_short_string_u8(ht)) == sh && ulight::highlight_type_short_string(HT) == sh && sv(ulight::highlight_type_short_string_u8(HT)) == sh
            && sv(ulight_highlight_type_id(ht)) == sh, "variants of the short string disagree");
    sym_assert(!want || lg == want, msg);
}

// ------------------------------------------------------------------ H12: one operation on an arbitrary state
static void w_tok(const void* d, ulight_token* t, size_t n) { }
static void w_txt(const void* d, char* t, size_t n) { }
extern "C" void api_state()
{
    ulight::State s;
    sym_bytes(&s.impl, sizeof s.impl);
    sym_assume((uint32_t)s.impl.lang < 26 && (uint32_t)s.impl.flags < 4);
    ulight_state m = s.impl; // the model
    char pool[4]; ulight_token tpool[2];
    size_t n = sym_u64();
    sym_assume(n < ((uint64_t)1 << 40));
    char* p = sym_bool() ? nullptr : pool;
    if (!p) sym_assume(n == 0);
    int data = 0;
    uint64_t op = sym_pick(13);
    sym_log(1, op);
    switch (op) {
    case 0: s.set_source(std::string_view(p, n)); m.source = p; m.source_length = n; break;
    case 1: s.set_source(std::u8string_view((char8_t*)p, n)); m.source = p; m.source_length = n; break;
    case 2: { auto l = (ulight_lang)sym_range(0, 25); s.set_lang(l); m.lang = l; break; }
    case 3: { auto l = (ulight_lang)sym_range(0, 25); s.set_lang(ulight::Lang(l)); m.lang = l; break; }
    case 4: { auto f = (ulight_flag)sym_range(0, 3); s.set_flags(f); m.flags = f; break; }
    case 5: { auto f = (ulight_flag)sym_range(0, 3); s.set_flags(ulight::Flag(f)); m.flags = f; break; }
    case 6: s.set_token_buffer(std::span<ulight_token>(p ? tpool : nullptr, n)); m.token_buffer = p ? tpool : nullptr; m.token_buffer_length = n; break;
    case 7: s.set_html_tag_name(std::string_view(p, n)); m.html_tag_name = p; m.html_tag_name_length = n; break;
    case 8: s.set_html_attr_name(std::string_view(p, n)); m.html_attr_name = p; m.html_attr_name_length = n; break;
    case 9: s.set_text_buffer(std::span<char>(p, n)); m.text_buffer = p; m.text_buffer_length = n; break;
    case 10: s.on_flush_text(&data, w_txt); m.flush_text = w_txt; m.flush_text_data = &data; break;
    case 11: {
        static size_t calls, len; static char* ptr;
        auto f = [](char* q, size_t k) { calls++; ptr = q; len = k; };
        s.on_flush_text(f);
        sym_assert(s.impl.flush_text != nullptr, "on_flush_text sets no callback");
        s.impl.flush_text(s.impl.flush_text_data, p, n);
        sym_assert(calls == 1 && ptr == p && len == n, "the text callback is not invoked as given");
        m.flush_text = s.impl.flush_text; m.flush_text_data = s.impl.flush_text_data;
        break;
    }
    case 12: {
        static size_t calls, len; static ulight_token* ptr;
        auto f = [](ulight_token* q, size_t k) { calls++; ptr = q; len = k; };
        s.on_flush_tokens(f);
        sym_assert(s.impl.flush_tokens != nullptr, "on_flush_tokens sets no callback");
        s.impl.flush_tokens(s.impl.flush_tokens_data, tpool, n);
        sym_assert(calls == 1 && ptr == tpool && len == n, "the token callback is not invoked as given");
        m.flush_tokens = s.impl.flush_tokens; m.flush_tokens_data = s.impl.flush_tokens_data;
        break;
    }
    }
    const ulight_state& i = s.impl;
    sym_assert(i.source == m.source && i.source_length == m.source_length && i.lang == m.lang && i.flags == m.flags, "State: source, language or flags");
    sym_assert(i.token_buffer == m.token_buffer && i.token_buffer_length == m.token_buffer_length && i.flush_tokens == m.flush_tokens && i.flush_tokens_data == m.flush_tokens_data, "State: tokens");
    sym_assert(i.html_tag_name == m.html_tag_name && i.html_tag_name_length == m.html_tag_name_length && i.html_attr_name == m.html_attr_name && i.html_attr_name_length == m.html_attr_name_length, "State: names");
    sym_assert(i.text_buffer == m.text_buffer && i.text_buffer_length == m.text_buffer_length && i.flush_text == m.flush_text && i.flush_text_data == m.flush_text_data, "State: text");
    sym_assert(i.error == m.error && i.error_length == m.error_length, "State: error");
    sym_assert(s.get_source().data() == m.source && s.get_source().size() == m.source_length && (const char*)s.get_u8source().data() == m.source && s.get_u8source().size() == m.source_length, "State: get_source");
    sym_assert((ulight_lang)s.get_lang() == m.lang && (ulight_flag)s.get_flags() == m.flags, "State: get_lang, get_flags");
    sym_assert(s.get_token_buffer().data() == m.token_buffer && s.get_token_buffer().size() == m.token_buffer_length, "State: get_token_buffer");
    sym_assert(s.get_text_buffer().data() == m.text_buffer && s.get_text_buffer().size() == m.text_buffer_length && (char*)s.get_text_u8buffer().data() == m.text_buffer && s.get_text_u8buffer().size() == m.text_buffer_length
            && s.get_text_buffer_string().data() == m.text_buffer && s.get_text_buffer_string().size() == m.text_buffer_length && (const char*)s.get_text_buffer_u8string().data() == m.text_buffer && s.get_text_buffer_u8string().size() == m.text_buffer_length, "State: get_text_buffer");
    sym_assert(s.get_error_string().data() == m.error && s.get_error_string().size() == m.error_length && (const char*)s.get_error_u8string().data() == m.error && s.get_error_u8string().size() == m.error_length, "State: get_error_string");
    sym_cover("operation");
}
// The wrapper and the C functions do the same.
extern "C" void api_wrapper()
{
    make_source();
    ulight_status expected = reference_tokens();
    size_t ref = g_ntok;
    static ulight_token copy[700];
    for (size_t i = 0; i < ref; i++) copy[i] = g_tok[i];
    g_ntok = 0;
    ulight_token tok[3];
    ulight::State s;
    if (sym_bool()) s.set_source(std::string_view(g_src, g_len)); else s.set_source(std::u8string_view((const char8_t*)g_src, g_len));
    s.set_lang(ulight::Lang(sym_param("lang", 1)));
    s.set_flags(ulight::Flag(sym_param("flags", 0)));
    s.set_token_buffer(tok);
    auto f = [](ulight_token* t, size_t n) { collect(nullptr, t, n); };
    s.on_flush_tokens(f);
    ulight::Status r = s.source_to_tokens();
    sym_assert((int)r == (int)expected, "State::source_to_tokens: status");
    if (expected == ULIGHT_STATUS_OK) {
        sym_assert(g_ntok == ref, "State::source_to_tokens: number of tokens");
        for (size_t i = 0; i < ref; i++) sym_assert(g_tok[i].begin == copy[i].begin && g_tok[i].length == copy[i].length && g_tok[i].type == copy[i].type, "State::source_to_tokens: token");
        sym_cover("compared");
    } else sym_assert(!s.get_error_string().empty(), "failure without an error text");
    g_nout = 0;
    char text[16];
    s.set_text_buffer(text);
    auto g = [](char* t, size_t n) { for (size_t i = 0; i < n; i++) g_out[g_nout++] = t[i]; };
    s.on_flush_text(g);
    ulight::Status r2 = s.source_to_html();
    sym_assert((int)r2 == (int)expected, "State::source_to_html: status");
    if (expected == ULIGHT_STATUS_OK && g_ntok == 0) sym_assert(g_nout >= g_len, "State::source_to_html: output");
    done();
}
