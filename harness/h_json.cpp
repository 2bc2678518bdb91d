// The JSON parser against a recogniser written from RFC 8259 (plus JavaScript comments when allowed).
#include "ref.h"
#include "ulight/json.hpp"
#include "ulight/ulight.h"
#include "ulight/impl/assert.hpp"
#include <cstdlib>
#include <cstring>

using namespace ulight;
static char* g_src;
static size_t g_len, g_hole, g_holelen;
static unsigned char g_blob[60000];
static void make_source()
{
    size_t n = (size_t)sym_param("n", 3), mode = (size_t)sym_param("mode", 0);
    size_t bl = sym_blob("tmpl", g_blob, sizeof g_blob);
    const unsigned char *pre = nullptr, *suf = nullptr;
    size_t a = 0, b = 0;
    if (bl) {
        size_t count = 0;
        for (size_t i = 0; i < bl; count++) { i += 1 + g_blob[i]; i += 1 + g_blob[i]; }
        size_t k = (size_t)sym_pick(count), i = 0;
        while (k--) { i += 1 + g_blob[i]; i += 1 + g_blob[i]; }
        a = g_blob[i]; pre = g_blob + i + 1; i += 1 + a;
        b = g_blob[i]; suf = g_blob + i + 1;
    }
    g_len = a + n + b;
    g_src = (char*)sym_malloc(g_len ? g_len : 1, 1);
    for (size_t i = 0; i < a; i++) g_src[i] = (char)pre[i];
    sym_bytes(g_src + a, n);
    for (size_t i = 0; i < b; i++) g_src[a + n + i] = (char)suf[i];
    g_hole = a; g_holelen = n;
    const unsigned char* h = (const unsigned char*)g_src + a;
    // 1: ASCII; 8: the alphabet of JSON's grammar
    if (mode & 1) for (size_t i = 0; i < n; i++) sym_assume(h[i] < 0x80);
    if (mode & 8) for (size_t i = 0; i < n; i++)
        sym_assume(h[i] == '{' || h[i] == '}' || h[i] == '[' || h[i] == ']' || h[i] == ':' || h[i] == ',' || h[i] == '"' || h[i] == '1' || h[i] == ' ' || h[i] == '\n');
    // 16: the alphabet of comments
    if (mode & 16) for (size_t i = 0; i < n; i++)
        sym_assume(h[i] == '/' || h[i] == '*' || h[i] == '\n' || h[i] == '\r' || h[i] == '[' || h[i] == ']' || h[i] == '1' || h[i] == ',' || h[i] == '"');
}
static unsigned char at(size_t i) { return (unsigned char)g_src[i]; }

// ------------------------------------------------------------------ reference
enum Kind { LINE_COMMENT = 1, BLOCK_COMMENT, LITERAL, ESCAPE, NUMBER, NUL, TRUE_, FALSE_, PUSH_STRING, POP_STRING, PUSH_PROP, POP_PROP, PUSH_OBJ, POP_OBJ, PUSH_ARR, POP_ARR };
struct Ev { unsigned kind, at, len, cp; };
static Ev r_ev[96]; static size_t r_n;
static bool r_comments, r_saw_comment;
static void rput(unsigned k, size_t a, size_t l, unsigned cp = 0) { if (r_n < 96) r_ev[r_n++] = { k, (unsigned)a, (unsigned)l, cp }; }
static bool r_ws(size_t& i)
{
    for (;;) {
        while (i < g_len && (at(i) == ' ' || at(i) == '\t' || at(i) == '\n' || at(i) == '\r')) i++;
        if (i + 1 >= g_len || at(i) != '/' || (at(i + 1) != '/' && at(i + 1) != '*')) return true;
        if (!r_comments) { r_saw_comment = true; return false; }
        size_t b = i;
        if (at(i + 1) == '/') {
            // a JavaScript line comment ends before LF, CR, U+2028 or U+2029
            i += 2;
            while (i < g_len && at(i) != '\n' && at(i) != '\r'
                && !(i + 2 < g_len && at(i) == 0xE2 && at(i + 1) == 0x80 && (at(i + 2) == 0xA8 || at(i + 2) == 0xA9))) i++;
            rput(LINE_COMMENT, b, i - b);
        } else {
            i += 2;
            for (;; i++) {
                if (i + 1 >= g_len) return false;
                if (at(i) == '*' && at(i + 1) == '/') break;
            }
            i += 2;
            rput(BLOCK_COMMENT, b, i - b);
        }
    }
}
static int hexv(unsigned c) { return c >= '0' && c <= '9' ? (int)c - '0' : c >= 'a' && c <= 'f' ? (int)c - 'a' + 10 : c >= 'A' && c <= 'F' ? (int)c - 'A' + 10 : -1; }
static bool r_string(size_t& i, bool prop)
{
    if (i >= g_len || at(i) != '"') return false;
    rput(prop ? PUSH_PROP : PUSH_STRING, i, 0);
    i++;
    size_t lit = i;
    for (;;) {
        if (i >= g_len) return false;
        unsigned c = at(i);
        if (c == '"' || c == '\\') { if (i > lit) rput(LITERAL, lit, i - lit); }
        if (c == '"') { rput(prop ? POP_PROP : POP_STRING, i, 0); i++; return true; }
        if (c < 0x20) return false;
        if (c != '\\') { i++; continue; }
        if (i + 1 >= g_len) return false;
        unsigned v;
        switch (at(i + 1)) {
        case '"': v = '"'; break;
        case '\\': v = '\\'; break;
        case '/': v = '/'; break;
        case 'b': v = 8; break;
        case 'f': v = 12; break;
        case 'n': v = 10; break;
        case 'r': v = 13; break;
        case 't': v = 9; break;
        case 'u': {
            if (i + 5 >= g_len) return false;
            v = 0;
            for (size_t k = 2; k < 6; k++) { int h = hexv(at(i + k)); if (h < 0) return false; v = v * 16 + (unsigned)h; }
            rput(ESCAPE, i, 6, v);
            i += 6; lit = i;
            continue;
        }
        default: return false;
        }
        rput(ESCAPE, i, 2, v);
        i += 2; lit = i;
    }
}
static bool isd(size_t i) { return i < g_len && at(i) >= '0' && at(i) <= '9'; }
static bool r_number(size_t& i)
{
    size_t b = i;
    if (at(i) == '-') i++;
    if (!isd(i)) return false;
    if (at(i) == '0') { i++; if (isd(i)) return false; }
    else while (isd(i)) i++;
    if (i < g_len && at(i) == '.') { i++; if (!isd(i)) return false; while (isd(i)) i++; }
    if (i < g_len && (at(i) == 'e' || at(i) == 'E')) {
        i++;
        if (i < g_len && (at(i) == '+' || at(i) == '-')) i++;
        if (!isd(i)) return false;
        while (isd(i)) i++;
    }
    rput(NUMBER, b, i - b);
    return true;
}
static bool word(size_t i, const char* w) { for (size_t k = 0; w[k]; k++) if (i + k >= g_len || at(i + k) != (unsigned char)w[k]) return false; return true; }
static bool r_value(size_t& i)
{
    if (i >= g_len) return false;
    unsigned c = at(i);
    if (c == '"') return r_string(i, false);
    if (c == '{') {
        rput(PUSH_OBJ, i, 0); i++;
        if (!r_ws(i)) return false;
        if (i < g_len && at(i) == '}') { rput(POP_OBJ, i, 0); i++; return true; }
        for (;;) {
            if (!r_string(i, true) || !r_ws(i)) return false;
            if (i >= g_len || at(i) != ':') return false;
            i++;
            if (!r_ws(i) || !r_value(i) || !r_ws(i) || i >= g_len) return false;
            if (at(i) == '}') { rput(POP_OBJ, i, 0); i++; return true; }
            if (at(i) != ',') return false;
            i++;
            if (!r_ws(i)) return false;
        }
    }
    if (c == '[') {
        rput(PUSH_ARR, i, 0); i++;
        if (!r_ws(i)) return false;
        if (i < g_len && at(i) == ']') { rput(POP_ARR, i, 0); i++; return true; }
        for (;;) {
            if (!r_value(i) || !r_ws(i) || i >= g_len) return false;
            if (at(i) == ']') { rput(POP_ARR, i, 0); i++; return true; }
            if (at(i) != ',') return false;
            i++;
            if (!r_ws(i)) return false;
        }
    }
    if (c == '-' || (c >= '0' && c <= '9')) return r_number(i);
    if (c == 't' && word(i, "true")) { rput(TRUE_, i, 0); i += 4; return true; }
    if (c == 'f' && word(i, "false")) { rput(FALSE_, i, 0); i += 5; return true; }
    if (c == 'n' && word(i, "null")) { rput(NUL, i, 0); i += 4; return true; }
    return false;
}
static bool reference(bool comments)
{
    r_comments = comments; r_saw_comment = false; r_n = 0;
    size_t i = 0;
    return r_ws(i) && r_value(i) && r_ws(i) && i == g_len;
}

// ------------------------------------------------------------------ observer
static JSON_Options g_opt;
struct Rec final : JSON_Visitor {
    Ev ev[96]; size_t n = 0, errors = 0, err_at = 0, err_line = 0, err_col = 0; JSON_Error kind {};
    int depth = 0; bool over = false;
    size_t events_after_error = 0;
    Source_Position pos[96];
    void put(unsigned k, const Source_Position& p, size_t len, unsigned cp = 0)
    {
        if (errors) events_after_error++;
        if (n == 96) { over = true; return; }
        pos[n] = p;
        ev[n++] = { k, (unsigned)p.code_unit, (unsigned)len, cp };
    }
    void text(const Source_Position& p, std::u8string_view t)
    {
        sym_assert(p.code_unit <= g_len && t.size() <= g_len - p.code_unit, "reported text lies outside the source");
        sym_assert((const char*)t.data() == g_src + p.code_unit, "reported text is not the text at the reported position");
    }
    void line_comment(const Source_Position& p, std::u8string_view t) override { text(p, t); put(LINE_COMMENT, p, t.size()); }
    void block_comment(const Source_Position& p, std::u8string_view t) override { text(p, t); put(BLOCK_COMMENT, p, t.size()); }
    void literal(const Source_Position& p, std::u8string_view t) override
    {
        text(p, t);
        sym_assert(!t.empty(), "empty literal reported");
        if (n && ev[n - 1].kind == LITERAL && ev[n - 1].at + ev[n - 1].len == p.code_unit) { ev[n - 1].len += (unsigned)t.size(); return; }
        put(LITERAL, p, t.size());
    }
    void escape(const Source_Position& p, std::u8string_view t) override
    {
        sym_assert(g_opt.escapes == Escape_Parsing::none, "wrong escape callback for the options");
        text(p, t); put(ESCAPE, p, t.size(), 0xffffffff);
    }
    void escape(const Source_Position& p, std::u8string_view t, char32_t c) override
    {
        sym_assert(g_opt.escapes == Escape_Parsing::parse, "wrong escape callback for the options");
        text(p, t); put(ESCAPE, p, t.size(), c);
    }
    void escape(const Source_Position& p, std::u8string_view t, char32_t c, std::u8string_view u) override
    {
        sym_assert(g_opt.escapes == Escape_Parsing::parse_encode, "wrong escape callback for the options");
        text(p, t); put(ESCAPE, p, t.size(), c);
        unsigned char e[3]; size_t l;
        if (c < 0x80) { l = 1; e[0] = (unsigned char)c; }
        else if (c < 0x800) { l = 2; e[0] = (unsigned char)(0xC0 | c >> 6); e[1] = (unsigned char)(0x80 | (c & 63)); }
        else { l = 3; e[0] = (unsigned char)(0xE0 | c >> 12); e[1] = (unsigned char)(0x80 | (c >> 6 & 63)); e[2] = (unsigned char)(0x80 | (c & 63)); }
        sym_assert(u.size() == l, "escape encoded in the wrong number of code units");
        for (size_t i = 0; i < l; i++) sym_assert((unsigned char)u[i] == e[i], "escape encoded wrongly");
    }
    void number(const Source_Position& p, std::u8string_view t) override
    {
        sym_assert(!g_opt.parse_numbers, "wrong number callback for the options");
        text(p, t); put(NUMBER, p, t.size());
    }
    void number(const Source_Position& p, std::u8string_view t, double v) override
    {
        sym_assert(g_opt.parse_numbers, "wrong number callback for the options");
        text(p, t); put(NUMBER, p, t.size());
        char buf[128];
        sym_assert(t.size() < sizeof buf, "number too long for the harness");
        for (size_t i = 0; i < t.size(); i++) buf[i] = (char)t[i];
        buf[t.size()] = 0;
        double w = strtod(buf, nullptr);
        uint64_t x, y;
        memcpy(&x, &v, 8); memcpy(&y, &w, 8);
        sym_assert(x == y, "number has the wrong value");
        sym_cover("number value");
    }
    void null(const Source_Position& p) override { put(NUL, p, 0); }
    void boolean(const Source_Position& p, bool v) override { put(v ? TRUE_ : FALSE_, p, 0); }
    void push_string(const Source_Position& p) override { put(PUSH_STRING, p, 0); }
    void pop_string(const Source_Position& p) override { put(POP_STRING, p, 0); }
    void push_property(const Source_Position& p) override { put(PUSH_PROP, p, 0); }
    void pop_property(const Source_Position& p) override { put(POP_PROP, p, 0); }
    void push_object(const Source_Position& p) override { put(PUSH_OBJ, p, 0); }
    void pop_object(const Source_Position& p) override { put(POP_OBJ, p, 0); }
    void push_array(const Source_Position& p) override { put(PUSH_ARR, p, 0); }
    void pop_array(const Source_Position& p) override { put(POP_ARR, p, 0); }
    Error_Reaction error(const Source_Position& p, JSON_Error e) override
    {
        errors++; err_at = p.code_unit; err_line = p.line; err_col = p.line_code_unit; kind = e;
        return Error_Reaction::abort;
    }
};
static Rec g_rec;
static void on_assertion(const Assertion_Error& e) { sym_assert(false, (const char*)e.message.data()); throw e; }
static void check_pos(size_t unit, size_t line, size_t col)
{
    size_t l = 0, c = 0;
    sym_assert(unit <= g_len, "position lies outside the source");
    for (size_t i = 0; i < unit; i++) if (at(i) == '\n') { l++; c = 0; } else c++;
    sym_assert(line == l, "wrong line number");
    sym_assert(col == c, "wrong offset within the line");
}
static bool run(size_t opt)
{
    assertion_handler = on_assertion;
    g_opt = { .allow_comments = (opt & 1) != 0, .parse_numbers = (opt & 2) != 0, .escapes = (Escape_Parsing)(opt >> 2) };
    g_rec = Rec();
    return sym_param("char", 0) ? parse_json(g_rec, std::string_view { g_src, g_len }, g_opt)
                                : parse_json(g_rec, std::u8string_view { (const char8_t*)g_src, g_len }, g_opt);
}
static size_t options() { return sym_param("opt", -1) >= 0 ? (size_t)sym_param("opt", 0) : (size_t)sym_pick(12); }

// J01: accepts exactly the grammar
extern "C" void json_accept()
{
    make_source();
    size_t o = options();
    bool got = run(o), want = reference(o & 1);
    sym_log(1, got);
    sym_cover(got ? "accepted" : "rejected");
    sym_assert(!got || want, "text that is not JSON is accepted");
    sym_assert(got || !want, "JSON text is rejected");
    sym_free(g_src);
}
// J02, J03, J05: the events of an accepted document
extern "C" void json_events()
{
    make_source();
    size_t o = options();
    bool got = run(o), want = reference(o & 1);
    if (got && want && !g_rec.over && r_n < 96) {
        sym_cover("document");
        sym_log(1, g_rec.n);
        sym_assert(g_rec.n == r_n, "wrong number of events");
        for (size_t i = 0; i < r_n; i++) {
            sym_assert(g_rec.ev[i].kind == r_ev[i].kind, "wrong event");
            sym_assert(g_rec.ev[i].at == r_ev[i].at, "event at the wrong offset");
            sym_assert(g_rec.ev[i].len == r_ev[i].len, "event covers the wrong text");
            if (r_ev[i].kind == ESCAPE) {
                sym_cover("escape");
                if (g_opt.escapes != Escape_Parsing::none) sym_assert(g_rec.ev[i].cp == r_ev[i].cp, "escape has the wrong value");
            }
            check_pos(g_rec.pos[i].code_unit, g_rec.pos[i].line, g_rec.pos[i].line_code_unit);
        }
    }
    sym_free(g_src);
}
// J04: failure and its report
extern "C" void json_errors()
{
    make_source();
    size_t o = options();
    bool got = run(o);
    sym_assert(g_rec.errors == (got ? 0u : 1u), got ? "error reported for an accepted document" : "failure without exactly one error report");
    sym_assert(g_rec.events_after_error == 0, "events after the error");
    if (!got) {
        sym_cover("error");
        sym_log(1, (unsigned)g_rec.kind); sym_log(2, g_rec.err_at);
        check_pos(g_rec.err_at, g_rec.err_line, g_rec.err_col);
        bool want = reference(o & 1);
        if (!want && r_saw_comment) { sym_cover("comment refused"); sym_assert(g_rec.kind == JSON_Error::comment, "disallowed comment reported as another error"); }
        if (!(o & 1) && !r_saw_comment) sym_assert(g_rec.kind != JSON_Error::comment, "comment error without a comment");
        for (size_t i = 0; i < g_rec.n; i++) check_pos(g_rec.pos[i].code_unit, g_rec.pos[i].line, g_rec.pos[i].line_code_unit);
        // what was reported before the error is what a correct parser would have reported
        for (size_t i = 0; i < g_rec.n && i < r_n; i++)
            if (g_rec.ev[i].kind != LITERAL)
                sym_assert(g_rec.ev[i].kind == r_ev[i].kind && g_rec.ev[i].at == r_ev[i].at, "wrong event before the error");
    }
    sym_free(g_src);
}
// J06: memory
extern "C" void json_memory()
{
    make_source();
    size_t o = options();
    size_t live = sym_heap_live();
    bool got = run(o);
    sym_log(1, got);
    sym_assert(sym_heap_live() == live, "memory leaked");
    sym_free(g_src);
}
// J07: highlighting a valid document: no error token, and exactly the right classes
static unsigned char g_cls[512]; static bool g_err;
static void cls(const void*, ulight_token* t, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        if (t[i].type == ULIGHT_HL_ERROR) g_err = true;
        for (size_t k = 0; k < t[i].length && t[i].begin + k < g_len; k++) g_cls[t[i].begin + k] = t[i].type;
    }
}
static void expect(size_t a, size_t n, unsigned t) { for (size_t i = a; i < a + n; i++) { sym_assert(g_cls[i] == t, "valid document highlighted with the wrong type"); g_cls[i] = 0; } }
extern "C" void json_highlight()
{
    make_source();
    bool jsonc = sym_param("jsonc", 0), strict = sym_param("strict", 0);
    bool comments = jsonc || !strict;
    if (reference(comments)) {
        assertion_handler = on_assertion;
        ulight_token tok[4];
        ulight_state st;
        ulight_init(&st);
        st.source = g_src; st.source_length = g_len;
        st.lang = jsonc ? ULIGHT_LANG_JSONC : ULIGHT_LANG_JSON;
        st.flags = strict ? ULIGHT_STRICT : ULIGHT_NO_FLAGS;
        st.token_buffer = tok; st.token_buffer_length = 4; st.flush_tokens = cls;
        ulight_status r = ulight_source_to_tokens(&st);
        sym_assert(r == ULIGHT_STATUS_OK, "valid document not highlighted");
        sym_assert(!g_err, "error token in a valid document");
        bool prop = false;
        for (size_t i = 0; i < r_n; i++) {
            const Ev& e = r_ev[i];
            switch (e.kind) {
            case LINE_COMMENT: expect(e.at, 2, ULIGHT_HL_COMMENT_DELIM); expect(e.at + 2, e.len - 2, ULIGHT_HL_COMMENT); break;
            case BLOCK_COMMENT: expect(e.at, 2, ULIGHT_HL_COMMENT_DELIM); expect(e.at + 2, e.len - 4, ULIGHT_HL_COMMENT); expect(e.at + e.len - 2, 2, ULIGHT_HL_COMMENT_DELIM); break;
            case PUSH_STRING: prop = false; expect(e.at, 1, ULIGHT_HL_STRING_DELIM); break;
            case POP_STRING: expect(e.at, 1, ULIGHT_HL_STRING_DELIM); break;
            case PUSH_PROP: prop = true; expect(e.at, 1, ULIGHT_HL_MARKUP_ATTR); break;
            case POP_PROP: expect(e.at, 1, ULIGHT_HL_MARKUP_ATTR); break;
            case LITERAL: expect(e.at, e.len, prop ? ULIGHT_HL_MARKUP_ATTR : ULIGHT_HL_STRING); break;
            case ESCAPE: expect(e.at, e.len, ULIGHT_HL_STRING_ESCAPE); break;
            case NUMBER: expect(e.at, e.len, ULIGHT_HL_NUMBER); break;
            case NUL: expect(e.at, 4, ULIGHT_HL_NULL); break;
            case TRUE_: expect(e.at, 4, ULIGHT_HL_BOOL); break;
            case FALSE_: expect(e.at, 5, ULIGHT_HL_BOOL); break;
            case PUSH_OBJ: case POP_OBJ: expect(e.at, 1, ULIGHT_HL_SYMBOL_BRACE); break;
            case PUSH_ARR: case POP_ARR: expect(e.at, 1, ULIGHT_HL_SYMBOL_SQUARE); break;
            }
        }
        for (size_t i = 0; i < g_len; i++) {
            if (at(i) == ',' || at(i) == ':') { sym_assert(g_cls[i] == 0 || g_cls[i] == ULIGHT_HL_SYMBOL_PUNC, "separator highlighted with the wrong type"); }
            else sym_assert(g_cls[i] == 0, "whitespace is highlighted");
        }
        sym_cover("valid document");
    }
    sym_free(g_src);
}
