// What the highlighting means: comments, strings, keywords, embedded languages.
#include "src.h"
#include "ulight/ulight.hpp"
using Ty = ulight::Highlight_Type;
typedef unsigned char u8t;

// A source under construction and the per-byte types that highlighting gives it.
struct Text {
    u8t b[160];
    size_t n = 0;
    void add(const char* s) { while (*s) b[n++] = (u8t)*s++; }
    void add(const u8t* s, size_t k) { for (size_t i = 0; i < k; i++) b[n++] = s[i]; }
};
static u8t* g_out;
static u8t* g_starts; // if not null, where tokens begin
static size_t g_outn;
static void cls(const void*, ulight_token* t, size_t n)
{
    for (size_t i = 0; i < n; i++) {
        sym_assert(t[i].begin <= g_outn && t[i].length <= g_outn - t[i].begin, "token reaches beyond the source");
        for (size_t k = 0; k < t[i].length; k++) g_out[t[i].begin + k] = (u8t)t[i].type;
        if (g_starts && t[i].length) g_starts[t[i].begin] = 1;
    }
}
static ulight_status classify(int lang, int flags, const Text& t, u8t* out)
{
    ulight_token tok[128];
    ulight_state st;
    ulight::assertion_handler = on_assertion;
    ulight_init(&st);
    char* src = (char*)sym_malloc(t.n ? t.n : 1, 1);
    for (size_t i = 0; i < t.n; i++) src[i] = (char)t.b[i];
    for (size_t i = 0; i < t.n; i++) out[i] = 0;
    if (g_starts) for (size_t i = 0; i < t.n; i++) g_starts[i] = 0;
    st.source = src; st.source_length = t.n;
    st.lang = (ulight_lang)lang; st.flags = (ulight_flag)flags;
    st.token_buffer = tok; st.token_buffer_length = 128;
    st.flush_tokens = cls;
    g_out = out; g_outn = t.n;
    ulight_status r = ulight_source_to_tokens(&st);
    sym_free(src);
    return r;
}
static bool at(const Text& t, size_t i, const char* s)
{
    for (; *s; s++, i++) if (i >= t.n || t.b[i] != (u8t)*s) return false;
    return true;
}
static size_t len(const char* s) { size_t n = 0; while (s[n]) n++; return n; }

// ------------------------------------------------------------------ K01: comments
enum { LF = 1, CR = 2, LS = 4, SPLICE = 8, LONG = 16, NEST = 32, NO_DASHES = 64, NO_CR = 128, NO_BACKSLASH = 256, HTML = 512, NO_CRLF = 1024 };
struct Comment { int lang; const char* pre; const char* open; const char* close; int how; const char* post[3]; };
static const Comment comments[] = {
    { 1, "a\\b[", "\\:", nullptr, LF | CR, { "\nc]d", "\n\\e{x}", "" } },
    { 1, "a ", "\\*", "*\\", 0, { " \\b{c}", "x\n\\d[e=1]", "" } },
    { 2, "int a ", "//", nullptr, LF | SPLICE | NO_CR, { "\n= 0x1f; // b", "\n#define b 'c'", "" } },
    { 2, "#define a ", "//", nullptr, LF | SPLICE | NO_CR, { "\n= \"x\"; /* b */", "\n#if 1", "" } },
    { 2, "int a ", "/*", "*/", 0, { "= 0x1f; // b", "\n#define b 'c'", "" } },
    { 2, "#define a ", "/*", "*/", 0, { " 1 \\\n b", "\nint c;", "" } },
    { 3, "local a ", "--", nullptr, LF | LONG | NO_CR, { "\nb = 'c' -- d", "]] = 1", "]=] x" } },
    { 3, "local a ", "--[[", "]]", 0, { " = 'b' -- c", "]= 1", "]" } },
    { 3, "local a ", "--[==[", "]==]", 0, { " = 'b' -- c", "]==] = 1", "]=]" } },
    { 4, "a<b>c", "<!--", "-->", HTML, { "d &amp; <e f='g'>h</e>", "<!-- i -->", "" } },
    { 5, "a { b: c; ", "/*", "*/", 0, { "d: 1px }", "\n} /* e */", "" } },
    { 6, "int a ", "//", nullptr, LF | SPLICE | NO_CR, { "\n= 0x1f; // b", "\n#define b 'c'", "" } },
    { 6, "int a ", "/*", "*/", 0, { "= 0x1f; // b", "\n#define b 'c'", "" } },
    { 7, "let a ", "//", nullptr, LF | CR | LS, { "\n= /x/; // b", "\n= `c${d}`", "" } },
    { 7, "let a ", "/*", "*/", 0, { "= /x/; // b", "\n= `c${d}`", "" } },
    { 8, "a b ", "#", nullptr, LF | NO_CRLF, { "\nc=\"$d\" # e", "\nif f; then", "" } },
    { 11, "[1, ", "//", nullptr, LF | CR | LS, { "\n\"a\"]", "\n// b", "" } },
    { 11, "{\"a\": ", "/*", "*/", 0, { "\"b\"}", "\n// c\ntrue}", "" } },
    { 12, "<a>b", "<!--", "-->", NO_DASHES, { "c &amp; <d e='f'/></a>", "<!-- g --></a>", "" } },
    { 16, "mov eax, ", ";", nullptr, LF | CR | NO_BACKSLASH, { "\nlabel: db 'a' ; b", "\n%define c 1", "" } },
    { 17, "a = ", "(*", "*)", NEST, { "b, 'c' (* d *);", "\n;", "*) ;" } },
    { 18, "a = 1 ", "#", nullptr, LF | CR, { "\ndef b(): # c", "\n'''d'''", "" } },
    { 19, "val a ", "//", nullptr, LF | CR, { "\n= \"b$c\" // d", "\nfun e() {}", "" } },
    { 19, "val a ", "/*", "*/", NEST, { "= 'b' // c", "\n*/ fun d() {}", "" } },
    { 20, "let a ", "//", nullptr, LF | CR | LS, { "\n: string; // b", "\n= `c${d}`", "" } },
    { 20, "let a ", "/*", "*/", 0, { ": T = /x/; // b", "\n= `c${d}`", "" } },
    { 21, "let a ", "//", nullptr, LF | NO_CR, { "\n= \"b\"; // c", "\nfn d() {}", "" } },
    { 21, "let a ", "/*", "*/", NEST, { "= 'b'; // c", "\n*/ fn d() {}", "" } },
    { 22, "ret i32 ", ";", nullptr, LF | CR, { "\n%a = add i32 1, 2 ; b", "\ndefine void @c() {", "" } },
    { 22, "ret i32 ", "/*", "*/", 0, { "%a ; b", "\ndefine void @c() {", "" } },
    { 24, "int a ", "//", nullptr, LF | CR, { "\n= 'b'; // c", "\n@D class e {}", "" } },
    { 24, "int a ", "/*", "*/", 0, { "= \"b\"; // c", "\n@D class e {}", "" } },
    { 25, "a: 1 ", "#", nullptr, LF | CR, { "\nb: 'c' # d", "\n- e", "" } },
};
// The end of the comment that starts at t[i]; "suffix" is the length of its closing delimiter, 0 if it has none.
static size_t comment_end(const Comment& c, const Text& t, size_t i, size_t& prefix, size_t& suffix)
{
    prefix = len(c.open);
    suffix = 0;
    if (c.how & LONG) { // Lua: --[==[ ... ]==]
        size_t k = i + 2, eq = 0;
        if (k < t.n && t.b[k] == '[') {
            for (k++; k < t.n && t.b[k] == '='; k++) eq++;
            if (k < t.n && t.b[k] == '[') {
                prefix = 4 + eq;
                for (k++; k < t.n; k++) {
                    if (t.b[k] != ']') continue;
                    size_t m = k + 1;
                    while (m < t.n && m - k - 1 < eq && t.b[m] == '=') m++;
                    if (m - k - 1 == eq && m < t.n && t.b[m] == ']') { suffix = eq + 2; return m + 1; }
                }
                return t.n;
            }
        }
    }
    if (!c.close) {
        for (size_t k = i + prefix; k < t.n; k++) {
            if (t.b[k] == '\n') return k;
            if ((c.how & LF) && !(c.how & NO_CRLF) && at(t, k, "\r\n")) return k;
            if ((c.how & CR) && t.b[k] == '\r') return k;
            if ((c.how & LS) && (at(t, k, "\xE2\x80\xA8") || at(t, k, "\xE2\x80\xA9"))) return k;
            if ((c.how & SPLICE) && t.b[k] == '\\') {
                size_t m = k + 1;
                while (m < t.n && (t.b[m] == ' ' || t.b[m] == '\t' || t.b[m] == '\v' || t.b[m] == '\f')) m++;
                if (m < t.n && t.b[m] == '\n') k = m;
            }
        }
        return t.n;
    }
    size_t depth = 1, cl = len(c.close);
    for (size_t k = i + prefix; k < t.n;) {
        if (at(t, k, c.close)) { k += cl; if (--depth == 0) { suffix = cl; return k; } continue; }
        if ((c.how & NEST) && at(t, k, c.open)) { k += prefix; depth++; continue; }
        k++;
    }
    return t.n;
}
extern "C" void lex_comment()
{
    int lang = (int)sym_param("lang", 2), flags = (int)sym_param("flags", 0);
    size_t n = (size_t)sym_param("n", 2), count = 0, which[8];
    for (size_t i = 0; i < sizeof comments / sizeof *comments; i++) if (comments[i].lang == lang) which[count++] = i;
    const Comment& c = comments[which[sym_pick(count)]];
    u8t* h = (u8t*)sym_malloc(n ? n : 1, 1);
    sym_bytes(h, n);
    // Which of the surroundings: the hole comes first, or after some text, and the closing delimiter (if any) after it.
    size_t shape = (size_t)sym_pick(4), post = (size_t)sym_pick(3);
    Text t;
    t.add(c.pre);
    size_t begin = t.n;
    t.add(c.open);
    if (shape & 1) t.add(c.close ? " a" : " a b");
    t.add(h, n);
    if (shape & 2) t.add("c");
    if (c.close && post < 2) t.add(c.close);
    size_t fixed = t.n;
    t.add(c.post[post]);
    if (c.how & NO_CR) for (size_t i = 0; i < n; i++) sym_assume(h[i] != '\r');
    if (c.how & NO_BACKSLASH) for (size_t i = 0; i < n; i++) sym_assume(h[i] != '\\');
    size_t prefix, suffix, end = comment_end(c, t, begin, prefix, suffix);
    (void)fixed;
    if (c.how & NO_DASHES) for (size_t i = begin + prefix; i + suffix < end; i++) sym_assume(!at(t, i, "--"));
    if (c.how & HTML) {
        sym_assume(!at(t, begin + prefix, ">") && !at(t, begin + prefix, "->"));
        for (size_t i = begin + prefix; i < end; i++) sym_assume(!at(t, i, "<!--") && !at(t, i, "--!>"));
        if (!suffix) sym_assume(t.b[t.n - 1] != '-');
    }
    u8t a[160], b[160];
    ulight_status ra = classify(lang, flags, t, a);
    Text r; // the same with a space in place of the comment
    r.add(t.b, begin); r.add(" "); r.add(t.b + end, t.n - end);
    ulight_status rb = classify(lang, flags, r, b);
    sym_assume(ra == ULIGHT_STATUS_OK && rb == ULIGHT_STATUS_OK); // H01
    for (size_t i = 0; i < begin; i++) sym_assert(a[i] == b[i], "a comment changes what comes before it");
    for (size_t i = begin; i < end; i++) {
        bool delim = i < begin + prefix || i >= end - suffix;
        sym_assert(a[i] == (u8t)(delim ? Ty::comment_delim : Ty::comment), delim ? "a delimiter of a comment is not highlighted as one" : "a comment is not highlighted as one");
    }
    for (size_t i = end; i < t.n; i++) sym_assert(a[i] == b[i - end + begin + 1], "a comment changes what comes after it");
    sym_cover(end == t.n ? "comment up to the end" : "comment with something after it");
    sym_log(1, end);
    for (size_t i = 0; i < t.n; i++) sym_log(2, a[i]);
    sym_free(h);
}

// ------------------------------------------------------------------ K02: strings
enum {
    ESC = 1, // a backslash keeps the next character from ending the string
    ML = 2, // line ends do not end the string
    WHOLE = 4, // delimiters are highlighted like the content
    DOUBLED = 8, // a doubled delimiter does not end the string
    LIT = 16, // other characters than the listed ones cannot be escaped, backslashes are then part of the text
    SPACES = 32, // white space may separate a backslash from the end of the line it continues
    EXTRA = 64, // more quotes than the closing delimiter has are part of the text
    ONE = 128, // exactly one character
    FF = 256, // a form feed is a line end
    PAST = 512, // a backslash and what follows it are highlighted as text
    NO_CONT = 2048, // a backslash does not keep a line end from ending the string
    TRIPLE = 4096, // an empty string followed by a third quote is the start of another kind of string
    HEX = 8192, // up to six digits may be escaped, along with the white space after them
    PARENS = 32768, // the end is a parenthesis
    NO_LINE = 16384, // it is left open what a backslash at the end of a line means
    NOT_CR = 1024, // only LF and CRLF are line ends
};
struct Str { int lang; const char* pre; const char* open; int decor; const char* close; const char* full; int how; const char* esc; const char* no; const char* post[3]; };
static const char* const CE = "'\"\\abfnrtv";
static const Str strings[] = {
    { 2, "int a = ", "\"", 0, "\"", "\"x\"", ESC | SPACES | NOT_CR, CE, "", { "; // b", "_s + 1;\n#if 1", "" } },
    { 2, "int a = ", "u8\"", 2, "\"", "\"x\"", ESC | SPACES | NOT_CR, CE, "", { "; // b", " \"c\"", "" } },
    { 2, "int a = ", "'", 0, "'", "'x'", ESC | SPACES | NOT_CR, CE, "", { "; // b", " + 'c'", "" } },
    { 2, "int a = ", "R\"(", 1, ")\"", "\"x\"", ML, "", "", { "; // b", "_s\n#if 1", "" } },
    { 2, "int a = ", "LR\"b(", 2, ")b\"", "\"x\"", ML, "", "", { "; // b", ")b\" \"c\"", ")b" } },
    { 6, "int a = ", "\"", 0, "\"", "\"x\"", ESC | SPACES | NOT_CR, CE, "", { "; // b", " \"c\"\n#if 1", "" } },
    { 6, "int a = ", "L'", 1, "'", "'x'", ESC | SPACES | NOT_CR, CE, "", { "; // b", " + 'c'", "" } },
    { 3, "a = ", "\"", 0, "\"", "\"x\"", ESC | WHOLE | NOT_CR, "", "", { " -- b", "..'c'", "" } },
    { 3, "a = ", "'", 0, "'", "'x'", ESC | WHOLE | NOT_CR, "", "", { " -- b", "..\"c\"", "" } },
    { 3, "a = ", "[[", 0, "]]", "'x'", ML | WHOLE, "", "", { " -- b", "..\"c\"", "]" } },
    { 3, "a = ", "[==[", 0, "]==]", "'x'", ML | WHOLE, "", "", { " -- b", "..\"c\"", "]=]" } },
    { 4, "<a b=", "\"", 0, "\"", "\"x\"", ML | WHOLE, "", "&", { ">c</a>", " d='e'>", "" } },
    { 4, "<a b=", "'", 0, "'", "'x'", ML | WHOLE, "", "&", { ">c</a>", " d=\"e\">", "" } },
    { 5, "a { b: ", "\"", 0, "\"", "\"x\"", ESC | WHOLE | FF | HEX, "", "", { "; c: d }", " 'e' }", "" } },
    { 5, "a { b: ", "'", 0, "'", "'x'", ESC | WHOLE | FF | HEX, "", "", { "; c: d }", " \"e\" }", "" } },
    { 5, "a { b: url(x", "", 0, ")", "y)", ESC | ML | FF | HEX | PARENS, "", "", { "; c: d }", " 'e' }", "" } },
    { 5, "@import url( x", "", 0, ")", "y)", ESC | ML | FF | HEX | PARENS, "", "", { " print;", ";\na { b: c }", "" } },
    { 7, "let a = ", "\"", 0, "\"", "\"x\"", ESC, "'\"\\bfnrtv", "", { "; // b", " / c / 'd'", "" } },
    { 7, "let a = ", "'", 0, "'", "'x'", ESC, "'\"\\bfnrtv", "", { "; // b", " / c / \"d\"", "" } },
    { 7, "let a = ", "`", 0, "`", "'x'", ESC | ML, "`'\"\\bfnrtv$", "${", { "; // b", " / c / \"d\"", "" } },
    { 20, "let a = ", "\"", 0, "\"", "\"x\"", ESC, "'\"\\bfnrtv", "", { "; // b", " / c / 'd'", "" } },
    { 20, "let a = ", "`", 0, "`", "'x'", ESC | ML, "`'\"\\bfnrtv$", "${", { "; // b", " / c / \"d\"", "" } },
    { 8, "a ", "'", 0, "'", "'x'", ML, "", "", { " b # c", " -d \"e\"", "" } },
    { 8, "a ", "\"", 0, "\"", "\"x\"", ESC | ML | LIT, "\\\"`$\n", "$", { " b # c", " -d 'e'", "" } },
    { 8, "", "\"", 0, "\"", "\"x\"", ESC | ML | LIT, "\\\"`$\n", "$", { " b # c", " -d 'e'", "" } },
    { 10, "[", "\"", 0, "\"", "\"x\"", ESC | NO_CONT, "\"\\/bfnrt", "\t\f\v", { ",\"b\"]", "\n]", "" } },
    { 11, "[", "\"", 0, "\"", "\"x\"", ESC | NO_CONT, "\"\\/bfnrt", "\t\f\v", { ",\"b\"]", "\n// c", "" } },
    { 12, "<a b=", "\"", 0, "\"", "\"x\"", ML, "", "&<", { ">c</a>", " d='e'/>", "" } },
    { 12, "<a b=", "'", 0, "'", "'x'", ML, "", "&<", { ">c</a>", " d=\"e\"/>", "" } },
    { 16, "db ", "'", 0, "'", "'x'", 0, "", "", { ", 1 ; c", " \"e\"", "" } },
    { 16, "db ", "\"", 0, "\"", "\"x\"", 0, "", "", { ", 1 ; c", " 'e'", "" } },
    { 16, "db ", "`", 0, "`", "'x'", ESC | NO_LINE, "'\"`\\?abefnrtv", "\v", { ", 1 ; c", " 'e'", "" } },
    { 17, "a = ", "'", 0, "'", "'x'", ML, "", "", { ", b;", "| \"c\";", "" } },
    { 17, "a = ", "\"", 0, "\"", "\"x\"", ML, "", "", { ", b;", "| 'c';", "" } },
    { 18, "a = ", "\"", 0, "\"", "\"x\"", ESC | TRIPLE, CE, "", { " # b", " + 'c'", "" } },
    { 18, "a = ", "u'", 1, "'", "\"x\"", ESC | TRIPLE, CE, "", { " # b", " + \"c\"", "" } },
    { 18, "a = ", "b\"\"\"", 1, "\"\"\"", "'x'", ESC | ML, CE, "", { " # b", "\nc = 1", "\"\"" } },
    { 18, "a = ", "'''", 0, "'''", "\"x\"", ESC | ML, CE, "", { " # b", "\nc = 1", "''" } },
    { 18, "a = ", "r'", 1, "'", "\"x\"", ESC | TRIPLE | PAST, "", "", { " # b", " + \"c\"", "" } },
    { 19, "val a = ", "\"", 0, "\"", "\"x\"", ESC | NO_CONT | TRIPLE, "tbrn'\"\\$", "$", { " // b", " + 'c'", "" } },
    { 19, "val a = ", "\"\"\"", 0, "\"\"\"", "'x'", ML | EXTRA, "", "$", { " // b", "\nval c = 1", "\"\"" } },
    { 19, "val a = ", "'", 0, "'", "'x'", ESC | NO_CONT, "tbrn'\"\\$", "", { " // b", " + \"c\"", "" } },
    { 21, "let a = ", "\"", 0, "\"", "\"x\"", ESC | ML, "'\"\\nrt0", "", { "; // b", ", 'c'", "" } },
    { 21, "let a = ", "r\"", 1, "\"", "\"x\"", ML, "", "", { "; // b", "# ]", "" } },
    { 21, "let a = ", "br##\"", 2, "\"##", "\"x\"", ML, "", "", { "; // b", "# ]", "\"#" } },
    { 21, "let a = ", "c\"", 1, "\"", "\"x\"", ESC | ML, "'\"\\nrt", "", { "; // b", ", 'c'", "" } },
    { 22, "@a = global [2 x i8] c", "\"", 0, "\"", "\"x\"", ML | LIT, "\\", "", { " ; b", ", align 1", "" } },
    { 24, "String a = ", "\"", 0, "\"", "\"x\"", ESC | TRIPLE | NO_LINE, "btnfrs\"'\\", "", { "; // b", " + 'c'", "" } },
    { 24, "String a = ", "\"\"\"\n", 0, "\"\"\"", "\"x\"", ESC | ML, "btnfrs\"'\\", "", { "; // b", " + 'c'", "\"\"" } },
    { 24, "char a = ", "'", 0, "'", "'x'", ONE, "", "", { "; // b", " + \"c\"", "" } },
    { 25, "a: ", "'", 0, "'", "'x'", ML | DOUBLED, "", "", { "\nb: c", " # d", "" } },
    { 25, "a: ", "\"", 0, "\"", "\"x\"", ESC | ML, "0abtnvfre \"/\\N_LP", "", { "\nb: c", " # d", "" } },
};
static bool in(u8t c, const char* s) { for (; *s; s++) if (c == (u8t)*s) return true; return false; }
static bool hex(u8t c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static bool lang_json(const Str& s) { return s.lang == 10 || s.lang == 11; }
static size_t eol(const Str& s, const Text& t, size_t i)
{
    if (at(t, i, "\r\n")) return 2;
    if (at(t, i, "\n") || (!(s.how & NOT_CR) && at(t, i, "\r")) || ((s.how & FF) && at(t, i, "\f"))) return 1;
    return 0;
}
// How many bytes the character at t[i] has; anything ill-formed is a character of one byte.
static size_t char_len(const Text& t, size_t i)
{
    u8t c = t.b[i];
    size_t k = c < 0xc2 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : c < 0xf5 ? 4 : 1;
    if (k > t.n - i) return 1;
    for (size_t j = 1; j < k; j++) if ((t.b[i + j] & 0xc0) != 0x80) return 1;
    if ((c == 0xe0 && t.b[i + 1] < 0xa0) || (c == 0xed && t.b[i + 1] >= 0xa0) || (c == 0xf0 && t.b[i + 1] < 0x90) || (c == 0xf4 && t.b[i + 1] >= 0x90)) return 1;
    return k;
}
// Types that a byte of a string may have.
enum { M_STRING = 1, M_ESCAPE = 2, M_ERROR = 4, M_NONE = 8 };
static size_t string_end(const Str& s, const Text& t, size_t i, u8t* may, size_t& suffix)
{
    size_t cl = len(s.close);
    suffix = 0;
    bool loose = false;
    for (size_t k = i + len(s.open); k < t.n;) {
        if ((s.how & DOUBLED) && at(t, k, s.close) && at(t, k + cl, s.close)) { for (size_t j = 0; j < 2 * cl; j++) may[k + j] = M_STRING | M_ESCAPE; k += 2 * cl; continue; }
        if (at(t, k, s.close)) {
            if (s.how & EXTRA) while (k + cl < t.n && t.b[k + cl] == '"') may[k++] = M_STRING;
            suffix = cl;
            return k + cl;
        }
        size_t e = eol(s, t, k);
        if (e && !(s.how & ML)) return k;
        if (t.b[k] == '\\' && k + 1 < t.n && ((s.how & ESC) || *s.esc)) {
            size_t w = k + 1;
            if (s.how & SPACES) while (w < t.n && (t.b[w] == ' ' || t.b[w] == '\t' || t.b[w] == '\v' || t.b[w] == '\f')) w++;
            size_t le = eol(s, t, w);
            if (le && (s.how & NO_LINE)) sym_assume(false);
            if ((s.how & HEX) && hex(t.b[k + 1])) {
                size_t m = k + 1;
                while (m < t.n && m < k + 7 && hex(t.b[m])) m++;
                if (at(t, m, "\r\n")) m += 2;
                else if (m < t.n && in(t.b[m], " \t\r\n\f")) m++;
                for (; k < m; k++) may[k] = M_STRING | M_ESCAPE;
                continue;
            }
            if (le && (s.how & NO_CONT)) { may[k++] = M_STRING | M_ESCAPE | M_ERROR; continue; }
            if (le && (s.how & ESC) && !(s.how & LIT)) { // a continued line
                for (; k < w + le; k++) may[k] = M_STRING | M_ESCAPE | M_ERROR | M_NONE;
                continue;
            }
            if (in(t.b[k + 1], s.esc)) {
                may[k] = may[k + 1] = (s.how & PAST) ? M_STRING : (s.how & WHOLE) ? M_STRING | M_ESCAPE : M_ESCAPE;
                k += 2;
                continue;
            }
            if (s.how & ESC) {
                size_t c = char_len(t, k + 1);
                if (!(s.how & (PAST | LIT))) loose = true;
                for (size_t j = 0; j < 1 + c; j++) may[k + j] = (s.how & LIT) ? M_STRING : (s.how & PAST) ? M_STRING | M_ERROR : M_STRING | M_ESCAPE | M_ERROR;
                k += 1 + c;
                continue;
            }
            loose = true;
        }
        may[k] = loose || (t.b[k] == '\\' && k + 1 == t.n) ? M_STRING | M_ESCAPE | M_ERROR : M_STRING;
        if ((lang_json(s)) && t.b[k] < 0x20) may[k] |= M_ERROR;
        if (e || t.b[k] == '\r' || ((k > i || (s.how & PARENS)) && (t.b[k] == ' ' || t.b[k] == '\t'))) may[k] |= M_NONE;
        k++;
    }
    return t.n;
}
extern "C" void lex_string()
{
    int lang = (int)sym_param("lang", 2), flags = (int)sym_param("flags", 0);
    size_t n = (size_t)sym_param("n", 2), count = 0, which[8];
    for (size_t i = 0; i < sizeof strings / sizeof *strings; i++) if (strings[i].lang == lang) which[count++] = i;
    const Str& s = strings[which[sym_pick(count)]];
    u8t* h = (u8t*)sym_malloc(n ? n : 1, 1);
    sym_bytes(h, n);
    size_t shape = (size_t)sym_pick(4), post = (size_t)sym_pick(3);
    Text t;
    t.add(s.pre);
    size_t begin = t.n;
    t.add(s.open);
    if (shape & 1) t.add("ab");
    t.add(h, n);
    if (shape & 2) t.add("c");
    if (post < 2) t.add(s.close);
    t.add(s.post[post]);
    for (size_t i = 0; i < n; i++) {
        sym_assume(!in(h[i], s.no) || h[i] == 0);
        if (s.how & NOT_CR) sym_assume(h[i] != '\r');
    }
    if (s.how & ONE) { sym_assume(shape == 0 && post < 2 && n <= 4 && h[0] != '\\' && h[0] != '\'' && h[0] != '\n' && h[0] != '\r'); sym_assume(char_len(t, begin + 1) == n); }
    for (size_t i = 0; i < t.n;) { size_t k = char_len(t, i); sym_assume(k > 1 || t.b[i] < 0x80); i += k; }
    size_t prefix = len(s.open), suffix;
    u8t may[160];
    for (size_t i = 0; i < t.n; i++) may[i] = 0;
    size_t end = string_end(s, t, begin, may, suffix);
    if (s.how & TRIPLE) sym_assume(end != begin + prefix + suffix || !suffix || end >= t.n || t.b[end] != t.b[end - 1]);
    u8t a[160], b[160];
    ulight_status ra = classify(lang, flags, t, a);
    Text r;
    r.add(t.b, begin); r.add(s.full); size_t fe = r.n; r.add(t.b + end, t.n - end);
    ulight_status rb = classify(lang, flags, r, b);
    sym_assume(ra == ULIGHT_STATUS_OK && rb == ULIGHT_STATUS_OK); // H01
    for (size_t i = 0; i < begin; i++) sym_assert(a[i] == b[i], "a string changes what comes before it");
    for (size_t i = begin; i < end; i++) {
        if (i < begin + prefix || i >= end - suffix) {
            u8t want = (u8t)((s.how & PARENS) ? Ty::symbol_parens : (s.how & WHOLE) ? Ty::string : i < begin + (size_t)s.decor ? Ty::string_decor : Ty::string_delim);
            sym_assert(a[i] == want || t.b[i] == '\n', "a delimiter of a string is not highlighted as one");
            continue;
        }
        bool ok = ((may[i] & M_STRING) && a[i] == (u8t)Ty::string) || ((may[i] & M_ESCAPE) && a[i] == (u8t)Ty::string_escape)
            || ((may[i] & M_ERROR) && a[i] == (u8t)Ty::error) || ((may[i] & M_NONE) && a[i] == 0);
        sym_assert(ok, may[i] & M_ESCAPE ? "an escape in a string is not highlighted as one" : "the text of a string is not highlighted as such");
    }
    for (size_t i = end; i < t.n; i++) sym_assert(a[i] == b[i - end + fe], "a string changes what comes after it");
    sym_cover(end == t.n ? "string up to the end" : "string with something after it");
    sym_log(1, end);
    for (size_t i = 0; i < t.n; i++) sym_log(2, a[i]);
    sym_free(h);
}

// ------------------------------------------------------------------ K03: keywords
// What the definitions of the languages say about their words, by how these have to be highlighted:
// control flow; other keywords; builtin types; Booleans; null; this; and words which it is left open whether they are keywords.
struct Words { int lang; const char* control; const char* keyword; const char* type; const char* boolean; const char* null; const char* self; const char* any; const char* loose; };
static const Words words[] = {
    { 2, // https://eel.is/c++draft/lex.key; "loose": keywords of C and of compilers, which are not keywords in strict mode
      "break case catch continue do else for goto if return switch while co_await co_return co_yield",
      "_Atomic _Pragma alignas alignof and and_eq asm auto bitand bitor class compl concept const const_cast consteval constexpr constinit contract_assert decltype default delete "
      "dynamic_cast enum explicit export extern final friend inline mutable namespace new noexcept not not_eq operator or or_eq override private protected public register reinterpret_cast "
      "requires sizeof static static_assert static_cast struct template thread_local throw try typedef typeid typename union using virtual volatile xor xor_eq",
      "bool char char8_t char16_t char32_t double float int long short signed unsigned void wchar_t", "false true", "nullptr", "this",
      "import module pre post replaceable_if_eligible trivially_relocatable_if_eligible",
      "_Alignas _Alignof _BitInt _Bool _Complex _Decimal128 _Decimal32 _Decimal64 _ExtInt _Float128 _Float128x _Float16 _Float32 _Float32x _Float64 _Float64x _Generic _Imaginary _Noreturn "
      "_Static_assert _Thread_local __asm__ __attribute__ __extension__ __float128 __float80 __fp16 __ibm128 __imag__ __int128 __int16 __int256 __int32 __int64 __int8 __label__ __m128 "
      "__m128d __m128i __m256 __m256d __m256i __m512 __m512d __m512i __m64 __mmask16 __mmask32 __mmask64 __mmask8 __ptr32 __ptr64 __real__ __restrict complex imaginary noreturn restrict "
      "typeof typeof_unqual" },
    { 6, // C23, 6.4.1, and the macros of <complex.h>, <iso646.h> and <stdnoreturn.h>
      "break case continue do else for goto if return switch while",
      "_Alignas _Alignof _Atomic _Complex _Generic _Imaginary _Noreturn _Pragma _Static_assert _Thread_local alignas alignof auto const constexpr default enum extern inline register restrict "
      "sizeof static static_assert struct thread_local typedef typeof typeof_unqual union volatile and and_eq bitand bitor compl not not_eq or or_eq xor xor_eq complex imaginary noreturn",
      "_BitInt _Bool _Decimal128 _Decimal32 _Decimal64 _Float128 _Float128x _Float16 _Float32 _Float32x _Float64 _Float64x bool char double float int long short signed unsigned void",
      "false true", "nullptr", "", "asm",
      "_ExtInt __asm__ __attribute__ __extension__ __float128 __float80 __fp16 __ibm128 __imag__ __int128 __int16 __int256 __int32 __int64 __int8 __label__ __m128 "
      "__m128d __m128i __m256 __m256d __m256i __m512 __m512d __m512i __m64 __mmask16 __mmask32 __mmask64 __mmask8 __ptr32 __ptr64 __real__ __restrict" },
    { 3, // https://www.lua.org/manual/5.4/manual.html#3.1
      "break do else elseif end for goto if repeat return then until while", "and function in local not or", "", "false true", "nil", "", "", "" },
    { 7, // https://tc39.es/ecma262/#sec-keywords-and-reserved-words
      "break case catch continue default do else finally for if return switch throw try while with",
      "async await class const debugger delete enum export extends function import in instanceof let new static typeof var void yield as from get of set", "", "false true", "null undefined",
      "super this", "implements interface package private protected public accessor meta target eval arguments boolean number string any object symbol bigint NaN Infinity", "" },
    { 20, "break case catch continue default do else finally for if return switch throw try while with",
      "async await class const debugger delete enum export extends function import in instanceof let new static typeof var void yield as from get of set "
      "abstract asserts constructor declare implements interface is private protected public type",
      "any boolean number string", "false true", "null undefined", "super this",
      "accessor bigint global infer intrinsic keyof meta module namespace never object out override package readonly require satisfies symbol target unique unknown using eval arguments NaN Infinity", "" },
    { 18, // https://docs.python.org/3/reference/lexical_analysis.html#keywords
      "await break case continue elif else except finally for if match pass raise return try while yield",
      "and as assert async class def del from global import in is lambda nonlocal not or with", "", "False True", "None", "", "type _ print exec", "" },
    { 24, // https://docs.oracle.com/javase/specs/jls/se24/html/jls-3.html#jls-3.9
      "break case catch continue default do else finally for if return switch throw try while yield",
      "_ abstract assert class const enum extends final goto implements import instanceof interface native new package private protected public static strictfp synchronized throws transient "
      "volatile exports module open opens permits provides record requires sealed to transitive uses var when with",
      "boolean byte char double float int long short void", "false true", "null", "super this", "", "" },
    { 19, // https://kotlinlang.org/docs/keyword-reference.html
      "break catch continue do else finally for if return throw try when while",
      "as class fun in interface is object package typealias typeof val var by constructor delegate dynamic field file get import init param receiver set setparam value abstract actual annotation "
      "companion const data enum expect final inline internal lateinit noinline open operator out private protected public reified sealed suspend vararg",
      "", "false true", "null", "super this", "assert async await crossinline external infix inner override property tailrec where it all", "" },
    { 21, // https://doc.rust-lang.org/reference/keywords.html
      "await break continue do else for if loop match return try while",
      "abstract as async become box const crate dyn enum extern final fn gen impl in let macro macro_rules mod move mut override priv pub raw ref safe static struct trait type typeof union unsafe "
      "unsized use virtual where yield",
      "Self bool char f32 f64 i128 i16 i32 i64 i8 isize str u128 u16 u32 u64 u8 usize", "false true", "", "self super", "auto default f16 f128 String CStr CString OsStr OsString", "" },
    { 22, // https://llvm.org/docs/LangRef.html#type-system: words are not names, except for labels
      "br call callbr catchpad catchret catchswitch cleanuppad cleanupret indirectbr invoke landingpad resume ret switch unreachable",
      nullptr, "bfloat double float fp128 half label metadata ppc_fp128 ptr target token void vscale x86_amx x86_fp80", "false true", "none null poison undef", "", "c x", "" },
    { 16, // https://www.nasm.us/doc/nasm03.html
      "", "seg wrt", "byte dword oword qword tword word yword zword far ptr", "", "", "", "near short strict to nosplit rel abs default", "" },
};
enum { W_CONTROL = 1, W_KEYWORD = 2, W_TYPE = 4, W_BOOL = 8, W_NULL = 16, W_SELF = 32, W_ANY = 64, W_LOOSE = 128 };
static u8t fold(u8t c) { return (u8t)(c + ((u8t)(c - 'A') < 26) * 32); }
// Whether a list has the word, without splitting on what its characters are.
static unsigned listed(const char* s, const u8t* w, size_t n, bool nocase)
{
    unsigned r = 0;
    if (s) for (const char* p = s; *p;) {
        size_t k = 0;
        while (p[k] && p[k] != ' ') k++;
        if (k == n) {
            unsigned d = 0;
            for (size_t i = 0; i < n; i++) d |= (unsigned)((u8t)p[i] ^ (nocase ? fold(w[i]) : w[i]));
            r |= (unsigned)(d == 0);
        }
        p += k;
        if (*p) p++;
    }
    return r;
}
static size_t list_size(const char* s) { size_t n = 0; if (s && *s) for (n = 1; *s; s++) n += *s == ' '; return n; }
static const char* list_word(const char* s, size_t i) { for (; i; s++) i -= *s == ' '; return s; }
extern "C" void lex_word()
{
    int lang = (int)sym_param("lang", 2), flags = (int)sym_param("flags", 0);
    size_t n = (size_t)sym_param("n", 3), which = 0;
    while (words[which].lang != lang) which++;
    const Words& w = words[which];
    const char* const lists[] = { w.control, w.keyword, w.type, w.boolean, w.null, w.self, w.any, w.loose };
    u8t b[40];
    if (n) { sym_bytes(b, n); }
    else { // one of the words, with one character replaced or added
        size_t total = 0, l = 0;
        for (const char* s : lists) total += list_size(s);
        size_t i = (size_t)sym_pick(total);
        while (i >= list_size(lists[l])) i -= list_size(lists[l++]);
        const char* s = list_word(lists[l], i);
        while (s[n] && s[n] != ' ') { b[n] = (u8t)s[n]; n++; }
        size_t at = (size_t)sym_pick(n + 1);
        b[at] = sym_u8();
        if (at == n) n++;
    }
    for (size_t i = 0; i < n; i++) {
        unsigned letter = (unsigned)((u8t)(fold(b[i]) - 'a') < 26) | (unsigned)(b[i] == '_'), digit = (unsigned)((u8t)(b[i] - '0') < 10);
        sym_assume((letter | (i ? digit : 0u)) != 0);
    }
    if (lang == 22 && n >= 3) sym_assume(((unsigned)(b[0] == 'u') | (unsigned)(b[0] == 's')) == 0 || b[1] != '0' || b[2] != 'x'); // a number
    static const char* const around[][2] = { { "", "" }, { " ", "\n" }, { "(", ")" } };
    size_t a = lang == 16 || lang == 22 ? (size_t)sym_pick(2) : (size_t)sym_pick(3);
    Text t;
    t.add(around[a][0]);
    size_t begin = t.n;
    t.add(b, n);
    t.add(around[a][1]);
    u8t o[160];
    sym_assume(classify(lang, flags, t, o) == ULIGHT_STATUS_OK); // H01
    u8t ty = o[begin];
    for (size_t i = 1; i < n; i++) sym_assert(o[begin + i] == ty, "a word is split");
    unsigned is = 0;
    for (unsigned k = 0; k < 8; k++) is |= listed(lists[k], b, n, lang == 16) << k;
    if (lang == 22) { // i1, i32, ...
        unsigned num = (unsigned)(n > 1) & (unsigned)(b[0] == 'i');
        for (size_t i = 1; i < n; i++) num &= (unsigned)((u8t)(b[i] - '0') < 10);
        is |= num * W_TYPE;
    }
    bool name = ty >= 0x40 && ty < 0x80, kw = ty == (u8t)Ty::keyword || ty == (u8t)Ty::keyword_control || ty == (u8t)Ty::keyword_op;
    bool type = ty == (u8t)Ty::keyword_type || ty == (u8t)Ty::name_type_builtin;
    if (lang == 22) name = kw; // words that are not special
    if ((flags & ULIGHT_STRICT) && !name) sym_assert(!(is & W_LOOSE), "an extension is a keyword in strict mode");
    if (!(flags & ULIGHT_STRICT)) sym_assert(!(is & W_LOOSE) | kw | type, "a keyword of a compiler or of C is not highlighted as one");
    sym_assert(!(is & W_CONTROL) | (ty == (u8t)Ty::keyword_control), "a control flow keyword is not highlighted as one");
    sym_assert(!(is & W_KEYWORD) | kw, "a keyword is not highlighted as one");
    sym_assert(!(is & W_TYPE) | type, "a builtin type is not highlighted as one");
    sym_assert(!(is & W_BOOL) | (ty == (u8t)Ty::bool_), "a Boolean is not highlighted as one");
    sym_assert(!(is & W_NULL) | (ty == (u8t)Ty::null), "a null value is not highlighted as one");
    sym_assert(!(is & W_SELF) | (ty == (u8t)Ty::keyword_this), "this, self or super is not highlighted as one");
    sym_assert((is != 0) | name, "a word that is not a keyword is not highlighted as a name");
    sym_log(1, ty);
    sym_cover(name ? "name" : "keyword");
}
// NASM: registers are variables wherever they are, and the operands of jumps, calls and loops are labels.
static const char* const nasm_registers =
    "al bl cl dl ah bh ch dh ax bx cx dx si di sp bp eax ebx ecx edx esi edi esp ebp rax rbx rcx rdx rsi rdi rsp rbp sil dil spl bpl cs ds es fs gs ss ip eip rip "
    "r8 r9 r10 r11 r12 r13 r14 r15 r8d r9d r10d r11d r12d r13d r14d r15d r8w r9w r10w r11w r12w r13w r14w r15w r8b r9b r10b r11b r12b r13b r14b r15b "
    "r16 r17 r18 r19 r20 r21 r22 r23 r24 r25 r26 r27 r28 r29 r30 r31 r16d r23d r31d r16w r23w r31w r16b r23b r31b "
    "k0 k1 k2 k3 k4 k5 k6 k7 cr0 cr2 cr3 cr4 cr8 dr0 dr1 dr2 dr3 dr6 dr7 mm0 mm1 mm2 mm3 mm4 mm5 mm6 mm7 st0 st1 st2 st3 st4 st5 st6 st7 "
    "xmm0 xmm1 xmm2 xmm3 xmm4 xmm5 xmm6 xmm7 xmm8 xmm9 xmm10 xmm11 xmm12 xmm13 xmm14 xmm15 xmm16 xmm17 xmm18 xmm19 xmm20 xmm21 xmm22 xmm23 xmm24 xmm25 xmm26 xmm27 xmm28 xmm29 xmm30 xmm31 "
    "ymm0 ymm1 ymm2 ymm3 ymm4 ymm5 ymm6 ymm7 ymm8 ymm9 ymm10 ymm11 ymm12 ymm13 ymm14 ymm15 ymm16 ymm17 ymm18 ymm19 ymm20 ymm21 ymm22 ymm23 ymm24 ymm25 ymm26 ymm27 ymm28 ymm29 ymm30 ymm31 "
    "zmm0 zmm1 zmm2 zmm3 zmm4 zmm5 zmm6 zmm7 zmm8 zmm9 zmm10 zmm11 zmm12 zmm13 zmm14 zmm15 zmm16 zmm17 zmm18 zmm19 zmm20 zmm21 zmm22 zmm23 zmm24 zmm25 zmm26 zmm27 zmm28 zmm29 zmm30 zmm31";
static const char* const nasm_jumps = "call ja jae jb jbe jc jcxz je jecxz jg jge jl jle jmp jna jnae jnb jnbe jnc jne jng jnge jnl jnle jno jnp jns jnz jo jp jpe jpo jrcxz js jz "
                                      "loop loope loopne loopnz loopz";
static const char* const nasm_open = // other registers and instructions, for which it is left open
    "cr1 cr5 cr6 cr7 cr9 dr4 dr5 dr8 dr9 r16 cw sw tr st bnd0 bnd1 bnd2 bnd3 flags eflags rflags xmm32 ymm32 zmm32 jpo "
    "r0 r1 r2 r3 r4 r5 r6 r7 r17 r18 r19 r20 r21 r22 r24 r25 r26 r27 r28 r29 r30 xbegin jmpe "
    "seg wrt byte dword oword qword tword word yword zword far ptr near short strict to nosplit rel abs default";
extern "C" void lex_nasm()
{
    size_t n = (size_t)sym_param("n", 3);
    const char* const lists[] = { nasm_registers, nasm_jumps, nasm_open };
    u8t b[16];
    if (n) sym_bytes(b, n);
    else {
        size_t l = (size_t)sym_pick(2);
        const char* s = list_word(lists[l], (size_t)sym_pick(list_size(lists[l])));
        while (s[n] && s[n] != ' ') { b[n] = (u8t)s[n]; n++; }
        size_t at = (size_t)sym_pick(n + 1);
        b[at] = sym_u8();
        if (at == n) n++;
    }
    for (size_t i = 0; i < n; i++) {
        unsigned letter = (unsigned)((u8t)(fold(b[i]) - 'a') < 26) | (unsigned)(b[i] == '_'), digit = (unsigned)((u8t)(b[i] - '0') < 10);
        sym_assume((letter | (i ? digit : 0u)) != 0);
    }
    // r16 to r31 have parts of 8, 16 and 32 bits as well
    if (n == 4) sym_assume((fold(b[0]) == 'r') == 0 || ((u8t)(b[1] - '1') >= 3) || ((unsigned)(fold(b[3]) == 'b') | (unsigned)(fold(b[3]) == 'w') | (unsigned)(fold(b[3]) == 'd')) == 0 || listed(nasm_registers, b, n, true));
    static const char* const before[] = { "", "\t", "a: ", "mov " };
    size_t pre = (size_t)sym_param("everywhere", 0) ? (size_t)sym_pick(4) : (size_t)sym_pick(2) * 3;
    Text t;
    t.add(before[pre]);
    size_t begin = t.n;
    t.add(b, n);
    if (pre < 3) t.add(" foo\n");
    u8t o[160];
    sym_assume(classify(16, 0, t, o) == ULIGHT_STATUS_OK); // H01
    unsigned reg = listed(nasm_registers, b, n, true), jump = listed(nasm_jumps, b, n, true), open = listed(nasm_open, b, n, true);
    if (pre == 3) jump = 0;
    sym_assert(!reg | (o[begin] == (u8t)Ty::name_var), "a register is not highlighted as a variable");
    if (pre == 3) { if (jump == 0) sym_cover("operand"); sym_log(1, o[begin]); return; }
    sym_assert((reg | open) | (unsigned)(o[begin] == (u8t)Ty::name_instruction) | (unsigned)(o[begin] == (u8t)Ty::name_instruction_pseudo), "an instruction is not highlighted as one");
    sym_assert(!jump | (o[begin + n + 1] == (u8t)Ty::name_label), "the target of a jump is not highlighted as a label");
    sym_assert((jump | open) | (unsigned)(o[begin + n + 1] == (u8t)Ty::name_var), "an operand is not highlighted as a variable");
    sym_log(1, o[begin]);
    sym_log(2, o[begin + n + 1]);
    sym_cover(jump ? "jump" : "other instruction");
}
// CSS: a word followed by a parenthesis is a function, except for url.
extern "C" void lex_css()
{
    size_t n = (size_t)sym_param("n", 3);
    u8t b[8];
    sym_bytes(b, n);
    for (size_t i = 0; i < n; i++) {
        unsigned letter = (unsigned)((u8t)(fold(b[i]) - 'a') < 26) | (unsigned)(b[i] == '_'), digit = (unsigned)((u8t)(b[i] - '0') < 10) | (unsigned)(b[i] == '-');
        sym_assume((letter | (i ? digit : 0u)) != 0);
    }
    static const char* const after[] = { "(\"x\"); }", "; c: d }", " (x) }", "" };
    size_t a = (size_t)sym_pick(4);
    Text t;
    t.add("a { b: ");
    size_t begin = t.n;
    t.add(b, n);
    t.add(after[a]);
    u8t o[160];
    sym_assume(classify(5, 0, t, o) == ULIGHT_STATUS_OK); // H01
    unsigned url = listed("url", b, n, true);
    if (a) url = 0;
    for (size_t i = 0; i < n; i++) {
        sym_assert(!url | (o[begin + i] == (u8t)Ty::keyword), "url is not highlighted as a keyword");
        sym_assert(url | (unsigned)(o[begin + i] == (u8t)(a ? Ty::name : Ty::name_function)), "a name or function is not highlighted as one");
    }
    sym_log(1, o[begin]);
    sym_cover(url ? "url" : "other word");
}

// ------------------------------------------------------------------ K04: numbers
// A form of literals. Digits are symbolic; everything else is chosen.
enum {
    FRAC = 1, // may have a fraction
    NO_INT = 2, // ... without digits before the point
    NO_FRAC = 4, // ... without digits after it
    POINT = 8, // has to have a point
    EXP = 16, // may have an exponent (e)
    EXP16 = 32, // has to have a binary exponent (p)
    SIGN = 64, // may have a minus
    PLUS = 128, // may have a plus
    ZERO = 256, // may begin with zero though more digits follow
    OPT16 = 512, // may have a binary exponent (p)
    DIGIT = 1024, // begins with a decimal digit (hexadecimal numbers)
    OCTALISH = 2048, // begins with zero only if followed by 8 or 9
    PLAIN = 4096, // is a number as a whole, including prefix, suffix, points, exponents
    NO_SEP = 8192, // without separators
    UNIT = 16384, // PLAIN, but with a suffix that is highlighted as such
    NUMPRE = 32768, // the prefix is highlighted like digits
    MEMBER = 65536, // members can be accessed if ...
};
enum { REP = 1, TRAIL = 2, AFTER = 4, LEADEXP = 8 };
struct Form { int lang; int base; int how; const char* pre; const char* suf; };
struct NumLang { int lang; char sep; int seps; const char* pre; const char* post; };
static const NumLang numlangs[] = {
    { 6, '\'', 0, "|x = |(|x?|x-|x<|x%", "\n|)|;|+1|, b| - c" },
    { 2, '\'', 0, "|x = |(|x?|x-|x<|x%", "\n|)|;|+1|, b| - c" },
    { 3, 0, 0, "x = |f(|x=y-|x=y<|x=y//|{", "\n|)|;|+1|, b| - c" },
    { 5, 0, 0, "a { b: |a { b: c ", "\n}|;|, d| e|/2" },
    { 7, '_', 0, "|x = |(|x?|x-|x<|x??|{x:", "\n|)|;|+1|, b| - c|.a(" },
    { 20, '_', 0, "|x = |(|x?|x-|x<|x??|{x:", "\n|)|;|+1|, b| - c|.a(" },
    { 16, '_', 0, "mov eax, |dd |dd b+|dd b*", "\n|+1|, b| - c| ; 7" },
    { 18, '_', AFTER, "|x = |(|x-|x<|x**|[x:|x@", "\n|)|;|+1|, b| - c|.a(|:" },
    { 19, '_', REP, "|x = |(|x-|x<|x?:", "\n|)|;|+1|, b| - c|.a(|..7|..<7" },
    { 24, '_', REP, "|x = |(|x?|x-|x<|x>>>", "\n|)|;|+1|, b| - c" },
    { 21, '_', REP | TRAIL | AFTER | LEADEXP, "|x = |(|x-|x<<|x=|x..=", "\n|)|;|+1|, b| - c|.a(|..7|..=7" },
    { 22, 0, 0, "store i32 |(", "\n|)|, b|]" },
    { 25, 0, 0, "a: |- |[", "\n| # 7\n" },
};
#define INTS_C "|u|U|l|L|ul|uL|LU|ll|LL|ull|uLL|llu|wb|uwb|WB"
#define FLOATS_C "|f|F|l|L"
static const Form forms[] = {
    { 6, 10, 0, "", INTS_C }, { 6, 8, ZERO | NUMPRE, "0", INTS_C }, { 6, 16, ZERO, "0x|0X", INTS_C }, { 6, 2, ZERO, "0b|0B", INTS_C },
    { 6, 10, FRAC | POINT | NO_INT | NO_FRAC | EXP | ZERO, "", FLOATS_C "|df|dd|DL" }, { 6, 10, EXP | POINT | ZERO, "", FLOATS_C }, { 6, 16, FRAC | NO_INT | NO_FRAC | EXP16 | ZERO, "0x|0X", FLOATS_C },
    { 2, 10, 0, "", INTS_C "|z|uz|UZ|zu|_a|s|ms" }, { 2, 8, ZERO | NUMPRE, "0", INTS_C }, { 2, 16, ZERO, "0x|0X", INTS_C "|_a" }, { 2, 2, ZERO, "0b|0B", INTS_C "|_a" },
    { 2, 10, FRAC | POINT | NO_INT | NO_FRAC | EXP | ZERO, "", FLOATS_C "|f16|bf16|_a|i|s" }, { 2, 16, FRAC | NO_INT | NO_FRAC | EXP16 | ZERO, "0x|0X", FLOATS_C "|f64|_a" },
    { 3, 10, PLAIN | FRAC | NO_INT | NO_FRAC | EXP | ZERO, "", "" }, { 3, 16, PLAIN | FRAC | NO_INT | NO_FRAC | OPT16 | ZERO, "0x|0X", "" },
    { 5, 10, UNIT | SIGN | PLUS | FRAC | NO_INT | EXP | ZERO, "", "|%|px|em|ex|s|--a" },
    { 7, 10, OCTALISH, "", "" }, { 7, 10, 0, "", "n" }, { 7, 16, ZERO | MEMBER, "0x|0X", "|n" }, { 7, 8, ZERO | MEMBER, "0o|0O", "|n" }, { 7, 2, ZERO | MEMBER, "0b|0B", "|n" }, { 7, 8, ZERO | NUMPRE | NO_SEP, "0", "" },
    { 7, 10, FRAC | NO_INT | NO_FRAC | POINT | EXP | OCTALISH | MEMBER, "", "" },
    { 20, 10, OCTALISH, "", "" }, { 20, 10, 0, "", "n" }, { 20, 16, ZERO | MEMBER, "0x|0X", "|n" }, { 20, 8, ZERO | MEMBER, "0o|0O", "|n" }, { 20, 2, ZERO | MEMBER, "0b|0B", "|n" },
    { 20, 10, FRAC | NO_INT | NO_FRAC | POINT | EXP | OCTALISH | MEMBER, "", "" },
    { 16, 10, ZERO, "", "|d|D|t|T" }, { 16, 16, ZERO, "0x|0X|0h|0H", "" }, { 16, 16, ZERO | DIGIT, "$", "" }, { 16, 8, ZERO, "0o|0O|0q|0Q", "" }, { 16, 2, ZERO, "0b|0B|0y|0Y", "" }, { 16, 10, ZERO, "0d|0D|0t|0T", "" },
    { 16, 16, ZERO | DIGIT, "", "h|H|x|X" }, { 16, 8, ZERO, "", "o|O|q|Q" }, { 16, 2, ZERO, "", "b|B|y|Y" }, { 16, 10, ZERO | FRAC | POINT | NO_FRAC | EXP, "", "" }, { 16, 16, ZERO | FRAC | NO_FRAC | EXP16, "0x|0X", "" },
    { 18, 10, 0, "", "|j|J" }, { 18, 16, ZERO | MEMBER, "0x|0X", "" }, { 18, 8, ZERO | MEMBER, "0o|0O", "" }, { 18, 2, ZERO | MEMBER, "0b|0B", "" }, { 18, 10, FRAC | NO_INT | NO_FRAC | POINT | EXP | ZERO | MEMBER, "", "|j|J" },
    { 19, 10, MEMBER, "", "|L|u|U|uL|UL|f|F" }, { 19, 16, ZERO | MEMBER, "0x|0X", "|L|u|U|uL|UL" }, { 19, 2, ZERO | MEMBER, "0b|0B", "|L|u|U|uL|UL" }, { 19, 10, FRAC | NO_INT | EXP | POINT | ZERO | MEMBER, "", "|f|F" },
    { 24, 10, 0, "", "|l|L|f|F|d|D" }, { 24, 16, ZERO, "0x|0X", "|l|L" }, { 24, 2, ZERO, "0b|0B", "|l|L" }, { 24, 8, ZERO | NUMPRE, "0", "|l|L" }, { 24, 10, FRAC | NO_INT | EXP | POINT | ZERO, "", "|f|F|d|D" }, { 24, 16, FRAC | NO_INT | EXP16 | ZERO, "0x|0X", "|f|F|d|D" },
    { 21, 10, ZERO | MEMBER, "", "|u8|i32|usize|u128|f32|f64" }, { 21, 16, ZERO | MEMBER, "0x", "|u8|i64|usize" }, { 21, 8, ZERO | MEMBER, "0o", "|u8|i64|usize" }, { 21, 2, ZERO | MEMBER, "0b", "|u8|i64|usize" },
    { 21, 10, ZERO | FRAC | POINT | EXP | MEMBER, "", "|f32|f64" },
    { 22, 10, ZERO | SIGN, "", "" }, { 22, 10, ZERO | SIGN | PLUS | FRAC | POINT | NO_FRAC | EXP, "", "" }, { 22, 16, ZERO, "0x|0xH|0xK|0xL|0xM|0xR|s0x|u0x", "" },
    { 25, 10, PLAIN | ZERO | SIGN | PLUS | FRAC | NO_INT | NO_FRAC | EXP, "", "" }, { 25, 16, PLAIN | ZERO, "0x", "" }, { 25, 8, PLAIN | ZERO, "0o", "" },
};
// One of several strings, separated by bars.
static const char* one_of(const char* s, char* out)
{
    size_t n = 1;
    for (const char* p = s; *p; p++) n += *p == '|';
    size_t k = (size_t)sym_pick(n), i = 0;
    for (; k; s++) k -= *s == '|';
    for (; *s && *s != '|'; s++) out[i++] = *s;
    out[i] = 0;
    return out;
}
struct Number {
    u8t b[40], ty[40];
    size_t n = 0;
    void put(u8t c, u8t t) { b[n] = c; ty[n++] = t; }
    void put(const char* s, u8t t) { while (*s) put((u8t)*s++, t); }
};
static const u8t T_NUM = (u8t)Ty::number, T_DELIM = (u8t)Ty::number_delim, T_DECOR = (u8t)Ty::number_decor, T_ANY = 255;
// Up to max digits and separators.
static void put_digits(Number& w, int base, size_t max, char sep, int seps, bool first)
{
    bool some = false, was = true;
    size_t n = 1 + (size_t)sym_pick(max);
    for (size_t i = 0; i < n; i++) {
        bool may = sep && (!some ? first && (!i || (seps & REP)) : !was || (seps & REP)) && (i + 1 < n || (seps & TRAIL));
        if (i + 1 == n && !some) may = false;
        if (may && sym_pick(2)) { w.put((u8t)sep, T_DELIM); was = true; continue; }
        u8t c = sym_u8();
        sym_assume(((unsigned)((u8t)(c - '0') < (base < 10 ? base : 10)) | ((unsigned)(base == 16) & (unsigned)((u8t)(fold(c) - 'a') < 6))) != 0);
        w.put(c, T_NUM);
        some = true;
        was = false;
    }
}
static bool is_number(u8t t) { return ((unsigned)(t == T_NUM) | (unsigned)(t == T_DELIM) | (unsigned)(t == T_DECOR)) != 0; }
extern "C" void lex_number()
{
    int lang = (int)sym_param("lang", 6);
    size_t max = (size_t)sym_param("n", 3), part = (size_t)sym_param("part", 2);
    const NumLang* l = numlangs;
    while (l->lang != lang) l++;
    size_t count = 0;
    for (const Form& f : forms) count += f.lang == lang;
    size_t which = (size_t)sym_pick(count);
    const Form* f = forms;
    while (f->lang != lang || which--) f++;
    int how = f->how;
    char sep = how & NO_SEP ? 0 : l->sep;
    bool plain = how & (PLAIN | UNIT), member = how & MEMBER, fraction = false;
    u8t delim = plain ? T_NUM : T_DELIM;
    Number w;
    char buf[40];
    // sign and prefix
    size_t signs = how & PLUS ? 3 : how & SIGN ? 2 : 1, sign = (size_t)sym_pick(signs);
    if (sign) w.put(sign == 1 ? '-' : '+', plain ? T_NUM : T_ANY);
    const char* prefix = one_of(f->pre, buf);
    w.put(prefix, plain || (how & NUMPRE) ? T_NUM : T_DECOR);
    bool has_prefix = prefix[0];
    // digits and fraction
    size_t begin = w.n;
    bool no_int = (how & NO_INT) && sym_pick(2);
    if (!no_int) {
        put_digits(w, f->base, max, sep, l->seps, has_prefix && ((l->seps & AFTER) || (how & NUMPRE)));
        if (how & DIGIT) sym_assume((u8t)(w.b[begin] - '0') < 10);
        if (!(how & ZERO) && w.n > begin + 1) {
            if (how & OCTALISH) {
                bool any = false;
                for (size_t i = begin + 1; i < w.n; i++) any |= w.b[i] == '_';
                if (any) sym_assume(w.b[begin] != '0');
                else sym_assume(((unsigned)(w.b[begin] != '0') | (unsigned)((u8t)(w.b[begin + 1] - '8') < 2)) != 0);
            }
            else sym_assume(w.b[begin] != '0');
        }
    }
    if ((how & FRAC) && (no_int || sym_pick(2))) {
        fraction = true;
        w.put('.', delim);
        if (no_int || !(how & NO_FRAC) || sym_pick(2)) put_digits(w, f->base, part, sep, l->seps, false);
    }
    // exponent
    bool need = (how & EXP16) || ((how & POINT) && !fraction);
    bool exponent = need || ((how & (EXP | OPT16)) && sym_pick(2));
    if (exponent) {
        sym_assume(how & (EXP | EXP16 | OPT16));
        if (lang == 16 || lang == 22) { if (!(how & EXP16) && !fraction) sym_ignore(); } // they need a point
        bool upper = sym_pick(2);
        w.put(how & EXP ? (upper ? 'E' : 'e') : (upper ? 'P' : 'p'), delim);
        size_t es = (size_t)sym_pick(3);
        if (es) w.put(es == 1 ? '-' : '+', plain ? T_NUM : T_ANY);
        put_digits(w, 10, part, sep, l->seps, l->seps & LEADEXP);
    }
    // suffix
    bool point = w.ty[w.n - 1] == T_DELIM && !exponent && w.b[w.n - 1] == '.';
    const char* suffix = one_of(f->suf, buf);
    if (suffix[0]) {
        if (lang == 21 && point) sym_ignore(); // a member
        w.put(suffix, T_DECOR);
    }
    if (suffix[0] && lang != 21 && lang != 19) member = false;
    if ((lang == 7 || lang == 20) && !has_prefix && (fraction || exponent)) member = true;
    // around it
    Text t;
    bool around = (size_t)sym_param("around", 0) || w.n <= 2;
    if (around) { const char* s = one_of(l->pre, buf); t.add(s); }
    else { for (const char* s = l->pre; *s && *s != '|'; s++) t.b[t.n++] = (u8t)*s; }
    size_t at = t.n;
    t.add(w.b, w.n);
    size_t end = t.n;
    bool any = false;
    if (around && lang != 25 && sym_pick(2)) { // any other character
        any = true;
        u8t c = sym_u8();
        unsigned word = (unsigned)((u8t)(fold(c) - 'a') < 26) | (unsigned)((u8t)(c - '0') < 10) | (unsigned)(c >= 0x80) | (unsigned)(c == '_') | (unsigned)(c == '.') | (unsigned)(c == (u8t)l->sep);
        if (lang == 5) word |= (unsigned)(c == '%') | (unsigned)(c == '\\') | (unsigned)(c == '-');
        sym_assume(word == 0);
        if (lang == 2 || lang == 6) sym_assume(c != '+' && c != '-');
        if (lang == 2 || lang == 6) sym_assume(c != '\\' && c != '$'); // continued lines, identifiers
        if (lang == 22) sym_assume(c != ':'); // a label
        t.b[t.n++] = c;
        t.add("z");
    }
    else if (around) {
        one_of(l->post, buf);
        if (buf[0] == '.') {
            if (!member) sym_ignore();
            if (point && (lang == 21)) sym_ignore();
        }
        if (buf[0] == '+' && (lang == 2 || lang == 6) && f->base == 16) sym_assume(fold(w.b[w.n - 1]) != 'e'); // 0xE+1 is one token
        if (lang == 25 && t.b[0] == '[') t.add("]");
        t.add(buf);
    }
    u8t o[160];
    sym_assume(classify(lang, 0, t, o) == ULIGHT_STATUS_OK); // H01
    for (size_t i = 0; i < w.n; i++) {
        u8t ty = o[at + i];
        if (w.ty[i] == T_ANY) sym_assert(is_number(ty), "a part of a number is not highlighted as one");
        else if (w.ty[i] == T_NUM) sym_assert(ty == T_NUM, "a digit is not highlighted as a number");
        else if (w.ty[i] == T_DELIM) sym_assert(ty == T_DELIM, "a point, separator or exponent is not highlighted as one");
        else sym_assert(ty == T_DECOR, "a prefix or suffix is not highlighted as one");
    }
    if (end < t.n) {
        sym_assert(!is_number(o[end]), "something after a number is highlighted as a part of it");
        if (!any) sym_assert(o[end] != (u8t)Ty::error, "something after a number is highlighted as an error");
        if (t.b[end] == '.') sym_assert(t.b[end + 1] != 'a' || !is_number(o[end + 1]), "a member is highlighted as a part of a number");
        if (t.b[end] == '.' && t.b[end + 1] == '.') sym_assert(!is_number(o[end + 1]) && o[t.n - 1] == T_NUM, "the end of a range is not highlighted as a number");
    }
    sym_log(1, o[at]);
    sym_cover(suffix[0] ? "suffix" : fraction ? "fraction" : exponent ? "exponent" : "integer");
}

// ------------------------------------------------------------------ K05: embedded code
// Code W between open and close, and a place (of the language ref) where it stands on its own.
enum { NO_REGEX = 1, NO_LT = 2, PARAMETER = 4, ARITHMETIC = 8, COMMAND = 16 };
struct Embed { int lang; int how; const char* pre; const char* open; const char* close; const char* post; Ty delim; int ref; const char* ref_pre; const char* ref_post; };
static const Ty INTP = Ty::string_interpolation_delim, BRACE = Ty::symbol_brace;
static const Embed embeds[] = {
    { 7, 0, "a=`${a}b", "${", "}", "c${d}`;e/f", INTP, 7, ";{", "}" },
    { 7, 0, "`${`", "${", "}", "`}` /e/f", INTP, 7, ";{", "}" },
    { 7, 0, "(<a>b{c}d", "{", "}", "c{d}</a>)/e/f", BRACE, 7, ";{", "}" },
    { 7, NO_REGEX | NO_LT, "(<a b=", "{", "}", " c='d'>e</a>)/f/g", BRACE, 7, ";{", "}" },
    { 7, NO_REGEX | NO_LT, "(<a ", "{", "}", "/>)/f/g", BRACE, 7, ";{", "}" },
    { 20, NO_LT, "a=`${a}b", "${", "}", "c${d}`;e/f", INTP, 20, ";{", "}" },
    { 19, NO_REGEX | NO_LT, "a=\"b", "${", "}", "c$d${e}\" f", INTP, 19, ";{", "}" },
    { 19, NO_REGEX | NO_LT, "a=\"\"\"b\"", "${", "}", "\"c$d${e}\"\"\" f", INTP, 19, ";{", "}" },
    { 19, NO_REGEX | NO_LT, "\"${\"", "${", "}", "\"}\" f", INTP, 19, ";{", "}" },
    { 8, COMMAND, "a b", "$(", ")", "c $d 'e'\nf", INTP, 8, "\n", "" },
    { 8, COMMAND, "a \"b", "$(", ")", "c$d\" 'e'\nf", INTP, 8, "", "" },
    { 8, COMMAND, "a $(b ", "$(", ")", " c) d\nf", INTP, 8, "x;", "" },
    { 8, PARAMETER, "a ", "${", "}", "c $d 'e'\nf", INTP, 8, "\"${", "}\"" },
    { 8, PARAMETER, "", "${", "}", " $d 'e'\nf", INTP, 8, "\"${", "}\"" },
    { 8, PARAMETER, "a $(b \"", "${", "}", "\" c) 'e'\nf", INTP, 8, "a ${", "}" },
    { 8, ARITHMETIC, "a ", "$((", "))", "c $d 'e'\nf", INTP, 8, "\"$((", "))\"" },
    { 8, ARITHMETIC, "a $(b \"", "$((", "))", "\" c) 'e'\nf", INTP, 8, "$((", "))" },
};
// Pieces of code which hide what would end it; ? is any ordinary character.
static const char* const c_pieces[] = { "?", " ", "\"}?\"", "'?}'", "/*}?*/", "{?}", "//}?\n", "`}?`", "`a${?}}`", "=/}?/", "<b c='}'>?</b>", "\"\\\"}?\"", "/}?/" };
static const char* const kt_pieces[] = { "?", " ", "\"}?\"", "'}'", "/*}?/*}*/?*/", "{?}", "//}?\n", "`?}`", "\"${?}}\"", "\"\"\"\"}?\"\"\"", "\"\\\"}?\"" };
static const char* const sh_pieces[] = { "?", " ", "\")}?\"", "'})?'", "\\)", "\\}", "${?}", "$(?)", " (?)", "\"$(?)}\"", " #)}?\n", "${#a}", "\"${a#)}?\"", "a(?", " #?", "\n?", "'?'#", "${?}#" };
static bool at_str(const char* s, const char* p) { for (; *p; s++, p++) if (*s != *p) return false; return true; }
extern "C" void lex_embed()
{
    int lang = (int)sym_param("lang", 7);
    size_t max = (size_t)sym_param("pieces", 2), few = (size_t)sym_param("min", 1);
    size_t count = 0;
    for (const Embed& e : embeds) count += e.lang == lang;
    size_t which = (size_t)sym_param("ctx", 99);
    if (which == 99) which = (size_t)sym_pick(count);
    const Embed* e = embeds;
    while (e->lang != lang || which--) e++;
    const char* const* list = lang == 8 ? sh_pieces : lang == 19 ? kt_pieces : c_pieces;
    size_t pieces = lang == 8 ? sizeof sh_pieces / sizeof *sh_pieces : lang == 19 ? sizeof kt_pieces / sizeof *kt_pieces : sizeof c_pieces / sizeof *c_pieces;
    u8t w[80], simple[80];
    size_t n = 0, k = few + (size_t)sym_pick(max - few + 1);
    bool raw = false;
    for (size_t j = 0; j < k; j++) {
        const char* s = list[sym_pick(pieces)];
        if (raw && s[0] == '"') sym_ignore(); // one more quote at the end
        raw = at_str(s, "\"\"\"");
        bool ordinary = s[0] == '?', regex = at_str(s, "=/") || at_str(s, "/}");
        if (at_str(s, "/}") && j) sym_ignore(); // may be a division
        if ((e->how & NO_REGEX) && regex) sym_ignore();
        if ((e->how & NO_LT) && s[0] == '<') sym_ignore();
        if ((e->how & (PARAMETER | ARITHMETIC)) && at_str(s, " #)")) sym_ignore();
        if (e->how & PARAMETER) { if (at_str(s, " (")) sym_ignore(); }
        else if (at_str(s, "a(") || at_str(s, " #?")) sym_ignore();
        if (!(e->how & COMMAND) && at_str(s, "'?'#")) sym_ignore();
        if ((e->how & ARITHMETIC) && at_str(s, "'")) sym_ignore();
        for (; *s; s++) {
            u8t c = (u8t)*s;
            if (c == '?') {
                c = sym_u8();
                sym_assume(c >= ' ' && c < 0x7f);
                sym_assume(c != '"' && c != '\'' && c != '`' && c != '\\' && c != '{' && c != '}' && c != '(' && c != ')' && c != '<' && c != '$');
                if (regex) sym_assume(c != '['); // [/] does not end it
                if (lang != 8) sym_assume(c != '/' && c != '*');
                if (lang == 19) sym_assume(c != '['); // @[ has to be closed
                if (lang == 8 && (!(e->how & PARAMETER) || !ordinary)) sym_assume(c != '#');
            }
            simple[n] = ordinary || *s == ' ';
            w[n++] = c;
        }
    }
    Text t, r, x;
    t.add(e->pre); size_t open = t.n;
    t.add(e->open); size_t in = t.n;
    t.add(w, n); size_t close = t.n;
    t.add(e->close); size_t post = t.n;
    t.add(e->post);
    r.add(e->ref_pre); size_t ref = r.n;
    r.add(w, n);
    r.add(e->ref_post);
    x.add(e->pre); x.add(e->open); x.add("x"); size_t xclose = x.n; x.add(e->close); x.add(e->post);
    u8t ot[160], orf[160], ox[160];
    sym_assume(classify(lang, 0, t, ot) == ULIGHT_STATUS_OK); // H01
    sym_assume(classify(e->ref, 0, r, orf) == ULIGHT_STATUS_OK);
    sym_assume(classify(lang, 0, x, ox) == ULIGHT_STATUS_OK);
    for (size_t i = 0; i < open; i++) sym_assert(ot[i] == ox[i], "what stands before embedded code depends on it");
    for (size_t i = open; i < in; i++) sym_assert(ot[i] == (u8t)e->delim, "the opening delimiter of embedded code is not highlighted as one");
    for (size_t i = 0; i < n; i++) {
        sym_assert(ot[in + i] == orf[ref + i], "embedded code is highlighted differently from the same code on its own");
        if ((e->how & PARAMETER) && simple[i]) {
            u8t ty = ot[in + i];
            sym_assert(ty == 0 || ty == (u8t)Ty::string_interpolation || ty == (u8t)Ty::symbol_op, "a part of a parameter substitution is highlighted as something else");
        }
    }
    for (size_t i = close; i < post; i++) sym_assert(ot[i] == (u8t)e->delim, "the closing delimiter of embedded code is not highlighted as one");
    for (size_t i = post; i < t.n; i++) sym_assert(ot[i] == ox[i - close + xclose], "what follows embedded code depends on it");
    sym_log(1, ot[in]);
    sym_cover(k > 1 ? "several pieces" : "one piece");
}

// Names in strings: $name
struct Ref { int lang; const char* pre; const char* post; };
static const Ref refs[] = {
    { 8, "a \"b$", "\" c" }, { 8, "\"$", "\"" }, { 8, "a \"$(b \"$", "\") c\"" },
    { 19, "a=\"b$", "\" c" }, { 19, "\"\"\"$", "\"\"\"" },
};
extern "C" void lex_reference()
{
    int lang = (int)sym_param("lang", 8);
    size_t n = (size_t)sym_param("n", 3);
    size_t count = 0;
    for (const Ref& e : refs) count += e.lang == lang;
    size_t which = (size_t)sym_pick(count);
    const Ref* e = refs;
    while (e->lang != lang || which--) e++;
    Text t, x;
    t.add(e->pre); x.add(e->pre); x.add("x");
    size_t begin = t.n, xend = x.n;
    for (size_t i = 0; i < n; i++) {
        u8t c = sym_u8();
        sym_assume(c >= ' ' && c < 0x7f);
        sym_assume(c != '"' && c != '\\' && c != '$' && c != '{' && c != '`' && c != '(');
        t.b[t.n++] = c;
    }
    size_t end = t.n, name = begin;
    t.add(e->post); x.add(e->post);
    u8t c = t.b[begin];
    if ((unsigned)((u8t)(fold(c) - 'a') < 26) | (unsigned)(c == '_')) {
        for (name++; name < end; name++) {
            c = t.b[name];
            if (!((unsigned)((u8t)(fold(c) - 'a') < 26) | (unsigned)((u8t)(c - '0') < 10) | (unsigned)(c == '_'))) break;
        }
    }
    else if (lang == 8 && in(c, "*@#?-!0123456789")) name++;
    u8t o[160], ox[160];
    sym_assume(classify(lang, 0, t, o) == ULIGHT_STATUS_OK); // H01
    sym_assume(classify(lang, 0, x, ox) == ULIGHT_STATUS_OK);
    for (size_t i = begin - 1; i < end; i++) {
        bool part = name > begin && i < name;
        if (part) sym_assert(o[i] == (u8t)Ty::string_interpolation, "a reference in a string is not highlighted as one");
        else sym_assert(o[i] == (u8t)Ty::string, "text in a string is not highlighted as such");
    }
    for (size_t i = 0; i + 1 < begin; i++) sym_assert(o[i] == ox[i], "what stands before a reference depends on it");
    for (size_t i = end; i < t.n; i++) sym_assert(o[i] == ox[i - end + xend], "what follows a string with a reference depends on it");
    sym_log(1, o[begin]);
    sym_cover(name == begin ? "text" : "reference");
}

// Scripts, style sheets and text in HTML
extern "C" void lex_html_embed()
{
    static const char* const names[] = { "script", "style", "textarea", "title" };
    static const char* const pieces[] = { "</", "</scrip>", "</scripts>", "</stylex>", "\"</b>", "/*</", "`</x>${", "<style>", "</script-", "&amp;" };
    size_t which = (size_t)sym_param("which", 0), n = (size_t)sym_param("n", 2);
    const char* name = names[which];
    u8t w[32]; size_t k = 0;
    bool piece = sym_param("piece", 0) != 0, lt = false, amp = false;
    if (piece) for (const char* s = pieces[sym_pick(sizeof pieces / sizeof *pieces)]; *s; s++) w[k++] = (u8t)*s;
    for (size_t i = 0; i < n; i++) w[k++] = sym_u8();
    for (size_t i = 0; i < k; i++) {
        sym_assume(w[i] != 0 && w[i] < 0x7f);
        lt = lt | (w[i] == '<'); amp = amp | (w[i] == '&');
    }
    Text t, r, x;
    t.add("a<"); t.add(name); t.add(">"); x.add("a<"); x.add(name); x.add(">x");
    size_t begin = t.n, xend = x.n;
    t.add(w, k);
    size_t end = t.n;
    size_t upper = (size_t)sym_pick(3), post = (size_t)sym_pick(2);
    for (Text* y : { &t, &x }) {
        y->add("</");
        for (size_t i = 0; name[i]; i++) y->b[y->n++] = (u8t)(name[i] - (upper == 1 || (upper == 2 && i == 2) ? 32 : 0));
        y->add(post ? " \n>&amp;<b c=d>" : ">&amp;<b c=d>");
    }
    u8t o[160], ox[160], orf[160];
    sym_assume(classify(4, 0, t, o) == ULIGHT_STATUS_OK); // H01
    sym_assume(classify(4, 0, x, ox) == ULIGHT_STATUS_OK);
    if (which < 2) {
        r.add(w, k);
        sym_assume(classify(which == 0 ? 7 : 5, 0, r, orf) == ULIGHT_STATUS_OK);
        for (size_t i = 0; i < k; i++) sym_assert(o[begin + i] == orf[i], "a script or style sheet is highlighted differently from the same code on its own");
    }
    else {
        if (amp) sym_assume(!lt);
        r.add("<p>"); r.add(w, k); r.add("</p>");
        sym_assume(classify(4, 0, r, orf) == ULIGHT_STATUS_OK);
        for (size_t i = 0; i < k; i++) sym_assert(o[begin + i] == (lt ? 0 : orf[3 + i]), "text which cannot contain elements is not highlighted as such");
    }
    for (size_t i = 0; i < begin; i++) sym_assert(o[i] == ox[i], "what stands before raw text depends on it");
    for (size_t i = end; i < t.n; i++) sym_assert(o[i] == ox[i - end + xend], "raw text does not end at its closing tag");
    sym_log(1, o[end]);
    sym_cover(which < 2 ? "code" : "text");
}

// ------------------------------------------------------------------ K06: operators and brackets
// The operators of a language: those that compute something, and those that could be called punctuation, too.
// Around them is code in which any of their characters continues to be ordinary code; no: what begins a comment, etc.
struct Ops { int lang; const char* pre; const char* post; const char* op; const char* punc; const char* no; int tight; };
#define C_OPS "-> ++ -- & * + - ~ ! / % << >> < > <= >= == != ^ | && || ? = *= /= %= += -= <<= >>= &= ^= |="
#define JS_OPS "< > <= >= == != === !== + - * % ** ++ -- << >> >>> & | ^ ! ~ && || ?? ? ?. = += -= *= %= **= <<= >>= >>>= &= |= ^= &&= ||= ??= =>"
static const Ops operators[] = {
    { 2, "a", "b;", C_OPS " .* ->* <=> ^^", ". : :: ; ... , # ## %: %:%: ( ) [ ] { } <: :> <% %>", "// /* ??", 1 },
    { 6, "a", "b;", C_OPS, ". : :: ; ... , # ## %: %:%: ( ) [ ] { } <: :> <% %>", "// /* ??", 1 },
    { 3, "a", "b = c", "+ - * / % ^ # & ~ | << >> // == ~= <= >= < > ..", "= :: ; : , . ... ( ) [ ] { }", "-- [[ [=", 1 },
    { 7, "(a", "b);", JS_OPS " / /=", ". ... ; , : ( ) [ ] { }", "// /* <> </", 1 },
    { 20, "(a", "b);", JS_OPS " / /=", ". ... ; , : ( ) [ ] { }", "// /* <> </", 1 },
    { 8, "a", "b", "&& || | |& > >> >| < << <<- <<< >& <& <> &> &>>", "& ; ;; ;& ;;& ( )", "", 1 },
    { 16, " mov a", "b", "+ - * / // << >> <<< >>> & | ^ ~ ! && || ^^ == = != <> < <= <=> > >=", ": , ( ) [ ] { }", "", 0 },
    { 18, "a", "b", "+ - * ** / // % @ << >> & | ^ ~ := < > <= >= == != += -= *= /= //= %= @= &= |= ^= >>= <<= **=", ", : . ; = -> ... ( ) [ ] { }", ">>>", 1 },
    { 19, "{{{a", "b", "* % / + - ++ -- && || ! += -= *= /= %= ?. ?: < > <= >= != !== == === ?", "... . , : ; ;; = -> => .. ..< :: ( ) [ ] { }", "// /* !!", 1 },
    { 21, "a", "b;", "+ - * / % ^ ! & | && || << >> += -= *= /= %= ^= &= |= <<= >>= == != > < >= <= ?", "= . .. ... ..= , ; : :: -> => ( ) [ ] { } @ # $ ~ <-", "// /*", 1 },
    { 22, " a ", "b", "", "= , < > * ... : | ( ) [ ] { }", "...:", 0 },
    { 24, "a", "b;", "> < ! ~ ? == >= <= != && || ++ -- + - * / & | ^ % << >> >>> += -= *= /= &= |= ^= %= <<= >>= >>>=", "-> = : :: ; , . ... ( ) [ ] { }", "// /*", 1 },
    { 17, "a = b", "c;", "| , - * !", "= ; . ( ) [ ] { } (/ /) (: :) / :", "(* *)", 0 },
};
static size_t longest(const char* s, const Text& t, size_t i, size_t end, size_t best)
{
    while (*s) {
        size_t k = 0;
        while (s[k] && s[k] != ' ') k++;
        if (k > best && k <= end - i) {
            size_t j = 0;
            while (j < k && t.b[i + j] == (u8t)s[j]) j++;
            if (j == k) best = k;
        }
        s += k;
        if (*s) s++;
    }
    return best;
}
extern "C" void lex_operator()
{
    int lang = (int)sym_param("lang", 2);
    size_t n = (size_t)sym_param("n", 2);
    const Ops* d = operators;
    while (d->lang != lang) d++;
    bool tight = d->tight && sym_pick(2);
    Text t;
    bool directive = (lang == 2 || lang == 6) && sym_pick(2);
    if (directive) t.add("#if ");
    t.add(d->pre);
    if (!tight) t.add(" ");
    size_t begin = t.n;
    for (size_t k = (size_t)sym_param("whole", 0); k; k--) { // whole operators first
        size_t count[2] = { 0, 0 };
        for (size_t l = 0; l < 2; l++) for (const char* s = l ? d->punc : d->op; *s; s++) count[l] += *s == ' ' || !s[1];
        size_t which = (size_t)sym_pick(count[0] + count[1]), l = which >= count[0];
        if (l) which -= count[0];
        const char* s = l ? d->punc : d->op;
        while (which) if (*s++ == ' ') which--;
        while (*s && *s != ' ') t.b[t.n++] = (u8t)*s++;
    }
    size_t end = t.n + n;
    for (size_t i = 0; i < n; i++) {
        u8t c = sym_u8();
        unsigned known = 0;
        for (const char* s = d->op; *s; s++) known |= (unsigned)(c == (u8t)*s);
        for (const char* s = d->punc; *s; s++) known |= (unsigned)(c == (u8t)*s);
        sym_assume((known & (unsigned)(c != ' ')) != 0);
        t.b[t.n++] = c;
    }
    for (size_t i = begin; i < end; i++) {
        for (const char* s = d->no; *s;) {
            size_t k = 0;
            while (s[k] && s[k] != ' ') k++;
            size_t j = 0;
            while (j < k && i + j < end && t.b[i + j] == (u8t)s[j]) j++;
            if (j == k) sym_ignore();
            s += k;
            if (*s) s++;
        }
        if ((lang == 7 || lang == 20) && i > begin && t.b[i] == '/') sym_ignore(); // may begin a regular expression
    }
    if (!tight) t.add(" ");
    size_t post = t.n;
    t.add(d->post);
    u8t o[160], starts[160];
    g_starts = starts;
    sym_assume(classify(lang, 0, t, o) == ULIGHT_STATUS_OK); // H01
    size_t count = 0;
    for (size_t i = begin; i < end; count++) {
        size_t op = longest(d->op, t, i, end, 0), k = longest(d->punc, t, i, end, op);
        if (lang == 2 && end - i >= 3 && t.b[i] == '<' && t.b[i + 1] == ':' && t.b[i + 2] == ':' && !(end - i > 3 && (t.b[i + 3] == ':' || t.b[i + 3] == '>'))) op = k = 1; // https://eel.is/c++draft/lex.pptoken
        if (k == 0) sym_ignore(); // not an operator
        if (lang == 21 && tight && i == begin && k == 1 && (t.b[i] == '!' || t.b[i] == '#')) sym_ignore(); // a macro, a reserved prefix
        u8t ty = o[i], c = t.b[i], e = t.b[i + k - 1];
        sym_assert(starts[i], "an operator is a part of what stands before it");
        for (size_t j = 1; j < k; j++) {
            sym_assert(!starts[i + j], "an operator is split");
            sym_assert(o[i + j] == ty, "an operator is split");
        }
        if (k == op) sym_assert(ty == (u8t)Ty::symbol_op, "an operator is not highlighted as one");
        else if (k == 1 && (c == '(' || c == ')')) sym_assert(ty == (u8t)Ty::symbol_parens, "a parenthesis is not highlighted as one");
        else if ((k == 1 && (c == '[' || c == ']')) || (k == 2 && ((c == '<' && e == ':') || (c == ':' && e == '>')))) sym_assert(ty == (u8t)Ty::symbol_square, "a square bracket is not highlighted as one");
        else if ((k == 1 && (c == '{' || c == '}')) || (k == 2 && ((c == '<' && e == '%') || (c == '%' && e == '>')))) sym_assert(ty == (u8t)Ty::symbol_brace, "a brace is not highlighted as one");
        else sym_assert((ty >= (u8t)Ty::symbol && ty <= (u8t)Ty::symbol_brace) || (ty == (u8t)Ty::name_macro_delim && (c == '#' || c == '%')), "punctuation is not highlighted as such");
        i += k;
    }
    if (!tight) sym_assert(o[end] == 0, "blanks are highlighted as an operator");
    sym_assert(starts[post], "an operator continues in what follows it");
    sym_assert(o[post] < (u8t)Ty::symbol && o[post] != (u8t)Ty::error && o[post] != (u8t)Ty::comment, "what follows an operator is highlighted as a part of it");
    sym_log(1, o[begin]);
    sym_cover(count > 1 ? "several operators" : "one operator");
}
// Operators which are words in Kotlin
extern "C" void lex_kotlin_operator()
{
    size_t not_ = (size_t)sym_pick(2), word = (size_t)sym_pick(3);
    static const char* const words[] = { "in", "is", "as" };
    Text t;
    t.add("a ");
    if (not_) t.add("!");
    size_t begin = t.n;
    t.add(words[word]);
    size_t n = (size_t)sym_param("n", 1), end = t.n;
    for (size_t i = 0; i < n; i++) {
        u8t c = sym_u8();
        sym_assume(c >= ' ' && c < 0x7f && c != '"' && c != '\'' && c != '`' && c != '@' && c != '}');
        t.b[t.n++] = c;
    }
    t.add(" b");
    size_t id = end;
    while (id < t.n && ((unsigned)((u8t)(fold(t.b[id]) - 'a') < 26) | (unsigned)((u8t)(t.b[id] - '0') < 10) | (unsigned)(t.b[id] == '_'))) id++;
    sym_assume(id == end || id == end + n); // not some other keyword
    u8t o[160], starts[160];
    g_starts = starts;
    sym_assume(classify(19, 0, t, o) == ULIGHT_STATUS_OK); // H01
    if (word == 2 && t.b[end] == '?') sym_ignore(); // as?
    bool op = id == end, negated = op && not_ && word != 2;
    if (not_) sym_assert(starts[begin - 1], "an operator is a part of what stands before it");
    if (negated) sym_assert(!starts[begin], "!in and !is are split");
    else sym_assert(starts[begin], "a word is a part of an operator");
    if (not_ && !negated) sym_assert(o[begin - 1] == (u8t)Ty::symbol_op, "an operator is not highlighted as one");
    bool kw = o[begin] == (u8t)Ty::keyword || o[begin] == (u8t)Ty::keyword_control || o[begin] == (u8t)Ty::keyword_op;
    if (negated) sym_assert(o[begin - 1] == o[begin], "!in and !is are split");
    if (op) sym_assert(kw, "an operator is not highlighted as one");
    for (size_t i = begin; i < id; i++) {
        sym_assert(o[i] == o[begin], "a word is split");
        if (i > begin) sym_assert(!starts[i], "a word is split");
    }
    if (id < t.n && op) sym_assert(id == end && (starts[id] || o[id] == 0), "an operator continues in what follows it");
    sym_log(1, o[begin]);
    sym_cover(op ? "operator" : "name");
}
// Operators which look like the beginning of something else
extern "C" void lex_sigil_operator()
{
    static const char* const ops[] = { "%", "%%", "$", "$$", "+", ">", "~" };
    size_t which = (size_t)sym_pick(7), n = (size_t)sym_param("n", 1);
    bool css = which >= 4;
    Text t;
    t.add(css ? "a " : which < 2 ? " mov a, 1 " : " mov a, ");
    size_t begin = t.n;
    t.add(ops[which]);
    size_t end = t.n;
    for (size_t i = 0; i < n; i++) {
        u8t c = sym_u8();
        sym_assume(c != 0 && c < 0x7f);
        t.b[t.n++] = c;
    }
    t.add(css ? "b {}" : "b");
    u8t c = t.b[end];
    unsigned letter = (unsigned)((u8t)(fold(c) - 'a') < 26) | (unsigned)((u8t)(c - '0') < 10);
    if (css) sym_assume(c == ' ' || (letter && c > '9'));
    else if (which < 2) sym_assume(c == ' ' || c == '\t');
    else sym_assume(!letter && c != '_' && c != ':' && c != '$' && c != '#' && c != '@' && c != '~' && c != '.' && c != '?');
    u8t o[160], starts[160];
    g_starts = starts;
    sym_assume(classify(css ? 5 : 16, 0, t, o) == ULIGHT_STATUS_OK); // H01
    for (size_t i = begin; i < end; i++) {
        sym_assert(o[i] == (css ? (u8t)Ty::markup_tag : which < 2 ? (u8t)Ty::symbol_op : o[begin]), "an operator is not highlighted as one");
        sym_assert(css || starts[i] == (i == begin), "an operator is split or a part of what stands before it");
    }
    if (!css && which >= 2) sym_assert(o[begin] >= 0x40 && o[begin] < 0x80, "the position of an instruction is not highlighted as a name");
    if (!css) sym_assert(starts[end] || o[end] == 0, "an operator continues in what follows it");
    sym_log(1, o[begin]);
    sym_cover(css ? "combinator" : "operator");
}

// ------------------------------------------------------------------ K07: markup
static unsigned letter(u8t c) { return (unsigned)((u8t)(fold(c) - 'a') < 26); }
static unsigned digit(u8t c) { return (unsigned)((u8t)(c - '0') < 10); }
static unsigned hexdigit(u8t c) { return digit(c) | (unsigned)((u8t)(fold(c) - 'a') < 6); }
static const u8t QUOTE = 254, OPEN = 253, MARK = 252; // a delimiter of a string or a part of it; anything; anything but text and errors
struct Markup : Text {
    u8t e[160]; // what each byte has to be highlighted as
    void put(const char* s, u8t ty) { while (*s) { e[n] = ty; b[n++] = (u8t)*s++; } }
    void put(u8t c, u8t ty) { e[n] = ty; b[n++] = c; }
    void put(const char* s, Ty ty) { put(s, (u8t)ty); }
};
static void name(Markup& m, const char* s, size_t n, int lang, bool attr, Ty ty)
{
    if (!n) { m.put(s, ty); return; }
    for (size_t i = 0; i < n; i++) {
        u8t c = sym_u8();
        if (lang == 12) sym_assume((letter(c) | (unsigned)(c == '_') | (unsigned)(c == ':') | (i ? digit(c) | (unsigned)(c == '.') | (unsigned)(c == '-') : 0u)) != 0);
        else if (lang == 7) sym_assume((letter(c) | (unsigned)(c == '_') | (unsigned)(c == '$') | (i ? digit(c) | (unsigned)(c == '-') : 0u) | (i && i + 1 < n ? (unsigned)(c == ':') | (attr ? 0u : (unsigned)(c == '.')) : 0u)) != 0);
        else if (attr) sym_assume(c > ' ' && c < 0x7f && c != '"' && c != '\'' && c != '>' && c != '/' && c != '=');
        else sym_assume((letter(c) | (i ? digit(c) | (unsigned)(c == '-') | (unsigned)(c == '.') | (unsigned)(c == '_') : 0u)) != 0);
        m.put(c, (u8t)ty);
    }
}
static void blanks(Markup& m, size_t n, int lang)
{
    for (size_t i = 0; i < n; i++) {
        u8t c = sym_u8();
        sym_assume(c == ' ' || c == '\t' || c == '\n' || c == '\r' || (lang != 12 && c == '\f'));
        m.put(c, 0);
    }
}
// Marks the references between begin and the end.
static void references(Markup& m, size_t begin, int lang)
{
    for (size_t i = begin; i < m.n; i++) {
        if (m.b[i] != '&') continue;
        size_t j = i + 1;
        bool ok = false;
        if (j < m.n && m.b[j] == '#') {
            j++;
            if (j < m.n && (m.b[j] == 'x' || (lang != 12 && m.b[j] == 'X'))) { for (j++; j < m.n && hexdigit(m.b[j]); j++) ok = true; }
            else for (; j < m.n && digit(m.b[j]); j++) ok = true;
        }
        else if (j < m.n && lang != 12 && digit(m.b[j])) sym_ignore(); // not the name of an entity
        else for (; j < m.n && (letter(m.b[j]) | (j > i + 1 ? digit(m.b[j]) : 0u) | (lang == 12 ? (unsigned)(m.b[j] == '_') | (unsigned)(m.b[j] == ':') | (unsigned)(j > i + 1 && (m.b[j] == '.' || m.b[j] == '-')) : 0u)); j++) ok = true;
        ok = ok && j < m.n && m.b[j] == ';';
        if (ok) for (; i <= j; i++) m.e[i] = (u8t)Ty::string_escape;
        if (ok) i--;
        else if (lang == 12) sym_ignore(); // not well-formed
    }
}
static void some(Markup& m, const char* s, size_t n, int lang, Ty ty, const char* no)
{
    size_t begin = m.n;
    static const char* const prefixes[] = { "", "&", "&#", "&#x", "&a", "&amp", "&#1" };
    if (!n) m.put(s, ty);
    else m.put(prefixes[sym_pick(7)], ty);
    for (size_t i = 0; i < n; i++) {
        u8t c = sym_u8();
        sym_assume((c >= ' ' && c < 0x7f) || c == '\n' || c == '\t');
        unsigned bad = 0;
        for (const char* s = no; *s; s++) bad |= (unsigned)(c == (u8t)*s);
        sym_assume(!bad);
        m.put(c, (u8t)ty);
    }
    references(m, begin, lang);
}
static void check(const Markup& m, int lang)
{
    u8t o[160];
    sym_assume(classify(lang, 0, m, o) == ULIGHT_STATUS_OK); // H01
    for (size_t i = 0; i < m.n; i++) {
        if (m.e[i] == OPEN) continue;
        if (m.e[i] == MARK) sym_assert(o[i] != 0 && o[i] != (u8t)Ty::error, "markup is highlighted as text or as an error");
        else if (m.e[i] == QUOTE) sym_assert(o[i] == (u8t)Ty::string || o[i] == (u8t)Ty::string_delim, "a quote is not highlighted as a part of a string");
        else if (m.e[i] == (u8t)Ty::markup_tag) sym_assert(o[i] == m.e[i], "the name of an element is not highlighted as one");
        else if (m.e[i] == (u8t)Ty::markup_attr) sym_assert(o[i] == m.e[i] || (lang == 7 && o[i] == (u8t)Ty::markup_tag), "the name of an attribute is not highlighted as one");
        else if (m.e[i] == (u8t)Ty::string) sym_assert(o[i] == m.e[i], "the value of an attribute is not highlighted as one");
        else if (m.e[i] == (u8t)Ty::string_escape) sym_assert(o[i] == m.e[i], "a reference is not highlighted as one");
        else if (m.e[i] == 0) sym_assert(o[i] == 0, "text is highlighted as markup");
        else sym_assert(o[i] == m.e[i], "markup is not highlighted as such");
    }
    sym_log(1, o[1]);
}
extern "C" void lex_tag()
{
    int lang = (int)sym_param("lang", 4);
    size_t part = (size_t)sym_param("part", 0), n = (size_t)sym_param("n", 2);
    size_t kind = (size_t)sym_pick(lang == 12 ? 2 : 4), empty = (size_t)sym_pick(2), second = (size_t)sym_pick(2);
    size_t w[6];
    for (size_t i = 0; i < 6; i++) w[i] = part == 4 ? (size_t)sym_pick(n + 1) : i == 0 ? 1 : 0;
    if (w[0] == 0) sym_ignore();
    if (lang == 4 && kind == 2 && empty && w[3] == 0) w[3] = 1; // <a b=c/> has the value c/
    Markup m;
    bool jsx = lang == 7;
    m.put(jsx ? "(<>" : "x", jsx ? OPEN : (u8t)0);
    m.put("<", Ty::symbol_punc);
    size_t tag = m.n;
    name(m, "p", part == 0 ? n : 0, lang, false, Ty::markup_tag);
    size_t tag_end = m.n;
    blanks(m, w[0], lang);
    name(m, "b", part == 1 ? n : 0, lang, true, Ty::markup_attr);
    if (kind != 3) {
        blanks(m, w[1], lang);
        m.put("=", Ty::symbol_punc);
        blanks(m, w[2], lang);
        const char* quote = kind == 0 ? "\"" : kind == 1 ? "'" : "";
        m.put(quote, QUOTE);
        if (jsx && kind == 2) { m.put("{", Ty::symbol_brace); m.put("v", OPEN); m.put("}", Ty::symbol_brace); }
        else some(m, "v>/", part == 2 ? n : 0, lang, Ty::string, kind == 2 ? "\"'=<>` \n\t" : lang == 12 ? (kind ? "'<" : "\"<") : quote);
        if (!jsx && kind == 2 && part != 2) { m.n -= 2; } // v
        m.put(quote, QUOTE);
    }
    if (second) { m.put(" ", (u8t)0); m.put("c", Ty::markup_attr); m.put("=", Ty::symbol_punc); m.put("'d'", QUOTE); if (kind == 2) m.put(" ", (u8t)0); }
    blanks(m, w[3], lang);
    m.put(empty ? "/>" : ">", Ty::symbol_punc);
    some(m, "t", part == 3 ? n : 0, lang, (Ty)0, jsx ? "<>{}" : "<");
    if (empty && jsx) { m.put("</>)", OPEN); check(m, lang); return; }
    m.put("</", Ty::symbol_punc);
    for (size_t i = tag; i < tag_end; i++) m.put(m.b[i], (u8t)Ty::markup_tag);
    blanks(m, w[4], lang);
    m.put(">", Ty::symbol_punc);
    m.put(jsx ? "</>)" : "y", jsx ? OPEN : (u8t)0);
    check(m, lang);
    sym_cover(empty ? "empty element" : "element");
}

// Any n characters without end, each of them highlighted as ty.
static void any(Markup& m, size_t n, const char* end, u8t ty)
{
    size_t begin = m.n;
    for (size_t i = 0; i < n; i++) {
        u8t c = sym_u8();
        sym_assume((c >= ' ' && c < 0x7f) || c == '\n' || c == '\t');
        m.put(c, (u8t)ty);
    }
    size_t k = 0;
    while (end[k]) k++;
    size_t stop = m.n;
    for (size_t i = 0; i < k; i++) m.put((u8t)end[i], MARK); // an end which begins before is one as well
    for (size_t i = begin; i < stop; i++) {
        unsigned same = 1;
        for (size_t j = 0; j < k; j++) same &= (unsigned)(m.b[i + j] == (u8t)end[j]);
        sym_assume(!same);
    }
}
static void fold_put(Markup& m, const char* s, Ty ty) // in any mixture of cases
{
    for (; *s; s++) {
        u8t c = sym_u8();
        sym_assume(fold(c) == fold((u8t)*s));
        m.put(c, (u8t)ty);
    }
}
static void literal(Markup& m, const char* s, size_t n, size_t kind, const char* no)
{
    const char* quote = kind ? "'" : "\"";
    char set[8] = { quote[0], 0 };
    for (size_t i = 0; no[i]; i++) { set[i + 1] = no[i]; set[i + 2] = 0; }
    m.put(quote, QUOTE);
    if (!n) m.put(s, Ty::string);
    for (size_t i = 0; i < n; i++) {
        u8t c = sym_u8();
        sym_assume((c >= ' ' && c < 0x7f) || c == '\n' || c == '\t');
        unsigned bad = 0;
        for (const char* s = set; *s; s++) bad |= (unsigned)(c == (u8t)*s);
        sym_assume(!bad);
        m.put(c, (u8t)Ty::string);
    }
    m.put(quote, QUOTE);
}
extern "C" void lex_declaration()
{
    int lang = (int)sym_param("lang", 4);
    size_t n = (size_t)sym_param("n", 2), part = (size_t)sym_param("part", 0);
    Markup m;
    if (lang == 4) {
        m.put("x", (u8t)0);
        if (part == 0) { // <!DOCTYPE html>, in any case
            fold_put(m, "<!doctype", Ty::name_macro);
            m.put(' ', (u8t)Ty::name_macro);
            any(m, n, ">", (u8t)Ty::name_macro);
            m.e[m.n - 1] = (u8t)Ty::name_macro;
        }
    }
    else if (part < 2) m.put("<r>", MARK);
    if (part == 1) {
        m.put("<![CDATA[", MARK);
        any(m, n, "]]>", 0);
    }
    else if (lang == 12 && part == 0) { // a processing instruction
        m.put("<?", MARK);
        size_t begin = m.n;
        name(m, "p", n, lang, false, Ty::name_macro);
        unsigned reserved = (unsigned)(n == 3) & (unsigned)(fold(m.b[begin]) == 'x') & (unsigned)(fold(m.b[begin + 1]) == 'm') & (unsigned)(fold(m.b[begin + 2]) == 'l');
        sym_assume(!reserved);
        if (sym_pick(2)) {
            blanks(m, 1, lang);
            any(m, n, "?>", 0);
        }
        else m.put("?>", MARK);
    }
    else if (part == 2) { // the XML declaration
        m.put("<?xml", MARK);
        blanks(m, 1, lang);
        static const char* const names[] = { "version", "encoding", "standalone" };
        static const char* const values[] = { "1.0", "UTF-8", "yes" };
        for (size_t i = 0; i < 3; i++) {
            if (i && sym_pick(2) == 0) continue;
            if (i) m.put(" ", (u8t)0);
            m.put(names[i], Ty::markup_attr);
            blanks(m, sym_pick(2), lang);
            m.put("=", Ty::symbol_punc);
            blanks(m, sym_pick(2), lang);
            literal(m, values[i], 0, sym_pick(2), "");
        }
        blanks(m, sym_pick(2), lang);
        m.put("?>", MARK);
    }
    else if (part >= 3) { // a document type declaration
        size_t shape = (size_t)sym_pick(3), subset = part == 3 ? (size_t)sym_pick(2) : 1, kind = (size_t)sym_pick(2);
        if (part > 3) sym_assume(shape == 0);
        m.put("<!DOCTYPE", MARK);
        m.put(" ", (u8t)0);
        name(m, "d", part == 3 ? n : 0, lang, false, Ty::name);
        if (shape) {
            m.put(" ", (u8t)0);
            m.put(shape == 1 ? "SYSTEM" : "PUBLIC", Ty::keyword);
            for (size_t i = 0; i < shape; i++) { m.put(" ", (u8t)0); literal(m, "s", part == 3 ? n : 0, kind, ""); }
        }
        if (subset) {
            blanks(m, sym_pick(2), lang);
            m.put("[", Ty::symbol_punc);
            blanks(m, sym_pick(2), lang);
            if (part == 4) { // an entity
                size_t external = (size_t)sym_pick(3);
                m.put("<!ENTITY", MARK);
                m.put(" ", (u8t)0);
                if (sym_pick(2)) { m.put("%", Ty::symbol_punc); m.put(" ", (u8t)0); }
                name(m, "e", n, lang, false, Ty::name);
                m.put(" ", (u8t)0);
                if (external) { m.put(external == 1 ? "SYSTEM" : "PUBLIC", Ty::keyword); m.put(" ", (u8t)0); }
                for (size_t i = 0; i < (external == 2 ? 2 : 1); i++) { if (i) m.put(" ", (u8t)0); literal(m, "v", n, kind, external ? "" : "&%"); }
                if (external == 1 && sym_pick(2)) { m.put(" ", (u8t)0); m.put("NDATA", Ty::keyword); m.put(" ", (u8t)0); m.put("g", Ty::name); }
            }
            else if (part == 5) { // an element
                m.put("<!ELEMENT", MARK);
                m.put(" ", (u8t)0);
                name(m, "e", n, lang, false, Ty::name);
                m.put(" ", (u8t)0);
                static const char* const suffixes[] = { "", "*", "+", "?" };
                static const char* const separators[] = { "|", "," };
                size_t content = (size_t)sym_pick(4);
                if (content < 2) m.put(content ? "ANY" : "EMPTY", Ty::keyword);
                else {
                    m.put("(", Ty::symbol_punc);
                    blanks(m, sym_pick(2), lang);
                    if (content == 2) m.put("#PCDATA", Ty::keyword);
                    else { name(m, "f", n, lang, false, Ty::name); m.put(suffixes[sym_pick(4)], Ty::symbol_punc); }
                    m.put(separators[content == 2 ? 0 : sym_pick(2)], Ty::symbol_punc);
                    blanks(m, sym_pick(2), lang);
                    m.put("g", Ty::name);
                    m.put(")", Ty::symbol_punc);
                    m.put(suffixes[content == 2 ? 1 : sym_pick(4)], Ty::symbol_punc);
                }
            }
            else if (part == 6) { // attributes
                static const char* const types[] = { "CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS", "" };
                static const char* const defaults[] = { "#REQUIRED", "#IMPLIED", "#FIXED", "" };
                m.put("<!ATTLIST", MARK);
                m.put(" ", (u8t)0);
                m.put("e", Ty::name);
                blanks(m, 1, lang);
                name(m, "a", n, lang, false, Ty::name);
                if (n == 2) sym_assume((m.b[m.n - 2] ^ 'I') | (m.b[m.n - 1] ^ 'D')); // the type ID is found first
                m.put(" ", (u8t)0);
                size_t type = (size_t)sym_pick(9), def = (size_t)sym_pick(4);
                m.put(types[type], Ty::keyword);
                if (type == 8) { m.put("(", Ty::symbol_punc); m.put("b", Ty::name); m.put("|", Ty::symbol_punc); m.put("c", Ty::name); m.put(")", Ty::symbol_punc); }
                m.put(" ", (u8t)0);
                m.put(defaults[def], Ty::keyword);
                if (def == 2) m.put(" ", (u8t)0);
                if (def >= 2) literal(m, "v", n, kind, "&<");
            }
            else if (part == 7) { // a reference to a parameter entity, and a notation
                m.put("%", Ty::string_escape);
                name(m, "p", n, lang, false, Ty::string_escape);
                m.put(";", Ty::string_escape);
                blanks(m, sym_pick(2), lang);
                m.put("<!NOTATION", MARK);
                m.put(" ", (u8t)0);
                name(m, "n", n, lang, false, Ty::name);
                m.put(" ", (u8t)0);
                m.put("PUBLIC", Ty::keyword);
                m.put(" ", (u8t)0);
                literal(m, "s", 0, kind, "");
            }
            if (part > 3) {
                blanks(m, sym_pick(2), lang);
                m.put(">", MARK);
                blanks(m, sym_pick(2), lang);
            }
            m.put("]", Ty::symbol_punc);
        }
        blanks(m, sym_pick(2), lang);
        m.put(">", MARK);
        m.put("<", Ty::symbol_punc);
        m.put("r", Ty::markup_tag);
        m.put(">", Ty::symbol_punc);
    }
    if (part != 2) m.put("y", (u8t)0);
    else m.put("<r>", MARK);
    check(m, lang);
    sym_cover("declaration");
}

// ------------------------------------------------------------------ K08: names with a mark
struct Sigil {
    int lang;
    const char* before[3]; // alternatives of what stands before it
    const char* mark;
    const char* first;     // characters of a name: a any letter, 0 any digit, others themselves; after ~ any but these
    const char* rest;
    const char* suffix;
    const char* after;     // what may follow
    Ty d, t, s;            // mark, name, suffix
    const char* except;    // words which are no such names
    unsigned flags;
};
enum { DOTS = 1, NAMED = 2 /* letters in the mark are names as well */, ONLY = 4 /* exactly the words in except */, HYPHENS = 8 /* not a hyphen and digits */, PIECES = 16 /* may be split */ };
static const char* const RUST_WORDS = "abstract as async await become box break const continue crate do dyn else enum extern false final fn for gen if impl in let loop macro match mod move mut override priv pub raw ref "
                                      "return safe self Self static struct super trait true try type typeof union unsafe unsized use virtual where while yield _ r br cr c b bool char f16 f32 f64 f128 i8 i16 i32 i64 i128 isize str u8 u16 u32 u64 u128 usize String CStr CString OsStr OsString auto default macro_rules";
static const Sigil sigils[] = {
    /* 0*/ { 22, { "", "x = ", "(" }, "%", "a-$._", "a0-$._", "", " ,()=\n*", Ty::name_var_delim, Ty::name_var, Ty::error, "", 0 },
    /* 1*/ { 22, { "", "x = ", "(" }, "@", "a-$._", "a0-$._", "", " ,()=\n*", Ty::name_function_delim, Ty::name_function, Ty::error, "", 0 },
    /* 2*/ { 22, { "", "x = ", "(" }, "%", "0", "0", "", " ,()=\n*", Ty::name_var_delim, Ty::name_var, Ty::error, "", 0 },
    /* 3*/ { 22, { "", "x = ", "(" }, "@", "0", "0", "", " ,()=\n*", Ty::name_function_delim, Ty::name_function, Ty::error, "", 0 },
    /* 4*/ { 22, { "", "x ", ", " }, "#", "0", "0", "", " ,()=\n{", Ty::name_attr_delim, Ty::name_attr, Ty::error, "", 0 },
    /* 5*/ { 22, { "", "x ", ", " }, "!", "a-$._", "a0-$._", "", " ,()=\n}", Ty::name_attr_delim, Ty::name_attr, Ty::error, "", 0 },
    /* 6*/ { 22, { "", "x ", "!{" }, "!", "0", "0", "", " ,()=\n}", Ty::name_attr_delim, Ty::name_attr, Ty::error, "", 0 },
    /* 7*/ { 22, { "", "x(", ", " }, "$", "a-$._", "a0-$._", "", " ,()=\n", Ty::name_delim, Ty::name, Ty::error, "", 0 },
    /* 8*/ { 22, { "", "\n", "  " }, "", "a-$._", "a0-$._", ":", " \n;", Ty::error, Ty::name_label_decl, Ty::name_label_delim, "", HYPHENS },
    /* 9*/ { 22, { "", "\n", "  " }, "", "0", "0", ":", " \n;", Ty::error, Ty::name_label_decl, Ty::name_label_delim, "", 0 },
    /*10*/ { 21, { "&", "<", "T: " }, "'", "a_", "a0_", "", " >,)+&;{}=", Ty::name_lifetime_delim, Ty::name_lifetime, Ty::error, "", 0 },
    /*11*/ { 21, { "", "\n", "{" }, "'", "a_", "a0_", ":", " {\n", Ty::name_label_delim, Ty::name_label, Ty::symbol_punc, "", 0 },
    /*12*/ { 21, { "", "x.", "fn " }, "r#", "a_", "a0_", "", " >,)+&;{}=(.", Ty::name_delim, Ty::name, Ty::error, "crate self super Self _", 0 },
    /*13*/ { 21, { "", "x + ", "{" }, "", "a_", "a0_", "!", " ([{", Ty::error, Ty::name_macro, Ty::name_macro_delim, RUST_WORDS, 0 },
    /*14*/ { 24, { "", "x ", "(" }, "@", "a_$", "a0_$", "", " (\n)@;{/", Ty::name_attr_delim, Ty::name_attr, Ty::error, "interface", DOTS },
    /*15*/ { 19, { "", "x ", "(" }, "@", "a_", "a0_", "", " (\n)@;{/", Ty::name_attr_delim, Ty::name_attr, Ty::error, "", DOTS },
    /*16*/ { 19, { "", "x ", "(" }, "@get:", "a_", "a0_", "", " (\n)@;{/", Ty::name_attr_delim, Ty::name_attr, Ty::error, "", DOTS | NAMED },
    /*17*/ { 7, { "this.", "class {", "x\n" }, "#", "a_$", "a0_$", "", " (=;\n,).+", Ty::name, Ty::name, Ty::error, "", 0 },
    /*18*/ { 20, { "this.", "class {", "x\n" }, "#", "a_$", "a0_$", "", " (=;\n,).+", Ty::name, Ty::name, Ty::error, "", 0 },
    /*19*/ { 3, { "local x", "local x ", "local y, x" }, "<", "a", "a", ">", " \n=,-", Ty::name_attr_delim, Ty::name_attr, Ty::name_attr_delim, "const close", ONLY },
    /*20*/ { 25, { "a: ", "- ", "" }, "&", "~,[]{}:", "~,[]{}:", "", " \n", Ty::name_attr_delim, Ty::name, Ty::error, "", 0 },
    /*21*/ { 25, { "a: ", "- ", "" }, "*", "~,[]{}:", "~,[]{}:", "", " \n", Ty::name_attr_delim, Ty::name, Ty::error, "", 0 },
    /*22*/ { 25, { "[", "[a, ", "{a: " }, "*", "~,[]{}:", "~,[]{}:", "", " \n,]}", Ty::name_attr_delim, Ty::name, Ty::error, "", 0 },
    /*23*/ { 25, { "a: ", "- ", "" }, "!", "a0", "a0-*&#%", "", " \n", Ty::name_attr_delim, Ty::name_attr, Ty::error, "", PIECES },
    /*24*/ { 25, { "a: ", "- ", "" }, "!!", "a0", "a0-*&#%", "", " \n", Ty::name_attr_delim, Ty::name_attr, Ty::error, "", PIECES },
    /*25*/ { 25, { "a: ", "- ", "" }, "!e!", "a0", "a0-*&#%", "", " \n", Ty::name_attr_delim, Ty::name_attr, Ty::error, "", NAMED | PIECES },
    /*26*/ { 25, { "a: ", "- ", "" }, "!<", "a:!", "a0-:/", ">", " \n", Ty::name_attr_delim, Ty::name_attr, Ty::name_attr_delim, "", PIECES },
    /*27*/ { 5, { "", "a ", "x > " }, "#", "a_", "a0-_", "", " {,[", Ty::markup_tag, Ty::markup_tag, Ty::error, "", 0 },
    /*28*/ { 5, { "", "a ", "x > " }, ".", "a_", "a0-_", "", " {,[", Ty::markup_tag, Ty::markup_tag, Ty::error, "", 0 },
    /*29*/ { 5, { "a{b:", "a { b: c, ", "a{b:d;e:" }, "#", "a0", "a0", "", " ;},!", Ty::value, Ty::value, Ty::error, "", 0 },
    /*30*/ { 5, { "", "x{}", "x{}\n" }, "@", "a", "a0-_", "", " ;{(", Ty::name_macro_delim, Ty::name_macro, Ty::error, "", 0 },
    /*31*/ { 5, { "a{", "a{b:var(", "a{b:c;" }, "--", "a0_-", "a0_-", "", " :;)}", Ty::name, Ty::name, Ty::error, "", 0 },
    /*32*/ { 5, { "a{b:", "a{b:c + ", "a{b:d(" }, "", "a_", "a0-_", "(", " \n1)", Ty::error, Ty::name_function, Ty::symbol_parens, "url", 0 },
    /*33*/ { 5, { "a{", "a { ", "a{b:c;" }, "", "a_", "a0-_", ":", " 1c", Ty::error, Ty::markup_attr, Ty::symbol_punc, "", 0 },
    /*34*/ { 8, { "a ", "a b ", "a\t" }, "-", "a0-_=+,./:@%^", "a0-_=+,./:@%^", "", " \n;|&)<>", Ty::name_shell_option, Ty::name_shell_option, Ty::error, "", 0 },
    /*35*/ { 16, { "", "\n", "  " }, "", "a_.", "a0_.$#@~", ":", " \n;", Ty::error, Ty::name_label_decl, Ty::name_label_decl, "seg wrt", 0 },
    /*36*/ { 16, { "", "\n", "  " }, "%", "a", "a0 ", "", "\n", Ty::name_macro, Ty::name_macro, Ty::error, "", 0 },
    /*37*/ { 6, { "", "x\n", "x\n \t" }, "#", "a_", "a0_", "", " (\n\t", Ty::name_macro_delim, Ty::name_macro, Ty::error, "", 0 },
    /*38*/ { 2, { "", "x\n", "/**/" }, "%:", "a_", "a0_", "", " (\n\t", Ty::name_macro_delim, Ty::name_macro, Ty::error, "", 0 },
    /*39*/ { 14, { "", "x", "{" }, "\\", "a", "a", "", " {[1\\\n^", Ty::markup_tag, Ty::markup_tag, Ty::error, "", 0 },
    /*40*/ { 15, { "", "x", "{" }, "\\", "a", "a", "", " {[1\\\n^", Ty::markup_tag, Ty::markup_tag, Ty::error, "", 0 },
    /*41*/ { 1, { "", "x", "\\x{" }, "\\", "a_", "a0_", "", " {[(\n.-", Ty::markup_tag, Ty::markup_tag, Ty::error, "", 0 },
    /*42*/ { 5, { "", " ", "a " }, ":", "a", "a0-", "", " {,(", Ty::markup_tag, Ty::markup_tag, Ty::error, "", 0 },
    /*43*/ { 5, { "", " ", "a " }, "::", "a", "a0-", "", " {,(", Ty::markup_tag, Ty::markup_tag, Ty::error, "", 0 },
    /*44*/ { 5, { "a{b:c ", "a{b:c", "a{b:1 " }, "!", "a", "a", "", " ;}\n", Ty::keyword, Ty::keyword, Ty::error, "important IMPORTANT Important", ONLY },
    /*45*/ { 14, { "", "x", "{" }, "\\", "0!\"#$%&'()*+,-./:;<=>?[]^_`{|}~@\\", "", "", " a{[1\\\n^", Ty::string_escape, Ty::string_escape, Ty::error, "", 0 },
    /*46*/ { 15, { "", "x", "{" }, "\\", "0!\"#$%&'()*+,-./:;<=>?[]^_`{|}~@\\", "", "", " a{[1\\\n^", Ty::string_escape, Ty::string_escape, Ty::error, "", 0 },
    /*47*/ { 17, { "", "x = y;\n", "(**)" }, "", "a", "a0-_", "=", " \n\"", Ty::error, Ty::name_nonterminal_decl, Ty::symbol_punc, "", 0 },
    /*48*/ { 17, { "x = ", "x = y, ", "x = [" }, "", "a", "a0-_", "", " ,;|)", Ty::error, Ty::name_nonterminal, Ty::error, "", 0 },
    /*49*/ { 6, { "", "x\n", "/**/" }, "#  ", "a_", "a0_", "", " (\n\t", Ty::name_macro_delim, Ty::name_macro, Ty::error, "", 0 },
    /*50*/ { 2, { "", "x\n", "x\n \t" }, "#", "a_", "a0_", "", " (\n\t", Ty::name_macro_delim, Ty::name_macro, Ty::error, "", 0 },
    /*51*/ { 25, { "a: ", "- ", "[" }, "!", "a0-", "a0-", "!", "b1-", Ty::name_attr_delim, Ty::name_attr, Ty::name_attr_delim, "", PIECES },
    /*52*/ { 19, { "@[", "@[A ", "@file:[A " }, "", "a_", "a0_", "", " ]", Ty::name_attr_delim, Ty::name_attr, Ty::error, "", DOTS },
    /*53*/ { 21, { "&", "<", "T: " }, "'r#", "a_", "a0_", "", " >,)+&;{}=", Ty::name_lifetime_delim, Ty::name_lifetime, Ty::error, "crate self super Self _", 0 },
    /*54*/ { 21, { "", "\n", "{" }, "'r#", "a_", "a0_", ":", " {\n", Ty::name_label_delim, Ty::name_label, Ty::symbol_punc, "crate self super Self _", 0 },
    /*55*/ { 1, { "\\x(", "\\x(a = 1, ", "\\x(\n" }, "", "a_", "a0_", "=", " 1\n", Ty::error, Ty::markup_attr, Ty::symbol_punc, "", 0 },
    /*56*/ { 21, { "", "x + ", "{" }, "r#", "a_", "a0_", "!", " ([{", Ty::name_macro_delim, Ty::name_macro, Ty::name_macro_delim, "crate self super Self _", 0 },
};
static unsigned in_class(const char* s, u8t c)
{
    if (*s == '~') {
        unsigned ok = (unsigned)(c > ' ') & (unsigned)(c < 0x7f);
        for (s++; *s; s++) ok &= (unsigned)(c != (u8t)*s);
        return ok;
    }
    unsigned ok = 0;
    for (; *s; s++) ok |= *s == 'a' ? letter(c) : *s == '0' ? digit(c) : (unsigned)(c == (u8t)*s);
    return ok;
}
extern "C" void lex_sigil()
{
    const Sigil& s = sigils[sym_param("kind", 0)];
    size_t n = (size_t)sym_param("n", 2), flags = (size_t)sym_param("flags", 0);
    bool last = sym_pick(2);
    Text t;
    u8t e[64];
    t.add(s.before[sym_pick(3)]);
    size_t begin = t.n;
    t.add(s.mark);
    for (size_t i = begin; i < t.n; i++) e[i] = t.b[i] == ' ' ? 0 : (u8t)((s.flags & NAMED) && letter(t.b[i]) ? s.t : s.d);
    size_t id = t.n;
    if (s.flags & ONLY) for (const char* w = list_word(s.except, (size_t)sym_pick((int)list_size(s.except))); *w && *w != ' '; w++) t.b[t.n++] = (u8t)*w;
    else {
        for (size_t i = 0; i < n; i++) {
            u8t c = sym_u8();
            bool dot = (s.flags & DOTS) && i && i + 1 < n && t.b[id + i - 1] != '.' && sym_pick(2);
            if (dot) c = '.';
            else sym_assume(in_class(i && t.b[id + i - 1] != '.' ? s.rest : s.first, c));
            t.b[t.n++] = c;
        }
        if (*s.except) sym_assume(!listed(s.except, t.b + id, n, s.lang == 16 || s.lang == 5));
    }
    for (size_t i = id; i < t.n; i++) e[i] = (u8t)((s.flags & DOTS) && t.b[i] == '.' ? s.d : s.t);
    if (s.flags & HYPHENS) {
        unsigned number = (unsigned)(t.b[id] == '-');
        for (size_t i = id + 1; i < t.n; i++) number &= i == id + 1 ? digit(t.b[i]) : 1u;
        sym_assume(!number || n == 1);
    }
    for (const char* p = s.suffix; *p; p++) { e[t.n] = (u8t)s.s; t.b[t.n++] = (u8t)*p; }
    size_t end = t.n;
    if (!last) {
        u8t c = sym_u8();
        unsigned ok = 0;
        for (const char* p = s.after; *p; p++) ok |= (unsigned)(c == (u8t)*p);
        sym_assume(ok);
        t.b[t.n++] = c;
    }
    u8t o[160], starts[160];
    g_starts = starts;
    sym_assume(classify(s.lang, (int)flags, t, o) == ULIGHT_STATUS_OK); // H01
    for (size_t i = begin; i < end; i++) {
        if (i < id) sym_assert(o[i] == e[i], "the mark of a name is not highlighted as one");
        else if (i < end - len(s.suffix)) sym_assert(o[i] == e[i], "a name with a mark is not highlighted as one");
        else sym_assert(o[i] == e[i], "what ends a name is not highlighted as such");
        if (i > id && !(s.flags & PIECES) && e[i] == e[i - 1] && i < end - len(s.suffix)) sym_assert(!starts[i], "a name with a mark is split");
    }
    if (!flags) sym_assert(starts[begin], "a name with a mark is a part of what stands before it");
    if (!last && !flags) sym_assert(starts[end] || o[end] == 0, "a name with a mark continues in what follows it");
    sym_log(1, o[begin]);
    sym_cover(last ? "end" : "followed");
}

// ------------------------------------------------------------------ K10: Markdown
static bool is_any(u8t c, const char* s) { unsigned ok = 0; for (; *s; s++) ok |= (unsigned)(c == (u8t)*s); return ok != 0; }
static void verify(const Markup& m, int lang, const char* what)
{
    u8t o[160];
    sym_assume(classify(lang, 0, m, o) == ULIGHT_STATUS_OK); // H01
    for (size_t i = 0; i < m.n; i++) if (m.e[i] != OPEN) sym_assert(o[i] == m.e[i], what);
    sym_log(1, o[0]);
}
static u8t one_in(const char* s)
{
    u8t c = sym_u8();
    sym_assume(is_any(c, s));
    return c;
}
static void md_spaces(Markup& m, size_t n) { while (n--) m.put(' ', 0); }
extern "C" void lex_markdown()
{
    size_t n = (size_t)sym_param("n", 3), part = (size_t)sym_param("part", 0);
    const u8t F = (u8t)Ty::symbol_formatting, H = (u8t)Ty::text_heading, D = (u8t)Ty::string_delim, C = (u8t)Ty::text_code, E = (u8t)Ty::string_escape;
    const char* what = "a line of Markdown is not highlighted as the block that it is";
    Markup m;
    if (part == 0) { // headings https://spec.commonmark.org/0.31.2/#atx-headings
        if (sym_pick(2)) m.put("q\n", (u8t)0);
        md_spaces(m, sym_pick(4));
        size_t k = 1 + (size_t)sym_pick(7), hashes = m.n;
        for (size_t i = 0; i < k; i++) m.put('#', F);
        size_t begin = m.n;
        for (size_t i = 0; i < n; i++) {
            u8t c = sym_u8();
            sym_assume((c >= ' ' && c < 0x7f) || c == '\t');
            sym_assume(!is_any(c, "`<\\&![*_"));
            m.put(c, 0);
        }
        while (k < 7 && begin < m.n && m.b[begin] == '#') { m.e[begin++] = F; k++; } // one more
        bool heading = k < 7 && (begin == m.n || m.b[begin] == ' ' || m.b[begin] == '\t');
        if (!heading) for (size_t i = hashes; i < begin; i++) m.e[i] = 0;
        else {
            size_t end = m.n;
            while (begin < end && is_any(m.b[begin], " \t")) m.e[begin++] = OPEN;
            while (begin < end && is_any(m.b[end - 1], " \t")) m.e[--end] = OPEN;
            size_t close = end;
            while (begin < close && m.b[close - 1] == '#') close--;
            if (close == begin || is_any(m.b[close - 1], " \t")) {
                end = close; // the closing sequence
                while (begin < end && is_any(m.b[end - 1], " \t")) m.e[--end] = OPEN;
            }
            for (size_t i = begin; i < end; i++) m.e[i] = H;
        }
        m.put("\nq", (u8t)0);
        sym_cover(heading ? "heading" : "no heading");
    }
    else if (part == 1) { // thematic breaks https://spec.commonmark.org/0.31.2/#thematic-breaks
        m.put("q\n\n", (u8t)0);
        size_t lead = (size_t)sym_pick(4), count = 0, blank = 0;
        md_spaces(m, lead);
        static const char* const chars[] = { "* \t", "- \t", "_ \t" };
        const char* s = chars[sym_pick(3)];
        size_t begin = m.n;
        m.put((u8t)s[0], F);
        for (size_t i = 1; i < n; i++) {
            u8t c = one_in(s);
            m.put(c, c == (u8t)s[0] ? F : OPEN);
        }
        for (size_t i = begin; i < m.n; i++) count += m.b[i] == (u8t)s[0], blank += m.b[i] != (u8t)s[0];
        if (count < 3 && (blank || count == 1)) sym_ignore(); // may be a list or an underlined heading
        if (count < 3) for (size_t i = begin; i < m.n; i++) m.e[i] = 0;
        m.put("\nq", (u8t)0);
        sym_cover(count < 3 ? "no break" : "break");
    }
    else if (part == 2) { // fenced code https://spec.commonmark.org/0.31.2/#fenced-code-blocks
        const char* s = sym_pick(2) ? "`~ \ta#" : "~` \ta#";
        size_t run = 3 + (size_t)sym_pick(2);
        md_spaces(m, sym_pick(4));
        for (size_t i = 0; i < run; i++) m.put((u8t)s[0], D);
        m.put(sym_pick(2) ? "\n" : " c\n", (u8t)0);
        bool in = true;
        for (size_t line = 0; line < 2; line++) {
            size_t begin = m.n, lead = line ? (size_t)sym_pick(5) : 0;
            for (size_t i = 0; i < (line ? lead + run : n); i++) m.put(!line ? one_in(s) : i < lead ? ' ' : (u8t)s[0], 0);
            size_t i = begin, k = 0;
            while (i < m.n && m.b[i] == ' ' && i < begin + 3) i++;
            while (i + k < m.n && m.b[i + k] == (u8t)s[0]) k++;
            size_t rest = i + k;
            while (rest < m.n && is_any(m.b[rest], " \t")) rest++;
            bool fence = k >= (in ? run : 3) && rest == m.n;
            if (fence) { for (size_t j = i; j < i + k; j++) m.e[j] = D; in = !in; }
            else if (in) for (size_t j = begin; j < m.n; j++) m.e[j] = C;
            else if (lead > 3) sym_ignore();
            m.put('\n', 0);
        }
        m.put("#", in ? C : F); m.put(" ", in ? C : OPEN); m.put("t", in ? C : H); m.put('\n', 0);
        sym_cover(in ? "open" : "closed");
    }
    else if (part == 3) { // list items https://spec.commonmark.org/0.31.2/#list-items
        if (sym_pick(2)) m.put("q\n\n", (u8t)0);
        md_spaces(m, sym_pick(4));
        size_t begin = m.n, stars = 0, digits = 0;
        for (size_t i = 0; i < n; i++) m.put(one_in("0129-+*.)"), F);
        for (size_t i = begin; i < m.n; i++) stars += m.b[i] == '*';
        if (stars > 1) sym_ignore(); // emphasis
        while (begin + digits < m.n && digit(m.b[begin + digits])) digits++;
        bool list = (n == 1 && is_any(m.b[begin], "-+*")) || (digits && digits < 10 && digits + 1 == n && is_any(m.b[m.n - 1], ".)"));
        if (!list) for (size_t i = begin; i < m.n; i++) m.e[i] = 0;
        m.put(sym_pick(2) ? " ab\n" : "\tab\n", (u8t)0);
        sym_cover(list ? "list" : "no list");
    }
    else if (part == 4) { // block quotes https://spec.commonmark.org/0.31.2/#block-quotes
        if (sym_pick(2)) m.put("q\n\n", (u8t)0);
        for (size_t i = 0; i < n; i++) {
            md_spaces(m, i ? sym_pick(2) : sym_pick(4));
            m.put('>', F);
        }
        md_spaces(m, sym_pick(2));
        switch (sym_pick(7)) {
        case 0: m.put("ab", (u8t)0); break;
        case 5: {
            u8t c = one_in("*-_"); // a break, not a list
            m.put(c, F); m.put(one_in(" \t"), OPEN); m.put(c, F); m.put(one_in(" \t"), OPEN); m.put(c, F);
            break;
        }
        case 1: m.put("#", F); m.put(" ", OPEN); m.put("t", H); break;
        case 2: m.put("-", F); m.put(" t", (u8t)0); break;
        case 3: m.put("12)", F); m.put("\tt", (u8t)0); break;
        case 4: m.put("***", F); break;
        default: break;
        }
        m.put("\n\nq", (u8t)0);
        sym_cover("quote");
    }
    else if (part == 5) { // indented code https://spec.commonmark.org/0.31.2/#indented-code-blocks
        static const char* const before[] = { "", "\n", "q\n\n", " \t\n" };
        m.put(before[sym_pick(4)], OPEN);
        size_t column = 0;
        for (size_t i = 0; i < n; i++) {
            u8t c = one_in(" \t");
            if (c == '\t' && column && column < 4) sym_ignore(); // spaces and a tab: not recognised, see the file tests
            column = c == ' ' ? column + 1 : column / 4 * 4 + 4;
            m.put(c, OPEN);
        }
        bool code = column >= 4;
        m.put("a#- ", code ? C : (u8t)0);
        m.e[m.n - 1] = OPEN;
        m.put("\nq", (u8t)0);
        sym_cover(code ? "code" : "text");
    }
    else if (part == 9) { // emphasis https://spec.commonmark.org/0.31.2/#emphasis-and-strong-emphasis
        what = "emphasis in Markdown is not highlighted as such";
        static const char* const before[] = { "", "q ", "q", "q" };
        size_t b = (size_t)sym_pick(4), a = (size_t)sym_pick(4), run = 1 + (size_t)sym_pick(3);
        u8t c = sym_pick(2) ? '*' : '_';
        auto around = [&](bool word) { // the character before or after
            u8t x = sym_u8();
            sym_assume(x > ' ' && x < 0x7f && !is_any(x, "`<\\&![*_"));
            sym_assume((unsigned)word == (letter(x) | digit(x)));
            m.put(x, 0);
        };
        m.put(before[b], (u8t)0);
        if (b > 1) around(b == 3);
        size_t open = m.n;
        for (size_t i = 0; i < run; i++) m.put(c, F);
        size_t begin = m.n;
        for (size_t i = 0; i < n; i++) {
            u8t x = sym_u8();
            sym_assume((x >= ' ' && x < 0x7f) || x == '\t');
            sym_assume(!is_any(x, "`<\\&![*_"));
            if (!i || i + 1 == n) sym_assume(letter(x) || digit(x) || x == ' ' || x == '\t'); // the rules for punctuation are not implemented
            m.put(x, 0);
        }
        size_t end = m.n;
        for (size_t i = 0; i < run; i++) m.put(c, F);
        if (a == 1) m.put(" q", (u8t)0);
        else if (a) around(a == 3);
        if (n && b == 0 && is_any(m.b[begin], " \t")) sym_ignore(); // may be a list or a break
        bool is = n && !is_any(m.b[begin], " \t") && !is_any(m.b[end - 1], " \t") && (c == '*' || (b != 3 && a != 3));
        if (!n && run == 3 && b == 0 && a == 0) sym_ignore(); // a break
        if (!n && run == 2 && b == 0 && a == 0) sym_ignore();
        if (!is) for (size_t i = open; i < end + run; i++) m.e[i] = 0;
        m.put('\n', 0);
        sym_cover(is ? "emphasis" : "no emphasis");
    }
    else if (part == 10) { // links and images https://spec.commonmark.org/0.31.2/#links
        what = "a link in Markdown is not highlighted as such";
        size_t shape = (size_t)sym_pick(7), k = (size_t)sym_param("k", 2);
        m.put(sym_pick(2) ? "q " : "q", (u8t)0);
        const u8t X = shape < 3 ? F : 0, L = shape < 3 ? (u8t)Ty::text_link : 0;
        m.put(shape == 1 ? "![" : "[", X);
        for (size_t i = 0; i < n; i++) {
            u8t c = sym_u8();
            sym_assume((c >= ' ' && c < 0x7f) || c == '\t');
            sym_assume(!is_any(c, "`<\\&![]*_"));
            m.put(c, 0);
        }
        m.put(shape == 3 ? "] (" : shape == 4 ? "](" : shape == 5 ? "" : "](", X);
        for (size_t i = 0; i < k; i++) {
            u8t c = sym_u8();
            sym_assume(c > ' ' && c < 0x7f);
            sym_assume(!is_any(c, "`<>\\&![]*_()"));
            m.put(c, L);
        }
        if (shape == 2) m.put(sym_pick(2) ? " \"t\"" : "\t't'", (u8t)0);
        if (shape == 6) m.put("\n", (u8t)0);
        if (shape != 4) m.put(')', X);
        m.put("q\n", (u8t)0);
        sym_cover(shape < 3 ? "link" : "no link");
    }
    else if (part == 11) { // autolinks https://spec.commonmark.org/0.31.2/#autolinks
        what = "an autolink in Markdown is not highlighted as such";
        size_t shape = (size_t)sym_pick(3);
        bool blank = false;
        m.put(sym_pick(2) ? "q " : "q", (u8t)0);
        m.put('<', F);
        m.put(shape ? "http:" : "a@b", (u8t)Ty::text_link);
        for (size_t i = 0; i < n; i++) {
            u8t c = sym_u8();
            if (shape == 2) sym_assume(((c >= ' ' && c < 0x7f) || c == '\t') && !is_any(c, "`<\\&![*_>"));
            else sym_assume(shape ? c > ' ' && c < 0x7f && c != '<' && c != '>' : letter(c) || digit(c));
            blank |= c == ' ' || c == '\t';
            m.put(c, (u8t)Ty::text_link);
        }
        bool closed = sym_pick(2);
        if (closed) m.put('>', F);
        if (!closed || blank) for (size_t i = 0; i < m.n; i++) {
            if (i && is_any(m.b[i], "`<\\&![*_")) sym_assume(m.b[i] == '<' && m.b[i - 1] != '<' && i < 3);
            m.e[i] = 0;
        }
        m.put("q\n", (u8t)0);
        sym_cover("autolink");
    }
    else { // code spans, escapes and references
        what = "code, an escape or a reference within a line of Markdown is not highlighted as such";
        m.put("q", (u8t)0);
        size_t begin = m.n;
        for (size_t i = 0; i < n; i++) m.put(part == 6 ? one_in("`\\a ") : part == 7 ? one_in("&#xa1;") : sym_u8(), 0);
        if (part == 8) { // a backslash before any character
            sym_assume(m.b[begin] == '\\');
            for (size_t i = begin + 1; i < m.n; i++) sym_assume(m.b[i] >= ' ' && m.b[i] < 0x7f && (i == begin + 1 || !is_any(m.b[i], "`<&![*_")));
        }
        size_t end = m.n;
        m.put("q", (u8t)0);
        for (size_t i = begin; i < end;) {
            u8t c = m.b[i];
            size_t k = 1;
            if (c == '`') {
                while (m.b[i + k] == '`') k++;
                size_t j = i + k, run = 0;
                for (; j < end; j += run ? run : 1) {
                    for (run = 0; m.b[j + run] == '`'; ) run++;
                    if (run == k) break;
                }
                if (j < end) {
                    for (size_t x = i; x < j + k; x++) m.e[x] = x < i + k || x >= j ? D : C;
                    k = j + k - i;
                }
                else k = 1; // the rest of them may still begin a code span, see the file tests
            }
            else if (c == '\\' && i + 1 < end && m.b[i + 1] > ' ' && m.b[i + 1] < 0x7f && !letter(m.b[i + 1]) && !digit(m.b[i + 1])) {
                m.e[i] = m.e[i + 1] = E;
                k = 2;
            }
            else if (c == '&') {
                bool number = m.b[i + 1] == '#', hexa = number && m.b[i + 2] == 'x';
                size_t j = i + 1 + number + hexa, first = j;
                while (j < end && (hexa ? hexdigit(m.b[j]) : number ? digit(m.b[j]) : digit(m.b[j]) | letter(m.b[j]))) j++;
                if (j > first && m.b[j] == ';' && j < end) {
                    for (k = 0; i + k <= j; k++) m.e[i + k] = number ? E : OPEN; // a name may be unknown
                }
            }
            i += k;
        }
        sym_cover("inline");
    }
    verify(m, 23, what);
}

// ------------------------------------------------------------------ K09: places
static bool g_few; // fewer variants, more pieces
static u8t small_letter() { u8t c = sym_u8(); sym_assume((u8t)(c - 'a') < 26); return c; }
static void css_prelude(Markup& m, bool statement)
{
    const u8t N = (u8t)Ty::name_macro;
    m.put('@', (u8t)Ty::name_macro_delim);
    m.put(small_letter(), N);
    switch (g_few ? 1 : sym_pick(3)) {
    case 0: if (statement) { m.put(" ", (u8t)0); m.put("\"a\"", (u8t)Ty::string); } break;
    case 1: m.put(" ", (u8t)0); m.put(small_letter(), N); break;
    default:
        m.put(" ", (u8t)0); m.put("(", (u8t)Ty::symbol_parens); m.put(small_letter(), N); m.put(":", (u8t)Ty::symbol_punc); m.put(" ", (u8t)0);
        m.put("1", (u8t)Ty::number); m.put("px", (u8t)Ty::number_decor); m.put(")", (u8t)Ty::symbol_parens);
    }
}
static void css_value(Markup& m)
{
    switch (g_few ? 0 : sym_pick(6)) {
    case 0: m.put(small_letter(), (u8t)Ty::name); break;
    case 5: m.put("-", (u8t)Ty::name); m.put(small_letter(), (u8t)Ty::name); m.put(" ", (u8t)0); m.put(small_letter(), (u8t)Ty::name); break;
    case 1: m.put("#", (u8t)Ty::value); m.put(small_letter(), (u8t)Ty::value); break;
    case 2: m.put(small_letter(), (u8t)Ty::name_function); m.put("(", (u8t)Ty::symbol_parens); m.put(small_letter(), (u8t)Ty::name); m.put(")", (u8t)Ty::symbol_parens); break;
    case 3: m.put("0", (u8t)Ty::number); m.put(",", (u8t)Ty::symbol_punc); m.put(" ", (u8t)0); m.put(small_letter(), (u8t)Ty::name); break;
    default: m.put("'};'", (u8t)Ty::string); break;
    }
}
static void css_declaration(Markup& m)
{
    m.put(small_letter(), (u8t)Ty::markup_attr);
    m.put(":", (u8t)Ty::symbol_punc);
    css_value(m);
}
static void css_rule(Markup& m, size_t level)
{
    const u8t S = level ? OPEN : (u8t)Ty::markup_tag; // nested selectors may also look like properties
    switch (sym_pick(g_few ? 2 : 4)) {
    case 0: m.put(small_letter(), S); break;
    case 1: m.put(".", S); m.put(small_letter(), S); m.put(level && !g_few && sym_pick(2) ? "," : ":", level ? OPEN : S); m.put(small_letter(), S); break;
    case 2: m.put("#", S); m.put(small_letter(), S); m.put(">", level ? OPEN : S); m.put(small_letter(), S); break;
    default: m.put(small_letter(), S); m.put(" ", (u8t)0); m.put(small_letter(), S); break;
    }
    m.put("{", (u8t)Ty::symbol_brace);
}
static void yaml_plain(Markup& m, size_t n, Ty t, bool flow)
{
    size_t begin = m.n;
    for (size_t i = 0; i < n; i++) {
        u8t c = i ? sym_u8() : small_letter();
        if (i) {
            sym_assume((unsigned)((u8t)(c - '!') < 0x7f - '!') & (unsigned)(c != ':'));
            if (flow) sym_assume(!is_any(c, ",[]{}"));
        }
        m.put(c, (u8t)t);
    }
    sym_assume(!listed("no on yes off true false null No On Yes Off True False Null NO ON YES OFF TRUE FALSE NULL", m.b + begin, n, false)); // YAML 1.1
}
static void yaml_key(Markup& m, size_t n, bool few)
{
    const u8t K = (u8t)Ty::markup_attr;
    switch (few ? 0 : sym_pick(7)) {
    case 0: yaml_plain(m, n, Ty::markup_attr, false); break;
    case 1: {
        u8t q = sym_pick(2) ? '"' : '\'';
        m.put(q, K);
        if (q == '"' && sym_pick(2)) m.put("\\\"", K);
        for (size_t i = 0; i < n; i++) {
            u8t c = sym_u8();
            sym_assume((unsigned)((u8t)(c - ' ') < 0x7f - ' ') & (unsigned)(c != q) & (unsigned)(q == '\'' || c != '\\'));
            m.put(c, K);
        }
        if (sym_pick(2)) m.put(": ", K);
        m.put(q, K);
        break;
    }
    case 2: m.put("a'b", K); m.put(" ", OPEN); m.put("c", K); break;
    case 3: m.put("&", (u8t)Ty::name_attr_delim); m.put(small_letter(), (u8t)Ty::name); m.put(" ", (u8t)0); m.put(small_letter(), K); break;
    case 4: m.put(small_letter(), K); m.put(sym_pick(2) ? " " : "\t", (u8t)0); break;
    case 5: m.put("*", (u8t)Ty::name_attr_delim); m.put(small_letter(), (u8t)Ty::name); m.put(" ", (u8t)0); break;
    default: m.put("true", K); break;
    }
    m.put(":", (u8t)Ty::symbol_punc);
}
static void yaml_value(Markup& m, size_t n, size_t few, size_t indent)
{
    const u8t S = (u8t)Ty::string, D = (u8t)Ty::string_delim;
    size_t pick = (size_t)sym_pick(few ? 2 : 9);
    switch (few > 1 && pick == 1 ? 7 : pick) {
    case 0: yaml_plain(m, n, Ty::string, false); break;
    case 2: m.put("\"", D); m.put("b: c", S); m.put("\"", D); break;
    case 1: m.put("{", (u8t)Ty::symbol_brace); yaml_plain(m, n, Ty::markup_attr, true); m.put(":", (u8t)Ty::symbol_punc); m.put(" ", (u8t)0);
        m.put("[", (u8t)Ty::symbol_square); yaml_plain(m, n, Ty::string, true); m.put(",", (u8t)Ty::symbol_punc); m.put("1", (u8t)Ty::number); m.put("]", (u8t)Ty::symbol_square); m.put("}", (u8t)Ty::symbol_brace); break;
    case 3: m.put("&", (u8t)Ty::name_attr_delim); m.put(small_letter(), (u8t)Ty::name); m.put(" ", (u8t)0); m.put("'", D); m.put("#", S); m.put("'", D); break;
    case 4: m.put("*", (u8t)Ty::name_attr_delim); m.put(small_letter(), (u8t)Ty::name); break;
    case 5: m.put("no", (u8t)Ty::bool_); break;
    case 6: m.put("no,", S); m.put(" ", OPEN); m.put(small_letter(), S); break;
    case 7: m.put(few || sym_pick(2) ? "|" : ">", D); m.put("\n", (u8t)0); for (size_t i = 0; i < indent + 3; i++) m.put(' ', 0); m.put("b: - c # d", S); return;
    default: m.put("12", (u8t)Ty::number); break;
    }
    if (few) return;
    switch (sym_pick(3)) {
    case 0: break;
    case 1: m.put(" ", OPEN); break;
    default: m.put(" ", OPEN); m.put("#", (u8t)Ty::comment_delim); m.put(" a: b", (u8t)Ty::comment); break;
    }
}
static void yaml_place(size_t n, size_t k, size_t few)
{
    Markup m;
    size_t column[12], depth = 1;
    bool map[12], open = true; // the last line left its value to the next one
    const u8t P = (u8t)Ty::symbol_punc;
    if (!few) switch (sym_pick(4)) {
    case 0: break;
    case 1: m.put("---", P); m.put("\n", (u8t)0); break;
    case 2: m.put("a", (u8t)Ty::string); m.put("\n", (u8t)0); m.put("---", P); m.put(" ", (u8t)0); m.put("#", (u8t)Ty::comment_delim); m.put("a: b", (u8t)Ty::comment); m.put("\n", (u8t)0); break;
    default: m.put("---", P); m.put(" ", (u8t)0); m.put("&", (u8t)Ty::name_attr_delim); m.put(small_letter(), (u8t)Ty::name); m.put("\n", (u8t)0); break;
    }
    column[0] = 0;
    map[0] = sym_pick(2);
    for (size_t i = 0; i < n; i++) {
        if (i) {
            size_t choices = depth, pick;
            if (open) { // the value on further lines, by 1 or 2 blanks
                pick = (size_t)sym_pick(2);
                column[depth] = column[depth - 1] + 1 + pick;
                map[depth] = sym_pick(2);
                if (map[depth - 1] && !map[depth] && sym_pick(2)) column[depth] = column[depth - 1]; // sequences need none
                depth++;
            }
            else { // back to any level
                pick = (size_t)sym_pick((int)choices);
                depth -= pick;
            }
            m.put("\n", (u8t)0);
            if (!few && sym_pick(2)) m.put(sym_pick(2) ? "\n" : " \n", (u8t)0);
            for (size_t j = 0; j < column[depth - 1]; j++) m.put(' ', 0);
        }
        open = false;
        for (size_t nested = 0; !map[depth - 1]; nested++) {
            m.put("-", P);
            if (i + 1 < n && sym_pick(2)) { open = true; break; }
            m.put(" ", (u8t)0);
            size_t shape = (size_t)sym_pick(3);
            if (!shape) { yaml_value(m, k, few, column[depth - 1]); break; }
            column[depth] = column[depth - 1] + 2; // in the same line
            map[depth++] = shape == 1;
            if (nested) sym_ignore();
        }
        if (!map[depth - 1]) continue;
        yaml_key(m, k, few);
        if (i + 1 < n && sym_pick(2)) { open = true; continue; }
        m.put(few || sym_pick(2) ? " " : "\t", (u8t)0);
        yaml_value(m, k, few, column[depth - 1]);
    }
    m.put("\n", (u8t)0);
    m.put("...", P);
    m.put("\n", (u8t)0);
    verify(m, 25, "a key, value or entry in YAML is not highlighted as what it is by its place");
    sym_cover("yaml");
}
static void bash_word(Markup& m, size_t k, Ty t)
{
    for (size_t i = 0; i < k; i++) {
        u8t c = sym_u8();
        sym_assume(letter(c) | (i ? digit(c) | (unsigned)(c == '_') | (unsigned)(c == '-') | (unsigned)(c == '.') | (unsigned)(c == '/') : 0u));
        m.put(c, (u8t)t);
    }
}
static void bash_place(size_t n, size_t k)
{
    Markup m;
    bool command = true;
    size_t depth = 0;
    const u8t O = (u8t)Ty::symbol_op, R = (u8t)Ty::symbol_parens, I = (u8t)Ty::string_interpolation_delim, S = (u8t)Ty::string;
    bool substitution[8];
    for (size_t i = 0; i < n; i++) {
        m.put(sym_pick(2) ? " " : "\\\n", OPEN);
        if (m.b[m.n - 1] == '\n') m.put(' ', 0);
        if (command) {
            if (sym_pick(3) == 0 && depth < 4) { m.put("(", R); substitution[depth++] = false; continue; }
            bash_word(m, k, Ty::name_shell_command);
            command = false;
            continue;
        }
        switch (sym_pick(depth ? 9 : 8)) {
        case 0: bash_word(m, k, Ty::string); break;
        case 1: m.put("-", (u8t)Ty::name_shell_option); bash_word(m, k, Ty::name_shell_option); break;
        case 2: m.put("'", (u8t)Ty::string_delim); m.put("a; b", S); m.put("'", (u8t)Ty::string_delim); break;
        case 3: m.put(sym_pick(2) ? ">" : "<", O); m.put(" ", (u8t)0); bash_word(m, k, Ty::string); break;
        case 4: m.put(sym_pick(2) ? ";" : "|", O); command = true; break;
        case 5: m.put(sym_pick(2) ? "&&" : "||", O); command = true; break;
        case 6: m.put("\n", (u8t)0); command = true; break;
        case 7: if (depth > 3) sym_ignore(); m.put("$(", I); substitution[depth++] = true; command = true; break;
        default: depth--; m.put(")", substitution[depth] ? I : R); if (!substitution[depth]) { m.put(" ;", O); m.e[m.n - 2] = 0; command = true; }
        }
    }
    if (command) { m.put(" ", (u8t)0); bash_word(m, 1, Ty::name_shell_command); }
    while (depth--) m.put(")", substitution[depth] ? I : R);
    m.put("\n", (u8t)0);
    bash_word(m, k, Ty::name_shell_command);
    verify(m, 8, "a word in Bash is not highlighted as a command, option or argument by its place");
    sym_cover("bash");
}
extern "C" void lex_place()
{
    size_t n = (size_t)sym_param("n", 2), part = (size_t)sym_param("part", 0);
    Markup m;
    if (part == 0) { // CSS
        static const char* const between[] = { "", "\n", "/**/" };
        g_few = sym_param("few", 0) != 0;
        const char* gap = g_few ? "" : between[sym_pick(3)];
        const u8t g = gap[0] == '/' ? OPEN : 0;
        size_t level = 0;
        for (size_t i = 0; i < n; i++) {
            m.put(gap, g);
            switch (sym_pick(level ? 6 : 3)) {
            case 0: css_rule(m, level); level++; break;
            case 1: css_prelude(m, true); m.put(";", (u8t)Ty::symbol_punc); break;
            case 2: css_prelude(m, false); m.put("{", (u8t)Ty::symbol_brace); level++; break;
            case 3: css_declaration(m); m.put(";", (u8t)Ty::symbol_punc); break;
            case 4: css_declaration(m); m.put(gap, g); m.put("}", (u8t)Ty::symbol_brace); level--; break; // no ; needed
            default: m.put("}", (u8t)Ty::symbol_brace); level--;
            }
        }
        m.put(gap, g);
        if (level && sym_pick(2)) css_declaration(m);
        for (; level; level--) { m.put(gap, g); m.put("}", (u8t)Ty::symbol_brace); }
        m.put(gap, g);
        m.put("a", (u8t)Ty::markup_tag); m.put("{", (u8t)Ty::symbol_brace); m.put("b", (u8t)Ty::markup_attr); m.put(":", (u8t)Ty::symbol_punc);
        verify(m, 5, "a part of a style sheet is not highlighted as what it is by its place");
        sym_cover("css");
    }
    else if (part == 2) yaml_place(n, (size_t)sym_param("k", 2), (size_t)sym_param("few", 0));
    else if (part == 3) bash_place(n, (size_t)sym_param("k", 2));
    else { // diff
        const u8t H = (u8t)Ty::diff_heading, K = (u8t)Ty::diff_heading_hunk, D = (u8t)Ty::diff_deletion, I = (u8t)Ty::diff_insertion, M = (u8t)Ty::diff_modification, E = (u8t)Ty::diff_common;
        static const char* const before[] = { "", "\n", "-a\n", "+a\r\n", "@@ a\n", "***\n" };
        static const u8t type[] = { 0, 0, D, I, K, H };
        size_t b = (size_t)sym_pick(6);
        m.put(before[b], type[b]);
        while (b && m.n && is_any(m.b[m.n - 1], "\r\n")) m.n--;
        for (const char* p = before[b] + m.n; *p; p++) m.put((u8t)*p, 0);
        size_t begin = m.n;
        bool crlf = sym_pick(2);
        for (size_t i = 0; i < n; i++) {
            u8t c = sym_u8();
            sym_assume(c != '\n' && c != '\r' && c < 0x80);
            m.put(c, 0);
        }
        size_t end = m.n;
        auto at = [&](size_t i) { return begin + i < end ? m.b[begin + i] : (u8t)0; };
        u8t c = at(0), t = E;
        bool stars = true, three = at(1) == c && at(2) == c && at(3) == ' ' && n > 3;
        for (size_t i = begin; i < end; i++) stars &= m.b[i] == '*';
        if (c == '-') t = three ? H : D;
        else if (c == '+') t = three ? H : I;
        else if (c == '*') t = three || stars ? H : E;
        else if (c == '!') t = M;
        else if (c == '@') t = at(1) == '@' && at(2) == ' ' && n > 2 ? K : E;
        for (size_t i = begin; i < end; i++) m.e[i] = n ? t : 0;
        m.put(crlf ? "\r\n" : "\n", (u8t)0);
        m.put(" a", E);
        verify(m, 9, "a line of a diff is not highlighted by the mark it begins with");
        sym_cover("diff");
    }
}
