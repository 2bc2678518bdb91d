// Files: loading them, and the command line tool. The C library's streams are replaced by a model in which
// every operation can fail.
#include "ref.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <expected>
#include <iostream>
#include <span>
#include <string_view>
#include <vector>
#include "ulight/ulight.hpp"
#include "ulight/impl/assert.hpp"
#include "ulight/impl/io.hpp"
using namespace ulight;
namespace {
enum { NONE, IN, OUT, STD };
struct Stream { int kind = NONE; bool open = false, error = false; };
Stream g_in { IN }, g_out { OUT }, g_std { STD, true };
const char* g_in_path = nullptr;
const char* g_out_path = nullptr;
unsigned char* g_data;      // the input file
size_t g_len, g_pos;
size_t g_read_limit;        // reading fails once this much was delivered
bool g_in_missing, g_read_fails, g_out_missing;
int g_write_fails;          // 0 never, 1 when writing, 2 when what is buffered gets written
bool g_reported;            // a failure to write was reported to the program
unsigned char g_got[1 << 16];
size_t g_ngot;
unsigned g_opens, g_closes, g_out_opens;
Stream* ours(FILE* f) { return (void*)f == &g_in || (void*)f == &g_out || (void*)f == &g_std ? (Stream*)f : nullptr; }
}
extern "C" {
FILE* __real_fopen(const char*, const char*);
size_t __real_fread(void*, size_t, size_t, FILE*);
size_t __real_fwrite(const void*, size_t, size_t, FILE*);
int __real_ferror(FILE*);
int __real_feof(FILE*);
int __real_fflush(FILE*);
int __real_fclose(FILE*);
FILE* __wrap_fopen(const char* path, const char* mode)
{
    if (!g_in_path) return __real_fopen(path, mode);
    bool in = strcmp(path, g_in_path) == 0;
    bool out = !in && g_out_path && strcmp(path, g_out_path) == 0;
    sym_assert(in || out, "another file is opened");
    Stream& s = in ? g_in : g_out;
    sym_assert(strcmp(mode, in ? "rb" : "wb") == 0, "a file is opened in another mode");
    if (in ? g_in_missing : g_out_missing) return nullptr;
    sym_assert(!s.open, "a file is opened twice");
    s.open = true;
    g_opens++;
    g_out_opens += !in;
    g_pos = in ? 0 : g_pos;
    return (FILE*)&s;
}
size_t __wrap_fread(void* p, size_t k, size_t n, FILE* f)
{
    Stream* s = ours(f);
    if (!s) return __real_fread(p, k, n, f);
    sym_assert(s->kind == IN && s->open, "reading from another stream");
    size_t end = g_read_fails ? g_read_limit : g_len, m = k * n < end - g_pos ? k * n : end - g_pos;
    if (m < k * n && g_read_fails) s->error = true;
    memcpy(p, g_data + g_pos, m);
    g_pos += m;
    return k ? m / k : 0;
}
size_t __wrap_fwrite(const void* p, size_t k, size_t n, FILE* f)
{
    Stream* s = ours(f);
    if (!s) return __real_fwrite(p, k, n, f);
    sym_assert(s->kind != IN && s->open, "writing to another stream");
    if (g_write_fails == 1) {
        s->error = g_reported = true;
        return 0;
    }
    sym_assert(g_ngot + k * n <= sizeof g_got, "the output is too long");
    memcpy(g_got + g_ngot, p, k * n);
    g_ngot += k * n;
    return n;
}
int __real_fputs(const char*, FILE*);
int __wrap_fputs(const char* p, FILE* f)
{
    if (!ours(f)) return __real_fputs(p, f);
    size_t n = strlen(p);
    return __wrap_fwrite(p, 1, n, f) == n ? 0 : EOF;
}
int __real_fputc(int, FILE*);
int __wrap_fputc(int c, FILE* f)
{
    if (!ours(f)) return __real_fputc(c, f);
    unsigned char b = (unsigned char)c;
    return __wrap_fwrite(&b, 1, 1, f) ? b : EOF;
}
int __wrap_putc(int c, FILE* f) { return __wrap_fputc(c, f); }
int __wrap_ferror(FILE* f) { return ours(f) ? ours(f)->error : __real_ferror(f); }
int __wrap_feof(FILE* f) { return ours(f) ? g_pos == g_len : __real_feof(f); }
int __wrap_fflush(FILE* f)
{
    Stream* s = ours(f);
    if (!s) return __real_fflush(f);
    if (g_write_fails == 2 && s->kind != IN && g_ngot) {
        s->error = g_reported = true;
        return -1;
    }
    return 0;
}
int __wrap_fclose(FILE* f)
{
    Stream* s = ours(f);
    if (!s) return __real_fclose(f);
    sym_assert(s->kind != STD, "the standard output is closed");
    sym_assert(s->open, "a stream is closed twice");
    s->open = false;
    g_closes++;
    if (g_write_fails == 2 && s->kind == OUT && g_ngot) {
        g_reported = true;
        return -1;
    }
    return 0;
}
}

// ------------------------------------------------------------------ the command line tool
namespace std {
struct vp_err { size_t n = 0; } cerr_model;
inline vp_err& operator<<(vp_err& o, std::string_view s) { o.n += s.size(); return o; }
inline vp_err& operator<<(vp_err& o, const char* s) { o.n += strlen(s); return o; }
inline vp_err& operator<<(vp_err& o, char) { o.n++; return o; }
}
#undef stdout
#define stdout ((FILE*)&g_std)
#define cerr cerr_model
#define main ulight_cli_main
#include "../src/main/cpp/main.cpp"
#undef main
#undef cerr
#undef stdout

static void content(size_t n)
{
    g_len = n;
    g_data = (unsigned char*)sym_malloc(g_len + 1, 1);
    sym_bytes(g_data, n);
    g_data[g_len] = 0xff;
}
static char g_html[1 << 16], g_chunk[256];
static size_t g_nhtml;
static int cli(int argc, const char** argv) { return ::ulight_cli_main(argc, argv); }
extern "C" void io_cli()
{
    content((size_t)sym_pick((uint64_t)sym_param("n", 3) + 1));
    int form = (int)sym_pick(3); // no file, input only, input and output
    static const char* const paths[] { "d.x/a.json", "b.lua", "c.xyz", "json", "e.cpp" };
    size_t lang_at = (size_t)sym_param("path", 0);
    const char* argv[4] = { "ulight", paths[lang_at], "out.html", nullptr };
    int argc = 1 + form;
    argv[argc] = nullptr;
    static const ulight_lang langs[] { ULIGHT_LANG_JSON, ULIGHT_LANG_LUA, ULIGHT_LANG_NONE, ULIGHT_LANG_NONE, ULIGHT_LANG_CPP };
    ulight_lang lang = langs[lang_at];
    g_in_path = paths[lang_at];
    g_out_path = form == 2 ? "out.html" : nullptr;
    g_in_missing = sym_pick(2);
    g_out_missing = sym_pick(2);
    g_write_fails = (int)sym_pick(3);
    g_read_fails = sym_pick(2);
    g_read_limit = g_len / 2;
    int rc = cli(argc, argv);
    bool loaded = form && lang != ULIGHT_LANG_NONE && !g_in_missing && !g_read_fails && ref_utf8_valid(g_data, g_len);
    bool opened = loaded && (form == 1 || !g_out_missing);
    bool hit = false;
    if (opened) {
        ulight_state st;
        ulight_init(&st);
        ulight_token tok[16];
        st.source = (const char*)g_data;
        st.source_length = g_len;
        st.lang = lang;
        st.token_buffer = tok;
        st.token_buffer_length = 16;
        st.text_buffer = g_chunk;
        st.text_buffer_length = sizeof g_chunk;
        st.flush_text = [](const void*, char* p, size_t n) {
            sym_assert(g_nhtml + n <= sizeof g_html, "the output is too long");
            memcpy(g_html + g_nhtml, p, n);
            g_nhtml += n;
        };
        sym_assert(ulight_source_to_html(&st) == ULIGHT_STATUS_OK, "highlighting fails");
        hit = g_write_fails && g_nhtml;
    }
    bool ok = opened && !hit;
    if (ok) {
        sym_cover("success");
        sym_assert(rc == 0, "failure is reported although everything worked");
        sym_assert(g_ngot == g_nhtml && memcmp(g_got, g_html, g_nhtml) == 0, "the output is not the HTML of the file");
        sym_assert(std::cerr_model.n == 0, "a message although everything worked");
    }
    else {
        sym_assert(rc != 0, hit ? "success is reported although the output could not be written" : "success is reported although something failed");
        sym_assert(std::cerr_model.n != 0, "no message about a failure");
        if (!opened) sym_assert(g_ngot == 0, "something is written although nothing was loaded");
    }
    if (!loaded) sym_assert(g_out_opens == 0, "the output file is truncated although the input could not be loaded");
    sym_assert(g_opens == g_closes, "a file is left open");
    sym_free(g_data);
    sym_assert(sym_heap_live() == 0, "memory is left allocated");
}

// ------------------------------------------------------------------ loading
static void big(size_t n)
{
    g_len = n;
    g_data = (unsigned char*)sym_malloc(n + 1, 1);
    for (size_t i = 0; i < n; i++) g_data[i] = (unsigned char)(i * 7 % 95 + 32);
    size_t k = (size_t)sym_param("n", 2);
    for (size_t at = 0; at < n; at += BUFSIZ) {
        sym_bytes(g_data + at, k < n - at ? k : n - at);
        if (at >= k) sym_bytes(g_data + at - k, k);
    }
    g_read_limit = sym_pick(2) ? n : n / 2;
}
extern "C" void io_bytes()
{
    static const size_t sizes[] { 0, 1, 5, BUFSIZ - 1, BUFSIZ, BUFSIZ + 1, 2 * BUFSIZ - 1, 2 * BUFSIZ, 2 * BUFSIZ + 3 };
    big(sizes[sym_pick(9)]);
    // the path: a short one, the longest that is supported, and longer ones
    static const size_t lens[] { 4, BUFSIZ - 1, BUFSIZ, BUFSIZ + 7 };
    size_t plen = lens[sym_param("long", 0) ? 1 + sym_pick(3) : 0];
    char* path = (char*)sym_malloc(plen + 1, 1);
    memset(path, 'p', plen);
    path[plen] = 0;
    char* unterminated = (char*)sym_malloc(plen, 1);
    memcpy(unterminated, path, plen);
    g_in_path = path;
    g_in_missing = sym_pick(2);
    g_read_fails = sym_pick(2);
    {
        std::vector<unsigned char> out;
        size_t had = (size_t)sym_pick(2);
        unsigned char first = sym_u8();
        if (had) out.push_back(first);
        auto r = file_to_bytes(out, std::string_view(unterminated, plen));
        bool missing = g_in_missing || plen >= BUFSIZ;
        sym_assert(r.has_value() == !(missing || g_read_fails), "loading succeeds exactly when nothing failed");
        if (!r) sym_assert(r.error() == (missing ? IO_Error_Code::cannot_open : IO_Error_Code::read_error), "kind of error");
        else sym_assert(out.size() == had + g_len && memcmp(out.data() + had, g_data, g_len) == 0, "the content is not that of the file");
        if (had) sym_assert(out[0] == first, "what was in the vector changed");
        sym_assert(g_opens == g_closes, "a file is left open");
    }
    sym_free(path);
    sym_free(unterminated);
    sym_free(g_data);
    sym_assert(sym_heap_live() == 0, "memory is left allocated");
}
extern "C" void io_text()
{
    content((size_t)sym_pick((uint64_t)sym_param("n", 5) + 1));
    g_in_path = "file";
    g_in_missing = sym_pick(2);
    g_read_fails = sym_pick(2);
    g_read_limit = g_len / 2;
    bool io = g_in_missing || g_read_fails;
    auto err = g_in_missing ? IO_Error_Code::cannot_open : IO_Error_Code::read_error;
    {
        auto r = load_utf8_file("file");
        bool valid = ref_utf8_valid(g_data, g_len);
        sym_assert(r.has_value() == (!io && valid), "text is loaded exactly when it is well-formed UTF-8");
        if (!r) sym_assert(r.error() == (io ? err : IO_Error_Code::corrupted), "kind of error");
        else sym_assert(r->size() == g_len && memcmp(r->data(), g_data, g_len) == 0, "the text is not that of the file");
        std::vector<char8_t> v { u8'\xe2' };
        g_in.error = false;
        auto q = load_utf8_file(v, "file");
        sym_assert(q.has_value() == r.has_value() && v[0] == u8'\xe2', "appending to a vector");
        if (q) sym_assert(v.size() == g_len + 1 && memcmp(v.data() + 1, g_data, g_len) == 0, "appending to a vector");
        g_in.error = false;
        auto w = load_utf32le_file("file");
        sym_assert(w.has_value() == (!io && g_len % 4 == 0), "UTF-32 is loaded exactly from whole code units");
        if (!w) sym_assert(w.error() == (io ? err : IO_Error_Code::corrupted), "kind of error, UTF-32");
        else {
            sym_assert(w->size() == g_len / 4, "length in UTF-32");
            for (size_t i = 0; i + 4 <= g_len; i += 4)
                sym_assert((*w)[i / 4] == (char32_t)(g_data[i] | g_data[i + 1] << 8 | g_data[i + 2] << 16 | (char32_t)g_data[i + 3] << 24), "UTF-32 code unit");
        }
        sym_assert(g_opens == g_closes, "a file is left open");
    }
    sym_free(g_data);
    sym_assert(sym_heap_live() == 0, "memory is left allocated");
}
// Unique_File: every file is closed exactly once, by its owner.
extern "C" void io_unique()
{
    size_t steps = (size_t)sym_param("ops", 4);
    g_in_path = "file";
    g_out_path = "other";
    int a = NONE, b = NONE; // what x and y own
    {
        Unique_File x, y;
        for (size_t i = 0; i < steps; i++) {
            unsigned closes = g_closes;
            int lost = NONE;
            switch (sym_pick(7)) {
            case 0:
                if (g_in.open) sym_ignore();
                lost = a;
                x = fopen_unique("file", "rb");
                a = IN;
                break;
            case 1:
                if (g_out.open) sym_ignore();
                lost = b;
                y = fopen_unique("other", "wb");
                b = OUT;
                break;
            case 2:
                lost = a;
                x = std::move(y);
                a = b;
                b = NONE;
                break;
            case 3: {
                swap(x, y);
                int t = a;
                a = b;
                b = t;
                break;
            }
            case 4:
                lost = a;
                x.close();
                a = NONE;
                break;
            case 5: {
                FILE* f = y.release();
                sym_assert((b == NONE) == (f == nullptr) && !y, "releasing");
                b = NONE;
                if (f) {
                    sym_assert(ours(f)->open, "released file is closed");
                    Unique_File z { f };
                    Unique_File w { std::move(z) };
                    sym_assert(!z && w.get() == f, "moving");
                    lost = ours(f)->kind;
                }
                break;
            }
            default:
                lost = b;
                b = NONE;
                y = Unique_File {};
            }
            sym_assert(g_closes == closes + (lost != NONE), "a file is closed exactly when its owner lets go of it");
            sym_assert((a == NONE) == !x && (b == NONE) == !y, "ownership");
            if (a) sym_assert(ours(x.get())->kind == a && ours(x.get())->open, "the file that is owned");
            if (b) sym_assert(ours(y.get())->kind == b && ours(y.get())->open, "the file that is owned");
        }
    }
    sym_assert(g_opens == g_closes && !g_in.open && !g_out.open, "a file is left open");
}
