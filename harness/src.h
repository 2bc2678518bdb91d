// The source under test and the state that every highlighting property starts from.
#pragma once
#include "ref.h"
#include "ulight/ulight.h"
#include "ulight/impl/assert.hpp"

static char* g_src;
static size_t g_len, g_hole, g_holelen, g_tmpl;

// The source: a template chosen from the blob "tmpl" ([u8 a][a bytes][u8 b][b bytes])* around n
// symbolic bytes, or only the symbolic bytes. Mode bits (param "mode"): 1 = only ASCII in the hole,
// 2 = only well-formed UTF-8 in the hole, 4 = printable ASCII and newline, 8 = exactly one code point.
static unsigned char g_blob[60000];
static void make_source()
{
    size_t n = (size_t)sym_param("n", 3), mode = (size_t)sym_param("mode", 0);
    size_t bl = sym_blob("tmpl", g_blob, sizeof g_blob);
    const unsigned char *pre = nullptr, *suf = nullptr;
    size_t a = 0, b = 0;
    if (bl) {
        size_t count = 0;
        for (size_t i = 0; i < bl; count++) { i += 1 + g_blob[i]; i += 1 + g_blob[i]; }
        size_t k = (size_t)sym_pick(count), i = 0;
        g_tmpl = k;
        while (k--) { i += 1 + g_blob[i]; i += 1 + g_blob[i]; }
        a = g_blob[i]; pre = g_blob + i + 1; i += 1 + a;
        b = g_blob[i]; suf = g_blob + i + 1;
    }
    g_len = a + n + b;
    g_src = (char*)sym_malloc(g_len ? g_len : 1, 1);
    if (!g_len) { sym_free(g_src); g_src = (char*)sym_malloc(1, 1); }
    for (size_t i = 0; i < a; i++) g_src[i] = (char)pre[i];
    sym_bytes(g_src + a, n);
    for (size_t i = 0; i < b; i++) g_src[a + n + i] = (char)suf[i];
    g_hole = a; g_holelen = n;
    const unsigned char* h = (const unsigned char*)g_src + a;
    if (mode & 1) for (size_t i = 0; i < n; i++) sym_assume(h[i] < 0x80);
    if (mode & 4) for (size_t i = 0; i < n; i++) sym_assume(h[i] == '\n' || (h[i] >= 0x20 && h[i] < 0x7f));
    if (mode & 2) sym_assume(ref_utf8_valid(h, n));
    if (mode & 8) sym_assume(ref_utf8_len(h, n) == n);
}
static bool source_valid() { return ref_utf8_valid((const unsigned char*)g_src, g_len); }

static void on_assertion(const ulight::Assertion_Error& e)
{
    sym_assert(false, (const char*)e.message.data());
    throw e;
}
static void base_state(ulight_state& st, ulight_token* tok, size_t cap, void (*fl)(const void*, ulight_token*, size_t))
{
    ulight::assertion_handler = on_assertion;
    ulight_init(&st);
    st.source = g_src;
    st.source_length = g_len;
    st.lang = (ulight_lang)sym_param("lang", 1);
    st.flags = (ulight_flag)sym_param("flags", 0);
    st.token_buffer = tok;
    st.token_buffer_length = cap;
    st.flush_tokens = fl;
}
static void done() { sym_free(g_src); }
