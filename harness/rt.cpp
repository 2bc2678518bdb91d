// Runtime stubs for symbolic execution. Compiled to bitcode with -fno-builtin.
#include "sym.h"
#include <memory_resource>
#include <new>
#include <stdexcept>
#include <exception>
#include <string>

extern "C" {
uint64_t sym_fail_at = 0;
uint64_t sym_alloc_count = 0;
int memcmp(const void* a, const void* b, size_t n)
{
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
int bcmp(const void* a, const void* b, size_t n)
{
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return 1;
    return 0;
}
void* memchr(const void* a, int c, size_t n)
{
    const unsigned char* x = (const unsigned char*)a;
    for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void*)(x + i);
    return nullptr;
}
void sym_reset_globals();
void sym_fresh(void (*f)(void*), void* arg) { sym_reset_globals(); f(arg); sym_reset_globals(); }
void* sym_shared(size_t n) { return sym_malloc(n, 16); }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char* vp_strchr(const char* s, int c) __asm__("strchr");
char* vp_strchr(const char* s, int c)
{
    for (;; s++) {
        if (*s == (char)c) return (char*)s;
        if (!*s) return nullptr;
    }
}
char* vp_strrchr(const char* s, int c) __asm__("strrchr");
char* vp_strrchr(const char* s, int c)
{
    const char* r = nullptr;
    for (;; s++) {
        if (*s == (char)c) r = s;
        if (!*s) return (char*)r;
    }
}
int strcmp(const char* a, const char* b)
{
    while (*a && *a == *b) a++, b++;
    return (unsigned char)*a - (unsigned char)*b;
}
int strncmp(const char* a, const char* b, size_t n)
{
    for (; n; a++, b++, n--)
        if (*a != *b || !*a) return (unsigned char)*a - (unsigned char)*b;
    return 0;
}
}

static void* alloc(size_t n, size_t al)
{
    sym_alloc_count++;
    if (sym_fail_at && sym_alloc_count == sym_fail_at) return nullptr;
    return sym_malloc(n ? n : 1, al);
}
void* operator new(size_t n) { void* p = alloc(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = alloc(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, std::align_val_t a) { void* p = alloc(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = alloc(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc(n, 16); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return alloc(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return alloc(n, (size_t)a); }
void operator delete(void* p) noexcept { sym_free(p); }
void operator delete[](void* p) noexcept { sym_free(p); }
void operator delete(void* p, size_t) noexcept { sym_free(p); }
void operator delete[](void* p, size_t) noexcept { sym_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { sym_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sym_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sym_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sym_free(p); }

namespace std {
namespace pmr { memory_resource::~memory_resource() = default; }
bad_alloc::~bad_alloc() noexcept { }
const char* bad_alloc::what() const noexcept { return "bad_alloc"; }
exception::~exception() noexcept { }
const char* exception::what() const noexcept { return "exception"; }
__cow_string::__cow_string() : _M_p("") { }
__cow_string::__cow_string(const std::string&) : _M_p("") { }
__cow_string::__cow_string(const char* p, size_t) : _M_p(p) { }
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) { }
__cow_string::~__cow_string() { }
runtime_error::runtime_error(const std::string& s) : _M_msg(s) { }
runtime_error::runtime_error(const char*) { }
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) { }
runtime_error::~runtime_error() noexcept { }
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
logic_error::logic_error(const std::string& s) : _M_msg(s) { }
logic_error::logic_error(const char*) { }
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) { }
logic_error::~logic_error() noexcept { }
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
struct sym_length_error { const char* m; };
void __throw_length_error(const char* m) { throw sym_length_error { m }; }
void __throw_out_of_range_fmt(const char* m, ...) { throw sym_length_error { m }; }
void __throw_logic_error(const char* m) { throw sym_length_error { m }; }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_alloc(); }
void __throw_bad_function_call() { throw sym_length_error { "" }; }
void __throw_bad_optional_access() { throw sym_length_error { "" }; }
void __glibcxx_assert_fail(const char*, int, const char*, const char* cond) noexcept
{
    sym_assert(false, cond);
    sym_ignore();
}
}

// The decimal conversion is not encoded: the model hands back a value that identifies the text it was
// given, so that a property can tell whether the right text was converted.
extern "C" double strtod(const char* s, char** end)
{
    size_t n = 0;
    uint64_t h = 1469598103934665603u;
    while (s[n] == '-' || s[n] == '+' || s[n] == '.' || (s[n] >= '0' && s[n] <= '9') || ((s[n] | 32) >= 'a' && (s[n] | 32) <= 'z')) {
        h = (h ^ (unsigned char)s[n]) * 31;
        n++;
    }
    if (end) *end = (char*)s + n;
    double d;
    __builtin_memcpy(&d, &h, 8);
    return d;
}
