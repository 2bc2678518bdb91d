// Interface between the harnesses and the symbolic executor (or, natively, the replay runtime).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void sym_bytes(void* p, size_t n);                   // make n bytes symbolic
void sym_assume(bool c);                             // restrict the inputs
void sym_assert(bool c, const char* msg);            // the property
void sym_cover(const char* name);                    // reachability witness
int64_t sym_param(const char* name, int64_t def);    // bound chosen by the driver
void sym_log(uint64_t tag, uint64_t value);          // observable outcome (compared natively)
uint64_t sym_concretize(uint64_t v);                 // split on every value of v
[[noreturn]] void sym_ignore();                      // drop this path
size_t sym_blob(const char* name, void* buf, size_t cap); // concrete data chosen by the driver; returns its length
void* sym_malloc(size_t n, size_t align);
void sym_free(void* p);
size_t sym_heap_live();
// Calls f as if nothing of the library had run before (natively: in a process of its own, so f may only
// read, assert and write to memory from sym_shared), and leaves the library as it was at the start.
void sym_fresh(void (*f)(void*), void* arg);
void* sym_shared(size_t n);
}
inline uint8_t sym_u8() { uint8_t b; sym_bytes(&b, 1); return b; }
inline uint16_t sym_u16() { uint16_t b; sym_bytes(&b, 2); return b; }
inline uint32_t sym_u32() { uint32_t b; sym_bytes(&b, 4); return b; }
inline uint64_t sym_u64() { uint64_t b; sym_bytes(&b, 8); return b; }
inline bool sym_bool() { uint8_t b = sym_u8(); sym_assume(b < 2); return b == 1; }
// value in [lo, hi], hi - lo < 256
inline uint64_t sym_range(uint64_t lo, uint64_t hi)
{
    if (lo == hi) return lo;
    uint8_t b = sym_u8();
    sym_assume(b <= hi - lo);
    return lo + b;
}
// one of [0, n), n <= 65536, as a concrete value on every path
inline uint64_t sym_pick(uint64_t n)
{
    if (n <= 1) return 0;
    if (n <= 256) return sym_concretize(sym_range(0, n - 1));
    uint64_t hi = sym_concretize(sym_range(0, (n - 1) >> 8));
    uint64_t lo = sym_concretize(sym_u8());
    sym_assume(hi * 256 + lo < n);
    return hi * 256 + lo;
}
// An exactly sized heap buffer of n symbolic bytes, so that every access outside is noticed.
inline char* sym_buffer(size_t n)
{
    char* p = static_cast<char*>(sym_malloc(n, 1));
    sym_bytes(p, n);
    return p;
}
// Harness-side allocation-failure schedule: the k-th operator new (1-based) fails when armed.
extern "C" uint64_t sym_fail_at;   // 0 = never
extern "C" uint64_t sym_alloc_count;
