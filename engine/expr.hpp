// Expression DAG for ulsym: hash-consed bit-vector expressions over symbolic bytes.
#pragma once
#include <array>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using u8 = uint8_t;
using u16 = uint16_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;
using u128 = unsigned __int128;
using i128 = __int128;

[[noreturn]] inline void die(const std::string& m) {
    fprintf(stderr, "ulsym: fatal: %s\n", m.c_str());
    fflush(stderr);
    _exit(3);
}

// A set of up to 256 elements; used both for byte domains (values) and for supports (symbols).
struct Set256 {
    u64 w[4] {};
    static Set256 full() { Set256 s; for (auto& x : s.w) x = ~0ull; return s; }
    bool has(unsigned i) const { return w[i >> 6] >> (i & 63) & 1; }
    void add(unsigned i) { w[i >> 6] |= 1ull << (i & 63); }
    void del(unsigned i) { w[i >> 6] &= ~(1ull << (i & 63)); }
    bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); }
    int count() const { int c = 0; for (u64 x : w) c += __builtin_popcountll(x); return c; }
    int first() const { for (int i = 0; i < 4; i++) if (w[i]) return i * 64 + __builtin_ctzll(w[i]); return -1; }
    bool subset_of(const Set256& o) const {
        for (int i = 0; i < 4; i++) if (w[i] & ~o.w[i]) return false;
        return true;
    }
    bool intersects(const Set256& o) const {
        for (int i = 0; i < 4; i++) if (w[i] & o.w[i]) return true;
        return false;
    }
    Set256& operator|=(const Set256& o) { for (int i = 0; i < 4; i++) w[i] |= o.w[i]; return *this; }
    Set256& operator&=(const Set256& o) { for (int i = 0; i < 4; i++) w[i] &= o.w[i]; return *this; }
    friend Set256 operator&(Set256 a, const Set256& b) { a &= b; return a; }
    friend Set256 operator|(Set256 a, const Set256& b) { a |= b; return a; }
    Set256 operator~() const { Set256 r; for (int i = 0; i < 4; i++) r.w[i] = ~w[i]; return r; }
    bool operator==(const Set256& o) const { return !memcmp(w, o.w, sizeof w); }
    template <class F> void each(F f) const {
        for (int i = 0; i < 4; i++) for (u64 x = w[i]; x; x &= x - 1) f(unsigned(i * 64 + __builtin_ctzll(x)));
    }
};

inline u64 mix64(u64 x) {
    x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32; x *= 0xd6e8feb86659fd93ull; x ^= x >> 32;
    return x;
}
struct H128 {
    u64 a = 0x9e3779b97f4a7c15ull, b = 0xc2b2ae3d27d4eb4full;
    void add(u64 v) { a = mix64(a ^ v) + 0x9e3779b97f4a7c15ull; b = (b ^ (v + 0x165667b19e3779f9ull)) * 0x9fb21c651e98df25ull; b ^= b >> 29; }
    bool operator==(const H128& o) const { return a == o.a && b == o.b; }
};
struct H128Hash { size_t operator()(const H128& h) const { return h.a ^ h.b; } };

enum class K : u8 {
    Const, Sym, Undef, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    ZExt, SExt, Extract, Concat, Ite, Eq, Ult, Ule, Slt, Sle, Tab,
    Var,   // placeholder argument of a function summary (never reaches the solver)
    Opaque // identity on a boolean; treated as one atom when splitting
};

struct Table { u64 v[256]; };

struct Expr {
    K k;
    u16 w;
    u32 id;
    bool undef = false;
    const Expr *a = nullptr, *b = nullptr, *c = nullptr;
    u128 val = 0;          // Const value / Extract offset / Sym index
    const Table* tabv = nullptr; // Tab only
    Set256 sup;
    int nsup = 0;          // 0,1,2 (2 = many)
    int sym1 = -1;         // symbol index if nsup==1
    const Expr* shape = nullptr; // same expression over symbol 0 (nsup==1)
    mutable const Table* tab = nullptr; // lazily computed, on shape only (w<=64)
    mutable Set256* truth = nullptr;    // lazily computed, on shape only (w==1)
    mutable bool verified = false;
    mutable const Expr* notOf = nullptr;
    bool isC() const { return k == K::Const; }
    u64 c64() const { return (u64)val; }
};
using E = const Expr*;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sgn(u128 v, unsigned w) {
    if (w >= 128) return (i128)v;
    u128 m = (u128)1 << (w - 1);
    v &= maskw(w);
    return (i128)((v ^ m) - m);
}

u128 evalOp(K k, unsigned w, u128 a, unsigned wa, u128 b, unsigned wb, u128 c, unsigned off);

E mkConst(u128 v, unsigned w);
E mkSym(unsigned i);
E mkUndef();
E mkBin(K k, E a, E b);
E mkCmp(K k, E a, E b); // Eq Ult Ule Slt Sle
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkExtract(E a, unsigned off, unsigned w);
E mkConcat(E hi, E lo);
E mkIte(E c, E a, E b);
E mkTab(unsigned sym, unsigned w, const Table& t);
E mkNot(E a);
E mkVar(unsigned w);
E mkOpaque(E a);
E substVar(E e, E arg);
const Table* tableOf(E e);      // e->nsup==1, w<=64
const Set256& truthOf(E e);     // e->nsup==1, w==1
u128 evalModel(E e, const std::vector<u8>& model);
size_t exprCount();
std::string exprStr(E e, int depth = 6);
