#include "expr.hpp"
#include <algorithm>

static std::deque<Expr> pool;
struct Key {
    K k; u16 w; E a, b, c; u128 val; const Table* t;
    bool operator==(const Key& o) const { return k == o.k && w == o.w && a == o.a && b == o.b && c == o.c && val == o.val && t == o.t; }
};
struct KeyHash {
    size_t operator()(const Key& k) const {
        u64 h = (u64)k.k * 1315423911u + k.w;
        auto m = [&](u64 v) { h = mix64(h ^ v) + 0x9e37; };
        m((u64)k.a); m((u64)k.b); m((u64)k.c); m((u64)k.val); m((u64)(k.val >> 64)); m((u64)k.t);
        return h;
    }
};
static std::unordered_map<Key, E, KeyHash> interned;
struct TabHash { size_t operator()(const Table& t) const { u64 h = 0; for (u64 v : t.v) h = mix64(h ^ v) + 0x9e37; return h; } };
struct TabEq { bool operator()(const Table& a, const Table& b) const { return !memcmp(&a, &b, sizeof a); } };
static std::unordered_set<Table, TabHash, TabEq> tables;

size_t exprCount() { return pool.size(); }

static E shapeOf(E e) { return e && e->nsup == 1 ? e->shape : e; }

static E intern(K k, unsigned w, E a, E b, E c, u128 val, const Table* t) {
    Key key { k, (u16)w, a, b, c, val, t };
    auto it = interned.find(key);
    if (it != interned.end()) return it->second;
    Expr e;
    e.k = k; e.w = w; e.a = a; e.b = b; e.c = c; e.val = val; e.tabv = t;
    e.id = pool.size();
    if (k == K::Sym || k == K::Tab) e.sup.add((unsigned)val);
    if (k == K::Undef) e.undef = true;
    if (k == K::Var) { e.sup.add(254); e.sup.add(255); }
    for (E x : { a, b, c }) if (x) { e.sup |= x->sup; e.undef |= x->undef; }
    int n = e.sup.count();
    e.nsup = n > 1 ? 2 : n;
    if (n == 1) e.sym1 = e.sup.first();
    pool.push_back(e);
    Expr* r = &pool.back();
    interned.emplace(key, r);
    if (n == 1) {
        if (r->sym1 == 0) r->shape = r;
        else {
            u128 v2 = (k == K::Sym || k == K::Tab) ? 0 : val;
            r->shape = intern(k, w, shapeOf(a), shapeOf(b), shapeOf(c), v2, t);
        }
    }
    return r;
}

u128 evalOp(K k, unsigned w, u128 a, unsigned wa, u128 b, unsigned wb, u128 c, unsigned off) {
    u128 m = maskw(w);
    switch (k) {
    case K::Add: return (a + b) & m;
    case K::Sub: return (a - b) & m;
    case K::Mul: return (a * b) & m;
    case K::UDiv: return b ? (a / b) & m : m;
    case K::URem: return b ? (a % b) & m : a;
    case K::SDiv: { i128 x = sgn(a, wa), y = sgn(b, wb); if (!y) return (x >= 0 ? m : 1); return (u128)(x / y) & m; }
    case K::SRem: { i128 x = sgn(a, wa), y = sgn(b, wb); if (!y) return a; return (u128)(x % y) & m; }
    case K::And: return a & b;
    case K::Or: return a | b;
    case K::Xor: return a ^ b;
    case K::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K::LShr: return b >= w ? 0 : (a >> (unsigned)b) & m;
    case K::AShr: { i128 x = sgn(a, wa); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case K::ZExt: return a;
    case K::SExt: return (u128)sgn(a, wa) & m;
    case K::Extract: return (a >> off) & m;
    case K::Concat: return ((a << wb) | b) & m;
    case K::Ite: return a ? b : c;
    case K::Opaque: return a;
    case K::Eq: return a == b;
    case K::Ult: return a < b;
    case K::Ule: return a <= b;
    case K::Slt: return sgn(a, wa) < sgn(b, wb);
    case K::Sle: return sgn(a, wa) <= sgn(b, wb);
    default: die("evalOp");
    }
}

static u128 ev(E e, u128 a, u128 b, u128 c) {
    return evalOp(e->k, e->w, a, e->a ? e->a->w : 0, b, e->b ? e->b->w : 0, c, (unsigned)e->val);
}

E mkConst(u128 v, unsigned w) { return intern(K::Const, w, 0, 0, 0, v & maskw(w), 0); }
E mkSym(unsigned i) { return intern(K::Sym, 8, 0, 0, 0, i, 0); }
E mkUndef() { return intern(K::Undef, 8, 0, 0, 0, 0, 0); }
E mkTab(unsigned sym, unsigned w, const Table& t) {
    bool same = true;
    for (int i = 1; i < 256; i++) if (t.v[i] != t.v[0]) { same = false; break; }
    if (same) return mkConst(t.v[0], w);
    const Table* p = &*tables.insert(t).first;
    return intern(K::Tab, w, 0, 0, 0, sym, p);
}
E mkNot(E a) {
    if (a->w != 1) die("mkNot");
    return mkBin(K::Xor, a, mkConst(1, 1));
}
static bool isNotOf(E a, E b) { // a == !b
    return (a->k == K::Xor && a->w == 1 && a->a == b && a->b->isC()) || (b->k == K::Xor && b->w == 1 && b->a == a && b->b->isC());
}

E mkVar(unsigned w) { return intern(K::Var, w, 0, 0, 0, 0, 0); }
E mkOpaque(E a) { return a->isC() || a->nsup == 1 ? a : intern(K::Opaque, a->w, a, 0, 0, 0, 0); }

static void parts(E e, std::vector<E>& out) { // LSB first
    if (e->k == K::Concat) { parts(e->b, out); parts(e->a, out); return; }
    if (e->k == K::ZExt) { parts(e->a, out); out.push_back(mkConst(0, e->w - e->a->w)); return; }
    out.push_back(e);
}
// bitwise operation (or an addition without carries) on concatenations, done piecewise
static E piecewise(K k, E a, E b) {
    std::vector<E> pa, pb;
    parts(a, pa); parts(b, pb);
    if ((pa.size() == 1 && !a->isC()) || (pb.size() == 1 && !b->isC())) return nullptr;
    if (pa.size() == 1 && pb.size() == 1) return nullptr;
    if (pa.size() > 16 || pb.size() > 16) return nullptr;
    std::vector<unsigned> cuts { 0 };
    unsigned p = 0; for (E e : pa) cuts.push_back(p += e->w);
    p = 0; for (E e : pb) cuts.push_back(p += e->w);
    std::sort(cuts.begin(), cuts.end());
    cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
    if (cuts.size() <= 2) return nullptr;
    std::vector<E> segs;
    for (size_t i = 0; i + 1 < cuts.size(); i++) {
        unsigned off = cuts[i], n = cuts[i + 1] - cuts[i];
        E x = mkExtract(a, off, n), y = mkExtract(b, off, n);
        if (k == K::Add) {
            if (x->isC() && x->val == 0) segs.push_back(y);
            else if (y->isC() && y->val == 0) segs.push_back(x);
            else return nullptr;
        } else segs.push_back(mkBin(k, x, y));
    }
    E r = segs.back();
    for (size_t i = segs.size() - 1; i-- > 0;) r = mkConcat(r, segs[i]);
    return r;
}

E mkBin(K k, E a, E b) {
    unsigned w = a->w;
    if (a->w != b->w) die("mkBin width");
    if (a->isC() && b->isC()) return mkConst(evalOp(k, w, a->val, w, b->val, w, 0, 0), w);
    bool comm = k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor;
    if (comm && (a->isC() || (!b->isC() && a->id > b->id))) std::swap(a, b);
    if (w == 1) {
        if (k == K::Add || k == K::Sub) return mkBin(K::Xor, a, b);
        if (k == K::Mul) return mkBin(K::And, a, b);
    }
    u128 m = maskw(w);
    switch (k) {
    case K::Add:
        if (b->isC()) {
            if (b->val == 0) return a;
            if (a->k == K::Add && a->b->isC()) return mkBin(K::Add, a->a, mkConst(a->b->val + b->val, w));
            if (a->k == K::Ite && a->b->isC() && a->c->isC()) return mkIte(a->a, mkConst(a->b->val + b->val, w), mkConst(a->c->val + b->val, w));
        }
        if (E r = piecewise(k, a, b)) return r;
        break;
    case K::Sub:
        if (b->isC()) return mkBin(K::Add, a, mkConst(0 - b->val, w));
        if (a == b) return mkConst(0, w);
        if (a->k == K::Add && a->b->isC() && a->a == b) return a->b;
        if (a->k == K::Add && b->k == K::Add && a->a == b->a && a->b->isC() && b->b->isC()) return mkConst(a->b->val - b->b->val, w);
        break;
    case K::Mul:
        if (b->isC()) {
            if (b->val == 0) return b;
            if (b->val == 1) return a;
            if (a->k == K::Mul && a->b->isC()) return mkBin(K::Mul, a->a, mkConst(a->b->val * b->val, w));
        }
        break;
    case K::UDiv: case K::SDiv:
        if (b->isC() && b->val == 1 && w > 1) return a;
        break;
    case K::And:
        if (a == b) return a;
        if (b->isC()) {
            if (b->val == 0) return b;
            if (b->val == m) return a;
            if (a->k == K::And && a->b->isC()) return mkBin(K::And, a->a, mkConst(a->b->val & b->val, w));
            if (a->k == K::ZExt) {
                u128 mi = maskw(a->a->w);
                if ((b->val & mi) == mi) return a;
                if ((b->val & mi) == 0) return mkConst(0, w);
                return mkZExt(mkBin(K::And, a->a, mkConst(b->val & mi, a->a->w)), w);
            }
            if (w > 1) { // at most three runs of ones: slice
                std::vector<std::pair<unsigned, unsigned>> runs;
                for (unsigned q = 0; q < w;) {
                    if (!((b->val >> q) & 1)) { q++; continue; }
                    unsigned n = 0; while (q + n < w && ((b->val >> (q + n)) & 1)) n++;
                    runs.push_back({ q, n });
                    q += n;
                }
                if (runs.size() <= 3) {
                    E r = nullptr; unsigned at = 0;
                    for (auto [q, n] : runs) {
                        if (q > at) r = r ? mkConcat(mkConst(0, q - at), r) : mkConst(0, q - at);
                        E x = mkExtract(a, q, n);
                        r = r ? mkConcat(x, r) : x;
                        at = q + n;
                    }
                    return mkZExt(r, w);
                }
            }
        }
        if (w == 1 && isNotOf(a, b)) return mkConst(0, 1);
        if (w > 1) if (E r = piecewise(k, a, b)) return r;
        break;
    case K::Or:
        if (a == b) return a;
        if (b->isC()) {
            if (b->val == 0) return a;
            if (b->val == m) return b;
            if (a->k == K::Or && a->b->isC()) return mkBin(K::Or, a->a, mkConst(a->b->val | b->val, w));
        }
        if (w == 1 && isNotOf(a, b)) return mkConst(1, 1);
        if (w > 1) if (E r = piecewise(k, a, b)) return r;
        break;
    case K::Xor:
        if (a == b) return mkConst(0, w);
        if (b->isC()) {
            if (b->val == 0) return a;
            if (a->k == K::Xor && a->b->isC()) return mkBin(K::Xor, a->a, mkConst(a->b->val ^ b->val, w));
        }
        if (w > 1) if (E r = piecewise(k, a, b)) return r;
        break;
    case K::Shl: case K::LShr: case K::AShr:
        if (b->isC()) {
            if (b->val == 0) return a;
            if (b->val >= w && k != K::AShr) return mkConst(0, w);
            if (b->val < w) {
                unsigned c = (unsigned)b->val;
                if (k == K::Shl) return mkConcat(mkExtract(a, 0, w - c), mkConst(0, c));
                E x = mkExtract(a, c, w - c);
                return k == K::LShr ? mkZExt(x, w) : mkSExt(x, w);
            }
        }
        if (a->isC() && a->val == 0) return a;
        break;
    default: break;
    }
    return intern(k, w, a, b, 0, 0, 0);
}

E mkZExt(E a, unsigned w) {
    if (a->w == w) return a;
    if (a->w > w) die("zext");
    if (a->isC()) return mkConst(a->val, w);
    if (a->k == K::ZExt) return mkZExt(a->a, w);
    if (a->k == K::Ite && a->b->isC() && a->c->isC()) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
    return intern(K::ZExt, w, a, 0, 0, 0, 0);
}
E mkSExt(E a, unsigned w) {
    if (a->w == w) return a;
    if (a->isC()) return mkConst((u128)sgn(a->val, a->w), w);
    if (a->k == K::ZExt) return mkZExt(a->a, w);
    if (a->k == K::Ite && a->b->isC() && a->c->isC()) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
    if (a->w == 1) return mkIte(a, mkConst(~(u128)0, w), mkConst(0, w));
    if (a->k == K::Concat) return mkConcat(mkSExt(a->a, w - a->b->w), a->b);
    return intern(K::SExt, w, a, 0, 0, 0, 0);
}
E mkExtract(E a, unsigned off, unsigned w) {
    if (off == 0 && w == a->w) return a;
    if (off + w > a->w) die("extract");
    if (a->isC()) return mkConst(a->val >> off, w);
    switch (a->k) {
    case K::ZExt:
        if (off >= a->a->w) return mkConst(0, w);
        if (off + w <= a->a->w) return mkExtract(a->a, off, w);
        if (off == 0) return mkZExt(a->a, w);
        return mkZExt(mkExtract(a->a, off, a->a->w - off), w);
    case K::SExt:
        if (off + w <= a->a->w) return mkExtract(a->a, off, w);
        if (off == 0 && w > a->a->w) return mkSExt(a->a, w);
        break;
    case K::Extract: return mkExtract(a->a, (unsigned)a->val + off, w);
    case K::Concat:
        if (off >= a->b->w) return mkExtract(a->a, off - a->b->w, w);
        if (off + w <= a->b->w) return mkExtract(a->b, off, w);
        return mkConcat(mkExtract(a->a, 0, off + w - a->b->w), mkExtract(a->b, off, a->b->w - off));
    case K::Ite:
        if (a->b->isC() && a->c->isC()) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w));
        break;
    case K::And: case K::Or: case K::Xor:
        if (w == 1) return mkBin(a->k, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
        break;
    case K::Add: case K::Sub: case K::Mul:
        if (off == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
        break;
    case K::LShr:
        if (a->b->isC() && off + (unsigned)a->b->val + w <= a->w) return mkExtract(a->a, off + (unsigned)a->b->val, w);
        break;
    case K::Shl:
        if (a->b->isC()) {
            unsigned s = (unsigned)a->b->val;
            if (off >= s) return mkExtract(a->a, off - s, w);
            if (off + w <= s) return mkConst(0, w);
        }
        break;
    default: break;
    }
    return intern(K::Extract, w, a, 0, 0, off, 0);
}
// merge two adjacent pieces into one if possible
static E mergeAdj(E hi, E lo) {
    if (hi->isC() && lo->isC()) return mkConst((hi->val << lo->w) | lo->val, hi->w + lo->w);
    if (hi->k == K::Extract && lo->k == K::Extract && hi->a == lo->a && hi->val == lo->val + lo->w) return mkExtract(hi->a, (unsigned)lo->val, hi->w + lo->w);
    if (hi->k == K::Extract && hi->val == lo->w && lo->k != K::Extract && mkExtract(hi->a, 0, lo->w) == lo) return mkExtract(hi->a, 0, hi->w + lo->w);
    if (hi->k == K::Ite && lo->k == K::Ite && hi->a == lo->a && hi->b->isC() && hi->c->isC() && lo->b->isC() && lo->c->isC())
        return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
    return nullptr;
}
E mkConcat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (w > 128) die("concat width");
    if (hi->isC() && lo->isC()) return mkConst((hi->val << lo->w) | lo->val, w);
    if (hi->isC() && hi->val == 0) return mkZExt(lo, w);
    if (hi->k == K::Concat) return mkConcat(hi->a, mkConcat(hi->b, lo));
    if (hi->k == K::ZExt) return mkZExt(mkConcat(hi->a, lo), w);
    if (lo->k == K::ZExt) return mkConcat(hi, intern(K::Concat, lo->w, mkConst(0, lo->w - lo->a->w), lo->a, 0, 0, 0));
    if (lo->k == K::Concat) {
        if (E m = mergeAdj(hi, lo->a)) return mkConcat(m, lo->b);
    } else if (E m = mergeAdj(hi, lo)) return m;
    return intern(K::Concat, w, hi, lo, 0, 0, 0);
}
E mkIte(E c, E a, E b) {
    if (a->w != b->w) die("ite width");
    if (c->isC()) return c->val ? a : b;
    if (a == b) return a;
    if (c->k == K::Xor && c->w == 1 && c->b->isC()) return mkIte(c->a, b, a);
    if (a->w == 1) {
        if (a->isC() && b->isC()) return a->val ? c : mkNot(c);
        if (a->isC()) return a->val ? mkBin(K::Or, c, b) : mkBin(K::And, mkNot(c), b);
        if (b->isC()) return b->val ? mkBin(K::Or, mkNot(c), a) : mkBin(K::And, c, a);
    }
    return intern(K::Ite, a->w, c, a, b, 0, 0);
}

E mkCmp(K k, E a, E b) {
    unsigned w = a->w;
    if (a->w != b->w) die("mkCmp width");
    if (a->isC() && b->isC()) return mkConst(evalOp(k, w, a->val, w, b->val, w, 0, 0), 1);
    if (a == b) return mkConst(k == K::Eq || k == K::Ule || k == K::Sle, 1);
    u128 m = maskw(w);
    if (k == K::Eq) {
        if (a->isC() || (!b->isC() && a->id > b->id)) std::swap(a, b);
        if (w == 1) return mkNot(mkBin(K::Xor, a, b));
        if (b->isC()) {
            switch (a->k) {
            case K::ZExt:
                if (b->val > maskw(a->a->w)) return mkConst(0, 1);
                return mkCmp(K::Eq, a->a, mkConst(b->val, a->a->w));
            case K::SExt:
                if (((u128)sgn(b->val, a->a->w) & m) != b->val) return mkConst(0, 1);
                return mkCmp(K::Eq, a->a, mkConst(b->val, a->a->w));
            case K::Add: if (a->b->isC()) return mkCmp(K::Eq, a->a, mkConst(b->val - a->b->val, w)); break;
            case K::Xor: if (a->b->isC()) return mkCmp(K::Eq, a->a, mkConst(b->val ^ a->b->val, w)); break;
            case K::Concat:
                return mkBin(K::And, mkCmp(K::Eq, a->a, mkConst(b->val >> a->b->w, a->a->w)), mkCmp(K::Eq, a->b, mkConst(b->val, a->b->w)));
            case K::Ite:
                if (a->b->isC() && a->c->isC()) {
                    bool x = a->b->val == b->val, y = a->c->val == b->val;
                    return x ? (y ? mkConst(1, 1) : a->a) : (y ? mkNot(a->a) : mkConst(0, 1));
                }
                if (a->b->isC() && a->b->val != b->val) return mkBin(K::And, mkNot(a->a), mkCmp(K::Eq, a->c, b));
                if (a->c->isC() && a->c->val != b->val) return mkBin(K::And, a->a, mkCmp(K::Eq, a->b, b));
                if (a->b->isC()) return mkBin(K::Or, a->a, mkCmp(K::Eq, a->c, b));
                if (a->c->isC()) return mkBin(K::Or, mkNot(a->a), mkCmp(K::Eq, a->b, b));
                break;
            default: break;
            }
        } else {
            if (a->k == K::ZExt && b->k == K::ZExt) {
                unsigned wi = std::max(a->a->w, b->a->w);
                if (wi < w) return mkCmp(K::Eq, mkZExt(a->a, wi), mkZExt(b->a, wi));
            }
            if (a->k == K::Concat || b->k == K::Concat) {
                unsigned lw = a->k == K::Concat ? (b->k == K::Concat ? std::min(a->b->w, b->b->w) : a->b->w) : b->b->w;
                E la = mkExtract(a, 0, lw), lb = mkExtract(b, 0, lw), ha = mkExtract(a, lw, w - lw), hb = mkExtract(b, lw, w - lw);
                if (a->k == K::Concat && b->k == K::Concat) return mkBin(K::And, mkCmp(K::Eq, ha, hb), mkCmp(K::Eq, la, lb));
            }
        }
    } else if (k == K::Ult) {
        if (b->isC() && a->k == K::Concat) {
            unsigned lw = a->b->w;
            E ch = mkConst(b->val >> lw, w - lw), cl = mkConst(b->val, lw);
            E lt = mkCmp(K::Ult, a->a, ch);
            if (cl->val == 0) return lt;
            return mkBin(K::Or, lt, mkBin(K::And, mkCmp(K::Eq, a->a, ch), mkCmp(K::Ult, a->b, cl)));
        }
        if (b->isC() && b->val && a->k == K::Add && a->b->isC() && (a->a->k == K::Concat || a->a->k == K::ZExt || a->a->k == K::Var)) {
            u128 lo = (0 - a->b->val) & m, n = b->val;
            E x = a->a;
            if (lo + n <= m + (w < 128 ? 1 : 0) && (lo + n) >= lo) { // [lo, lo+n)
                E up = lo + n == m + 1 ? mkConst(1, 1) : mkCmp(K::Ult, x, mkConst(lo + n, w));
                return mkBin(K::And, mkNot(mkCmp(K::Ult, x, mkConst(lo, w))), up);
            }
            return mkBin(K::Or, mkNot(mkCmp(K::Ult, x, mkConst(lo, w))), mkCmp(K::Ult, x, mkConst((lo + n) & m, w)));
        }
        if (b->isC()) {
            if (b->val == 0) return mkConst(0, 1);
            if (b->val == 1) return mkCmp(K::Eq, a, mkConst(0, w));
            if (a->k == K::ZExt) {
                if (b->val > maskw(a->a->w)) return mkConst(1, 1);
                return mkCmp(K::Ult, a->a, mkConst(b->val, a->a->w));
            }
            if (a->k == K::Ite && a->b->isC() && a->c->isC()) return mkIte(a->a, mkCmp(k, a->b, b), mkCmp(k, a->c, b));
        }
        if (a->isC()) {
            if (a->val == m) return mkConst(0, 1);
            if (a->val == 0) return mkNot(mkCmp(K::Eq, b, a));
            // c < b  <=> !(b <= c) <=> !(b < c+1)
            return mkNot(mkCmp(K::Ult, b, mkConst(a->val + 1, w)));
        }
        if (a->k == K::ZExt && b->k == K::ZExt) {
            unsigned wi = std::max(a->a->w, b->a->w);
            if (wi < w) return mkCmp(k, mkZExt(a->a, wi), mkZExt(b->a, wi));
        }
    } else if (k == K::Ule) {
        return mkNot(mkCmp(K::Ult, b, a));
    } else if (k == K::Slt || k == K::Sle) {
        if (k == K::Sle) return mkNot(mkCmp(K::Slt, b, a));
        auto sign = [&](E e) -> int { // 0, 1 or -1 (unknown)
            for (;;) {
                if (e->isC()) return (int)(e->val >> (e->w - 1)) & 1;
                if (e->k == K::ZExt) return 0;
                if (e->k == K::Concat) { e = e->a; continue; }
                return -1;
            }
        };
        int sa = sign(a), sb = sign(b);
        if (sa >= 0 && sb >= 0) return sa == sb ? mkCmp(K::Ult, a, b) : mkConst(sa, 1);
        if (b->isC() && a->k == K::Ite && a->b->isC() && a->c->isC()) return mkIte(a->a, mkCmp(k, a->b, b), mkCmp(k, a->c, b));
        if (a->isC() && b->k == K::Ite && b->b->isC() && b->c->isC()) return mkIte(b->a, mkCmp(k, a, b->b), mkCmp(k, a, b->c));
    }
    return intern(k, 1, a, b, 0, 0, 0);
}

const Table* tableOf(E e0) {
    E e = e0->shape;
    if (e->tab) return e->tab;
    if (e->w > 64) die("tableOf width");
    Table* t = new Table;
    if (e->k == K::Sym) { for (int i = 0; i < 256; i++) t->v[i] = i; }
    else if (e->k == K::Tab) *t = *e->tabv;
    else {
        auto get = [&](E x, int i) -> u128 {
            if (!x) return 0;
            if (x->nsup == 0) return x->val;
            if (x->w > 64) { std::vector<u8> m(1, i); return evalModel(x, m); }
            return tableOf(x)->v[i];
        };
        for (int i = 0; i < 256; i++) t->v[i] = (u64)ev(e, get(e->a, i), get(e->b, i), get(e->c, i));
    }
    e->tab = t;
    return t;
}
const Set256& truthOf(E e0) {
    E e = e0->shape;
    if (e->truth) return *e->truth;
    const Table* t = tableOf(e);
    Set256* s = new Set256;
    for (int i = 0; i < 256; i++) if (t->v[i] & 1) s->add(i);
    e->truth = s;
    return *s;
}

static E substRec(E e, E arg, std::unordered_map<E, E>& memo) {
    if (e->k == K::Var) return arg;
    if (!e->sup.has(255)) return e;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    E a = e->a ? substRec(e->a, arg, memo) : 0, b = e->b ? substRec(e->b, arg, memo) : 0, c = e->c ? substRec(e->c, arg, memo) : 0;
    E r;
    switch (e->k) {
    case K::ZExt: r = mkZExt(a, e->w); break;
    case K::SExt: r = mkSExt(a, e->w); break;
    case K::Extract: r = mkExtract(a, (unsigned)e->val, e->w); break;
    case K::Concat: r = mkConcat(a, b); break;
    case K::Ite: r = mkIte(a, b, c); break;
    case K::Eq: case K::Ult: case K::Ule: case K::Slt: case K::Sle: r = mkCmp(e->k, a, b); break;
    case K::Opaque: r = mkOpaque(a); break;
    default: r = mkBin(e->k, a, b); break;
    }
    memo.emplace(e, r);
    return r;
}
E substVar(E e, E arg) { std::unordered_map<E, E> memo; return substRec(e, arg, memo); }

static u128 evalRec(E e, const std::vector<u8>& m, std::unordered_map<E, u128>& memo) {
    switch (e->k) {
    case K::Const: return e->val;
    case K::Sym: return (size_t)e->val < m.size() ? m[(size_t)e->val] : 0;
    case K::Undef: return 0;
    case K::Tab: return e->tabv->v[(size_t)e->val < m.size() ? m[(size_t)e->val] : 0];
    default: break;
    }
    if (e->nsup == 1 && e->w <= 64 && (e->shape->tab || e->shape->w <= 64)) {
        size_t i = e->sym1;
        if (e->shape->tab) return e->shape->tab->v[i < m.size() ? m[i] : 0];
    }
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    u128 r;
    if (e->k == K::Ite) r = evalRec(e->a, m, memo) ? evalRec(e->b, m, memo) : evalRec(e->c, m, memo);
    else r = ev(e, evalRec(e->a, m, memo), e->b ? evalRec(e->b, m, memo) : 0, 0);
    memo.emplace(e, r);
    return r;
}
u128 evalModel(E e, const std::vector<u8>& m) {
    if (e->isC()) return e->val;
    std::unordered_map<E, u128> memo;
    return evalRec(e, m, memo);
}

std::string exprStr(E e, int d) {
    static const char* n[] = { "const", "sym", "undef", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "zext", "sext", "extract", "concat", "ite", "eq", "ult", "ule", "slt", "sle", "tab", "var", "opaque" };
    if (e->k == K::Const) return std::to_string((i64)(u64)e->val) + ":" + std::to_string(e->w);
    if (e->k == K::Sym) return "b" + std::to_string((u64)e->val);
    if (d == 0) return "...";
    std::string s = "(" + std::string(n[(int)e->k]);
    if (e->k == K::Tab) s += " b" + std::to_string((u64)e->val);
    if (e->k == K::Extract) s += "[" + std::to_string((u64)e->val) + "+" + std::to_string(e->w) + "]";
    for (E x : { e->a, e->b, e->c }) if (x) s += " " + exprStr(x, d - 1);
    return s + ")";
}
