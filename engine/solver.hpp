// SMT layer: slices path constraints and discharges them with z3.
#pragma once
#include "expr.hpp"
#include <chrono>
#include <map>
#include <z3++.h>

struct SolverStats {
    u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, tableObligations = 0, tableQueries = 0;
    double time = 0;
};

struct Solver {
    z3::context ctx;
    SolverStats st;
    unsigned timeoutMs = 30000;
    std::vector<Z3_ast> trans; // by expr id
    struct DomHash { size_t operator()(const Set256& s) const { u64 h = 0; for (u64 x : s.w) h = mix64(h ^ x) + 0x9e37; return h; } };
    std::unordered_map<Set256, u32, DomHash> domIds;
    std::vector<Set256> doms;
    struct CacheRes { int sat; std::vector<std::pair<u8, u8>> model; };
    std::unordered_map<H128, CacheRes, H128Hash> cache;
    std::vector<E> pendingTables; // shapes whose truth table must be confirmed

    u32 domId(const Set256& d) {
        auto it = domIds.find(d);
        if (it != domIds.end()) return it->second;
        u32 id = doms.size();
        doms.push_back(d);
        domIds.emplace(d, id);
        return id;
    }
    z3::expr symVar(unsigned i) { return ctx.bv_const(("b" + std::to_string(i)).c_str(), 8); }

    z3::expr member(const z3::expr& v, const Set256& d) {
        if (d == Set256::full()) return ctx.bool_val(true);
        z3::expr_vector alts(ctx);
        for (int i = 0; i < 256;) {
            if (!d.has(i)) { i++; continue; }
            int j = i;
            while (j + 1 < 256 && d.has(j + 1)) j++;
            if (i == j) alts.push_back(v == ctx.bv_val(i, 8));
            else if (i == 0) alts.push_back(z3::ule(v, ctx.bv_val(j, 8)));
            else if (j == 255) alts.push_back(z3::uge(v, ctx.bv_val(i, 8)));
            else alts.push_back(z3::uge(v, ctx.bv_val(i, 8)) && z3::ule(v, ctx.bv_val(j, 8)));
            i = j + 1;
        }
        if (alts.empty()) return ctx.bool_val(false);
        return z3::mk_or(alts);
    }
    z3::expr toBv(const z3::expr& e) { return e.is_bool() ? z3::ite(e, ctx.bv_val(1, 1), ctx.bv_val(0, 1)) : e; }
    z3::expr bvc(u128 v, unsigned w) {
        if (w <= 64) return ctx.bv_val((uint64_t)v, w);
        return z3::concat(ctx.bv_val((uint64_t)(v >> 64), w - 64), ctx.bv_val((uint64_t)v, 64));
    }
    z3::expr tabExpr(const z3::expr& v, const Table& t, unsigned w) {
        // group equal values
        std::map<u64, Set256> g;
        for (int i = 0; i < 256; i++) g[t.v[i]].add(i);
        const Set256* big = nullptr; u64 bigv = 0; int bc = -1;
        for (auto& [val, s] : g) if (s.count() > bc) { bc = s.count(); big = &s; bigv = val; }
        z3::expr r = w == 1 ? ctx.bool_val(bigv & 1) : bvc(bigv, w);
        for (auto& [val, s] : g) if (&s != big) r = z3::ite(member(v, s), w == 1 ? ctx.bool_val(val & 1) : bvc(val, w), r);
        return r;
    }
    z3::expr tr(E e) {
        if (trans.size() <= e->id) trans.resize(std::max<size_t>(exprCount(), e->id + 1), nullptr);
        if (trans[e->id]) return z3::expr(ctx, trans[e->id]);
        z3::expr r = tr0(e);
        if (trans.size() <= e->id) trans.resize(exprCount(), nullptr);
        Z3_inc_ref(ctx, r);
        trans[e->id] = r;
        return r;
    }
    z3::expr tr0(E e) {
        unsigned w = e->w;
        switch (e->k) {
        case K::Const: return w == 1 ? ctx.bool_val(e->val != 0) : bvc(e->val, w);
        case K::Sym: return symVar((unsigned)e->val);
        case K::Undef: die("undef in solver");
        case K::Var: die("summary variable in solver");
        case K::Tab: return tabExpr(symVar((unsigned)e->val), *e->tabv, w);
        default: break;
        }
        z3::expr a = tr(e->a);
        if (e->k == K::Opaque) return a;
        if (e->k == K::Ite) return z3::ite(a, tr(e->b), tr(e->c));
        if (e->k == K::ZExt) { a = toBv(a); return z3::zext(a, w - e->a->w); }
        if (e->k == K::SExt) { a = toBv(a); return z3::sext(a, w - e->a->w); }
        if (e->k == K::Extract) {
            a = toBv(a);
            z3::expr r = a.extract((unsigned)e->val + w - 1, (unsigned)e->val);
            return w == 1 ? r == ctx.bv_val(1, 1) : r;
        }
        z3::expr b = tr(e->b);
        if (e->k == K::Concat) return z3::concat(toBv(a), toBv(b));
        if (w == 1 && (e->k == K::And || e->k == K::Or || e->k == K::Xor)) {
            if (e->k == K::And) return a && b;
            if (e->k == K::Or) return a || b;
            if (e->b->isC()) return e->b->val ? !a : a;
            return z3::expr(ctx, Z3_mk_xor(ctx, a, b));
        }
        if (e->k == K::Eq) return a == b;
        a = toBv(a); b = toBv(b);
        switch (e->k) {
        case K::Add: return fix(a + b, w);
        case K::Sub: return fix(a - b, w);
        case K::Mul: return fix(a * b, w);
        case K::UDiv: return fix(z3::udiv(a, b), w);
        case K::SDiv: return fix(a / b, w);
        case K::URem: return fix(z3::urem(a, b), w);
        case K::SRem: return fix(z3::srem(a, b), w);
        case K::And: return fix(a & b, w);
        case K::Or: return fix(a | b, w);
        case K::Xor: return fix(a ^ b, w);
        case K::Shl: return fix(z3::shl(a, b), w);
        case K::LShr: return fix(z3::lshr(a, b), w);
        case K::AShr: return fix(z3::ashr(a, b), w);
        case K::Ult: return z3::ult(a, b);
        case K::Ule: return z3::ule(a, b);
        case K::Slt: return z3::slt(a, b);
        case K::Sle: return z3::sle(a, b);
        default: die("tr0");
        }
    }
    z3::expr fix(const z3::expr& e, unsigned w) { return w == 1 ? e == ctx.bv_val(1, 1) : e; }

    // 1 sat, 0 unsat, -1 unknown
    int check(const std::vector<E>& cs, const std::vector<Set256>& dom, std::vector<u8>* model) {
        Set256 sup;
        std::vector<u32> ids;
        for (E c : cs) { sup |= c->sup; ids.push_back(c->id); }
        std::sort(ids.begin(), ids.end());
        H128 h;
        for (u32 i : ids) h.add(i);
        sup.each([&](unsigned i) { h.add((u64)i << 32 | domId(dom[i])); });
        auto it = cache.find(h);
        if (it != cache.end()) {
            st.cacheHits++;
            if (it->second.sat == 1 && model) for (auto [i, v] : it->second.model) (*model)[i] = v;
            return it->second.sat;
        }
        auto t0 = std::chrono::steady_clock::now();
        z3::solver s(ctx, "QF_BV");
        z3::params p(ctx);
        p.set("timeout", timeoutMs);
        s.set(p);
        for (E c : cs) s.add(tr(c));
        sup.each([&](unsigned i) { if (!(dom[i] == Set256::full())) s.add(member(symVar(i), dom[i])); });
        z3::check_result r = s.check();
        st.queries++;
        CacheRes cr;
        cr.sat = r == z3::sat ? 1 : r == z3::unsat ? 0 : -1;
        if (r == z3::sat) {
            st.sat++;
            z3::model m = s.get_model();
            sup.each([&](unsigned i) {
                u8 v = (u8)m.eval(symVar(i), true).get_numeral_uint64();
                cr.model.push_back({ (u8)i, v });
            });
        } else if (r == z3::unsat) st.unsat++;
        else st.unknown++;
        st.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (cr.sat >= 0) cache.emplace(h, cr);
        if (cr.sat == 1 && model) for (auto [i, v] : cr.model) (*model)[i] = v;
        return cr.sat;
    }

    // Every truth table used for a single-byte decision is confirmed by the solver against the
    // expression it summarises.
    void noteTable(E e) {
        E sh = e->shape;
        if (sh->verified) return;
        sh->verified = true;
        if (sh->k == K::Sym || sh->k == K::Tab || sh->k == K::Const) return;
        pendingTables.push_back(sh);
        if (pendingTables.size() >= 64) flushTables();
    }
    void flushTables() {
        if (pendingTables.empty()) return;
        auto t0 = std::chrono::steady_clock::now();
        z3::expr_vector diffs(ctx);
        for (E e : pendingTables) {
            z3::expr x = tr(e);
            if (e->w == 1) diffs.push_back(x != member(symVar(0), truthOf(e)));
            else diffs.push_back(x != tabExpr(symVar(0), *tableOf(e), e->w));
        }
        z3::solver s(ctx, "QF_BV");
        s.add(z3::mk_or(diffs));
        z3::check_result r = s.check();
        st.queries++; st.tableQueries++;
        st.tableObligations += pendingTables.size();
        if (r != z3::unsat) {
            for (E e : pendingTables) fprintf(stderr, "table? %s\n", exprStr(e).c_str());
            die("truth table not confirmed by solver");
        }
        st.unsat++;
        st.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        pendingTables.clear();
    }
};
