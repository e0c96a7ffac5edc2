// Hash-consed bit-vector expressions with local simplification, plus the Z3 bridge.
#pragma once
#include "ir.hpp"
#include <z3.h>
#include <chrono>
#include <algorithm>

enum class X : u8 { Const, Var, Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr, And, Or, Xor, Eq, Ult, Ule, Slt, Sle, Ite, ZExt, SExt, Extract, Concat };

struct Expr {
    X op; bool taint = false;       // taint: depends on uninitialised bytes
    unsigned w; unsigned lo = 0;    // lo: extract offset / var index
    Expr *a = nullptr, *b = nullptr, *c = nullptr;
    u128 v = 0;                     // constant
    u128 kz = 0;                    // bits known to be zero
    Z3_ast z = nullptr, zb = nullptr, lit = nullptr;
    u64 epoch = 0; u128 ev = 0;
    std::vector<std::vector<Expr*>> cores; // sets of path constraints that make this expression false
    u64 kpath = 0; bool kval = false; // known truth value on the current path
};

struct EKey { X op; unsigned w, lo; Expr *a, *b, *c; u128 v; bool operator==(const EKey& o) const { return op == o.op && w == o.w && lo == o.lo && a == o.a && b == o.b && c == o.c && v == o.v; } };
struct EHash { size_t operator()(const EKey& k) const { u64 h = (u64)k.op * 0x9E3779B97F4A7C15ull + k.w * 1000003 + k.lo * 7919; auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); }; mix((u64)k.a); mix((u64)k.b); mix((u64)k.c); mix((u64)k.v); mix((u64)(k.v >> 64)); return h; } };

struct Pool {
    std::unordered_map<EKey, Expr*, EHash> tab;
    std::vector<Expr*> all;
    u64 epoch = 0;
    Z3_context ctx = nullptr;
    ~Pool() { for (auto* e : all) delete e; }

    static i128 sx(u128 v, unsigned w) { return w >= 128 ? (i128)v : (i128)(v << (128 - w)) >> (128 - w); }
    Expr* raw(X op, unsigned w, Expr* a = nullptr, Expr* b = nullptr, Expr* c = nullptr, unsigned lo = 0, u128 v = 0) {
        EKey k{op, w, lo, a, b, c, v};
        auto it = tab.find(k); if (it != tab.end()) return it->second;
        auto* e = new Expr(); e->op = op; e->w = w; e->a = a; e->b = b; e->c = c; e->lo = lo; e->v = v;
        e->taint = (a && a->taint) || (b && b->taint) || (c && c->taint);
        u128 m = maskw(w);
        switch (op) {
        case X::Const: e->kz = ~v & m; break;
        case X::And: e->kz = a->kz | b->kz; break;
        case X::Or: case X::Xor: e->kz = a->kz & b->kz; break;
        case X::ZExt: e->kz = a->kz | (m & ~maskw(a->w)); break;
        case X::Extract: e->kz = (a->kz >> lo) & m; break;
        case X::Concat: e->kz = b->kz | (a->kz << b->w); break;
        case X::Ite: e->kz = b->kz & c->kz; break;
        case X::Shl: if (b->op == X::Const && b->v < w) e->kz = ((a->kz << (unsigned)b->v) | maskw((unsigned)b->v)) & m; break;
        case X::LShr: if (b->op == X::Const && b->v < w) e->kz = ((a->kz & m) >> (unsigned)b->v) | (m & ~(m >> (unsigned)b->v)); else { u128 hi = lead(a->kz, w); e->kz = hi; } break;
        case X::Add: { u128 mx = umax(a) + umax(b); if (w < 127 && mx <= m) e->kz = m & ~fill(mx); break; }
        case X::Mul: { if (w <= 60) { u128 mx = umax(a) * umax(b); if (mx <= m) e->kz = m & ~fill(mx); } break; }
        case X::UDiv: e->kz = m & ~fill(umax(a)); if (!(b->op == X::Const && b->v)) e->kz = 0; break;
        case X::URem: if (b->op == X::Const && b->v) e->kz = m & ~fill(b->v - 1); break;
        default: break;
        }
        tab[k] = e; all.push_back(e); return e;
    }
    static u128 fill(u128 v) { for (int i = 1; i < 128; i *= 2) v |= v >> i; return v; }
    static u128 lead(u128 kz, unsigned w) { u128 r = 0; for (int i = w - 1; i >= 0 && ((kz >> i) & 1); i--) r |= (u128)1 << i; return r; }
    static u128 umax(Expr* e) { return maskw(e->w) & ~e->kz; }
    static u128 umin(Expr* e) { return e->op == X::Const ? e->v : 0; }
    Expr* k(unsigned w, u128 v) { return raw(X::Const, w, nullptr, nullptr, nullptr, 0, v & maskw(w)); }
    Expr* var(unsigned w, unsigned idx, bool undef) { Expr* e = raw(X::Var, w, nullptr, nullptr, nullptr, idx, undef ? 1 : 0); if (undef) e->taint = true; return e; }
    bool isk(Expr* e) { return e->op == X::Const; }

    static u128 fold(X op, unsigned w, u128 a, u128 b, unsigned aw) {
        u128 m = maskw(aw);
        switch (op) {
        case X::Add: return (a + b) & m; case X::Sub: return (a - b) & m; case X::Mul: return (a * b) & m;
        case X::UDiv: return b ? a / b : m; case X::URem: return b ? a % b : a;
        case X::SDiv: { if (!b) return 0; i128 x = sx(a, aw), y = sx(b, aw); if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
        case X::SRem: { if (!b) return a; i128 x = sx(a, aw), y = sx(b, aw); if (y == -1) return 0; return (u128)(x % y) & m; }
        case X::Shl: return b >= aw ? 0 : (a << (unsigned)b) & m; case X::LShr: return b >= aw ? 0 : a >> (unsigned)b;
        case X::AShr: { i128 x = sx(a, aw); return (u128)(x >> (b >= aw ? aw - 1 : (unsigned)b)) & m; }
        case X::And: return a & b; case X::Or: return a | b; case X::Xor: return a ^ b;
        case X::Eq: return a == b; case X::Ult: return a < b; case X::Ule: return a <= b;
        case X::Slt: return sx(a, aw) < sx(b, aw); case X::Sle: return sx(a, aw) <= sx(b, aw);
        default: return 0;
        }
    }
    Expr* nt(Expr* e) { return bin(X::Xor, e, k(1, 1)); }
    static bool cmp(X o) { return o == X::Eq || o == X::Ult || o == X::Ule || o == X::Slt || o == X::Sle; }
    Expr* bin(X op, Expr* a, Expr* b) {
        unsigned w = a->w, rw = cmp(op) ? 1 : w; u128 m = maskw(w);
        if (isk(a) && isk(b)) return k(rw, fold(op, rw, a->v, b->v, w));
        bool comm = op == X::Add || op == X::Mul || op == X::And || op == X::Or || op == X::Xor || op == X::Eq;
        if (comm && (isk(a) || (!isk(b) && a > b))) { if (!isk(b)) std::swap(a, b); }
        switch (op) {
        case X::Add: if (Expr* r = join(a, b)) return r; if (isk(b)) { if (!b->v) return a; if (a->op == X::Add && isk(a->b)) return bin(X::Add, a->a, k(w, a->b->v + b->v)); } break;
        case X::Sub: if (isk(b)) return bin(X::Add, a, k(w, (u128)0 - b->v)); if (a == b) return k(w, 0); break;
        case X::Mul: if (isk(b)) { if (!b->v) return b; if (b->v == 1) return a; } break;
        case X::And: if (isk(b)) { if (!b->v) return b; if ((~b->v & m & ~a->kz) == 0) return a; if ((b->v & ~a->kz) == 0) return k(w, 0); if (a->op == X::And && isk(a->b)) return bin(X::And, a->a, k(w, a->b->v & b->v)); } if (a == b) return a; if (((~a->kz & m) & (~b->kz & m)) == 0) return k(w, 0);
            if (w == 1) { if (a == notOf(b)) return k(1, 0); }
            if (isk(b) && w > 1) { unsigned lo = 0, hi = w; u128 nz = b->v & ~a->kz; while (!(nz >> lo & 1)) lo++; while (!(nz >> (hi - 1) & 1)) hi--; u128 mid = maskw(hi - lo) << lo; if (((~b->v & mid) & ~a->kz) == 0 && (lo || hi < w)) return zext(lo ? concat(extract(a, lo, hi - lo), k(lo, 0)) : extract(a, 0, hi), w); }
            break;
        case X::Or: if (Expr* r = join(a, b)) return r; if (isk(b)) { if (!b->v) return a; if (b->v == m) return b; } if (a == b) return a; if (w == 1 && a == notOf(b)) return k(1, 1); break;
        case X::Xor: if (Expr* r = join(a, b)) return r; if (isk(b)) { if (!b->v) return a; if (a->op == X::Xor && isk(a->b)) return bin(X::Xor, a->a, k(w, a->b->v ^ b->v)); } if (a == b) return k(w, 0); break;
        case X::Shl: case X::LShr: if (isk(b)) { if (!b->v) return a; if (b->v >= w) return k(w, 0); unsigned s = (unsigned)b->v; return op == X::Shl ? concat(extract(a, 0, w - s), k(s, 0)) : zext(extract(a, s, w - s), w); } if (isk(a) && !a->v) return a; break;
        case X::AShr: if (isk(b) && !b->v) return a; break;
        case X::UDiv: if (isk(b) && b->v == 1) return a; if (isk(b) && b->v && !(b->v & (b->v - 1))) { unsigned s = 0; while (((b->v >> s) & 1) == 0) s++; return bin(X::LShr, a, k(w, s)); } break;
        case X::URem: if (isk(b) && b->v && !(b->v & (b->v - 1))) return bin(X::And, a, k(w, b->v - 1)); break;
        case X::Eq:
            if (a == b) return k(1, 1);
            if (isk(b)) {
                if (b->v & a->kz) return k(1, 0);
                if (w == 1) return b->v ? a : nt(a);
                if (a->op == X::ZExt) return bin(X::Eq, a->a, k(a->a->w, b->v));
                if (a->op == X::Ite && isk(a->b) && isk(a->c)) { bool x = a->b->v == b->v, y = a->c->v == b->v; if (x && y) return k(1, 1); if (x) return a->a; if (y) return nt(a->a); return k(1, 0); }
                if (a->op == X::Ite && isk(a->b)) { if (a->b->v != b->v) return bin(X::And, nt(a->a), bin(X::Eq, a->c, b)); }
                if (a->op == X::Ite && isk(a->c)) { if (a->c->v != b->v) return bin(X::And, a->a, bin(X::Eq, a->b, b)); }
                if (a->op == X::Add && isk(a->b)) return bin(X::Eq, a->a, k(w, b->v - a->b->v));
                if (a->op == X::Xor && isk(a->b)) return bin(X::Eq, a->a, k(w, b->v ^ a->b->v));
                if (!b->v && a->op == X::And && !isk(a->b)) { if (Expr* e = onehot(a->b)) { if (hotset(a->a)) return andz(a->a, a->b, e); } if (Expr* e = onehot(a->a)) { if (hotset(a->b)) return andz(a->b, a->a, e); } }
                if (Expr* e = onehot(a)) { if (!b->v || (b->v & (b->v - 1))) return k(1, 0); unsigned i = 0; while (!(b->v >> i & 1)) i++; return bin(X::Eq, e, k(e->w, i)); }
                if (a->op == X::Concat) return bin(X::And, bin(X::Eq, a->a, k(a->a->w, b->v >> a->b->w)), bin(X::Eq, a->b, k(a->b->w, b->v)));
            }
            if (a->op == X::ZExt && b->op == X::ZExt && a->a->w == b->a->w) return bin(X::Eq, a->a, b->a);
            if (Expr* e = onehot(a)) if (Expr* f = onehot(b)) return bin(X::Eq, e, f);
            if (a->op == X::ZExt && b->op == X::ZExt) { unsigned n = std::max(a->a->w, b->a->w); return bin(X::Eq, zext(a->a, n), zext(b->a, n)); }
            if (a->op == X::Concat && (b->op == X::ZExt || b->op == X::Concat)) { unsigned n = a->b->w; return bin(X::And, bin(X::Eq, a->a, extract(b, n, w - n)), bin(X::Eq, a->b, extract(b, 0, n))); }
            if (b->op == X::Concat && a->op == X::ZExt) { unsigned n = b->b->w; return bin(X::And, bin(X::Eq, extract(a, n, w - n), b->a), bin(X::Eq, extract(a, 0, n), b->b)); }
            if (a->op == X::Concat && b->op == X::Concat && a->b->w == b->b->w) return bin(X::And, bin(X::Eq, a->a, b->a), bin(X::Eq, a->b, b->b));
            break;
        case X::Ult:
            if (a == b) return k(1, 0);
            if (isk(b)) { if (umax(a) < b->v) return k(1, 1); if (b->v == 0) return k(1, 0); if (b->v == 1) return bin(X::Eq, a, k(w, 0)); }
            if (isk(a)) { if (umax(b) <= a->v) return k(1, 0); if (a->v == 0) return nt(bin(X::Eq, b, k(w, 0))); }
            if (a->op == X::ZExt && b->op == X::ZExt && a->a->w == b->a->w) return bin(X::Ult, a->a, b->a);
            break;
        case X::Ule: return nt(bin(X::Ult, b, a));
        case X::Sle: return nt(bin(X::Slt, b, a));
        case X::Slt: if (a == b) return k(1, 0); if ((a->kz >> (w - 1) & 1) && (b->kz >> (w - 1) & 1)) return bin(X::Ult, a, b); break;
        default: break;
        }
        return raw(op, rw, a, b);
    }
    // a op b with no bit possibly set in both: split into a concatenation
    Expr* join(Expr* a, Expr* b) {
        unsigned w = a->w; if (w == 1) return nullptr; u128 m = maskw(w), na = m & ~a->kz, nb = m & ~b->kz;
        if (!na || !nb || (na & nb)) return nullptr;
        if (na < nb) std::swap(a, b), std::swap(na, nb);
        unsigned n = 0; while (nb >> n) { n++; if (n >= 128) break; }   // b fits in n bits
        if (n >= w || (na & maskw(n))) return nullptr;
        return concat(extract(a, n, w - n), extract(b, 0, n));
    }
    // exponent of a one-hot word, or null: returns e with word == 1 << e (e < w)
    Expr* onehot(Expr* x) { if (x->op == X::Shl && isk(x->a) && x->a->v == 1 && umax(x->b) < x->w) return x->b; return nullptr; }
    Expr* andz(Expr* x, Expr* bit, Expr* eb) { // (x & bit) == 0 for one-hot bit
        if (Expr* ea = onehot(x)) return nt(bin(X::Eq, ea, eb));
        if (x->op == X::Or) return bin(X::And, andz(x->a, bit, eb), andz(x->b, bit, eb));
        if (isk(x)) { Expr* r = k(1, 1); for (unsigned i = 0; i < x->w; i++) if (x->v >> i & 1) r = bin(X::And, r, nt(bin(X::Eq, eb, k(eb->w, i)))); return r; }
        return raw(X::Eq, 1, raw(X::And, x->w, x, bit), k(x->w, 0));
    }
    bool hotset(Expr* x) { return isk(x) || onehot(x) || (x->op == X::Or && hotset(x->a) && hotset(x->b)); }
    Expr* notOf(Expr* e) { if (e->op == X::Xor && isk(e->b) && e->w == 1) return e->a; auto it = tab.find(EKey{X::Xor, 1, 0, e, k(1, 1), nullptr, 0}); return it == tab.end() ? nullptr : it->second; }
    Expr* ite(Expr* c, Expr* a, Expr* b) {
        if (isk(c)) return c->v ? a : b;
        if (a == b) return a;
        if (c->op == X::Xor && isk(c->b)) return ite(c->a, b, a);
        if (a->w == 1) {
            if (isk(a)) return a->v ? bin(X::Or, c, b) : bin(X::And, nt(c), b);
            if (isk(b)) return b->v ? bin(X::Or, nt(c), a) : bin(X::And, c, a);
        }
        return raw(X::Ite, a->w, c, a, b);
    }
    Expr* zext(Expr* a, unsigned w) { if (a->w == w) return a; if (isk(a)) return k(w, a->v); if (a->op == X::ZExt) return zext(a->a, w); return raw(X::ZExt, w, a); }
    Expr* sext(Expr* a, unsigned w) { if (a->w == w) return a; if (isk(a)) return k(w, (u128)sx(a->v, a->w)); if (a->kz >> (a->w - 1) & 1) return zext(a, w); if (a->op == X::SExt) return sext(a->a, w); return raw(X::SExt, w, a); }
    Expr* extract(Expr* a, unsigned lo, unsigned w) {
        if (lo == 0 && w == a->w) return a;
        if (isk(a)) return k(w, a->v >> lo);
        if (((~a->kz >> lo) & maskw(w)) == 0) return k(w, 0);
        switch (a->op) {
        case X::Extract: return extract(a->a, a->lo + lo, w);
        case X::ZExt: if (lo + w <= a->a->w) return extract(a->a, lo, w); if (lo >= a->a->w) return k(w, 0); return zext(extract(a->a, lo, a->a->w - lo), w);
        case X::SExt: if (lo + w <= a->a->w) return extract(a->a, lo, w); break;
        case X::Concat: if (lo + w <= a->b->w) return extract(a->b, lo, w); if (lo >= a->b->w) return extract(a->a, lo - a->b->w, w); return concat(extract(a->a, 0, lo + w - a->b->w), extract(a->b, lo, a->b->w - lo));
        case X::And: case X::Or: case X::Xor: if (isk(a->b) || ((~a->a->kz >> lo) & maskw(w)) == 0 || ((~a->b->kz >> lo) & maskw(w)) == 0) return bin(a->op, extract(a->a, lo, w), extract(a->b, lo, w)); break;
        case X::Ite: if (isk(a->b) || isk(a->c)) return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w)); break;
        default: break;
        }
        return raw(X::Extract, w, a, nullptr, nullptr, lo);
    }
    Expr* concat(Expr* hi, Expr* lo) {
        if (isk(hi) && isk(lo)) return k(hi->w + lo->w, hi->v << lo->w | lo->v);
        if (isk(hi) && hi->v == 0) return zext(lo, hi->w + lo->w);
        if (hi->op == X::ZExt) return zext(concat(hi->a, lo), hi->w + lo->w);
        if (lo->op == X::Concat) return concat(concat(hi, lo->a), lo->b);
        if (hi->op == X::Extract && lo->op == X::Extract && hi->a == lo->a && hi->lo == lo->lo + lo->w) return extract(hi->a, lo->lo, hi->w + lo->w);
        if (hi->op == X::Concat && hi->b->op == X::Extract && lo->op == X::Extract && hi->b->a == lo->a && hi->b->lo == lo->lo + lo->w) return concat(hi->a, extract(lo->a, lo->lo, hi->b->w + lo->w));
        if (hi->op == X::Concat && isk(hi->b) && isk(lo)) return concat(hi->a, k(hi->b->w + lo->w, hi->b->v << lo->w | lo->v));
        if (hi->op == X::Extract && lo->op == X::Concat && lo->a->op == X::Extract && lo->a->a == hi->a && hi->lo == lo->a->lo + lo->a->w) return concat(extract(hi->a, lo->a->lo, hi->w + lo->a->w), lo->b);
        return raw(X::Concat, hi->w + lo->w, hi, lo);
    }
    Expr* popcount(Expr* a) {
        unsigned w = a->w; std::vector<Expr*> v;
        if (onehot(a)) return k(w, 1);
        for (unsigned i = 0; i < w; i++) v.push_back(zext(extract(a, i, 1), 8));
        while (v.size() > 1) { std::vector<Expr*> n; for (size_t i = 0; i + 1 < v.size(); i += 2) n.push_back(bin(X::Add, v[i], v[i + 1])); if (v.size() & 1) n.push_back(v.back()); v.swap(n); }
        return w < 8 ? extract(v[0], 0, w) : zext(v[0], w);
    }

    // ---- evaluation under a model
    u128 eval(Expr* e, const std::vector<u128>& model, u64 ep) {
        if (e->op == X::Const) return e->v;
        if (e->epoch == ep) return e->ev;
        u128 r;
        switch (e->op) {
        case X::Var: r = e->lo < model.size() ? model[e->lo] & maskw(e->w) : 0; break;
        case X::Ite: r = eval(e->a, model, ep) ? eval(e->b, model, ep) : eval(e->c, model, ep); break;
        case X::ZExt: r = eval(e->a, model, ep); break;
        case X::SExt: r = (u128)sx(eval(e->a, model, ep), e->a->w) & maskw(e->w); break;
        case X::Extract: r = (eval(e->a, model, ep) >> e->lo) & maskw(e->w); break;
        case X::Concat: r = eval(e->a, model, ep) << e->b->w | eval(e->b, model, ep); break;
        default: r = fold(e->op, e->w, eval(e->a, model, ep), eval(e->b, model, ep), e->a->w);
        }
        e->epoch = ep; e->ev = r; return r;
    }

    // ---- Z3
    Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
    Z3_ast num(unsigned w, u128 v) {
        if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, w));
        Z3_ast hi = keep(Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), Z3_mk_bv_sort(ctx, w - 64))), lo = keep(Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, 64)));
        return Z3_mk_concat(ctx, hi, lo);
    }
    Z3_ast var3(Expr* e) { std::string n = (e->taint ? "u" : "x") + std::to_string(e->lo) + "_" + std::to_string(e->w); return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bv_sort(ctx, e->w)); }
    Z3_ast tb(Expr* e) { // 1-bit expression as Bool
        if (e->zb) return e->zb;
        Z3_ast r = nullptr;
        switch (e->op) {
        case X::Const: r = e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
        case X::Eq: r = e->a->w == 1 ? Z3_mk_iff(ctx, tb(e->a), tb(e->b)) : Z3_mk_eq(ctx, tv(e->a), tv(e->b)); break;
        case X::Ult: r = Z3_mk_bvult(ctx, tv(e->a), tv(e->b)); break;
        case X::Slt: r = Z3_mk_bvslt(ctx, tv(e->a), tv(e->b)); break;
        case X::And: { Z3_ast q[2] = {tb(e->a), tb(e->b)}; r = Z3_mk_and(ctx, 2, q); break; }
        case X::Or: { Z3_ast q[2] = {tb(e->a), tb(e->b)}; r = Z3_mk_or(ctx, 2, q); break; }
        case X::Xor: if (isk(e->b)) r = e->b->v ? Z3_mk_not(ctx, tb(e->a)) : tb(e->a); else r = Z3_mk_xor(ctx, tb(e->a), tb(e->b)); break;
        case X::Ite: r = Z3_mk_ite(ctx, tb(e->a), tb(e->b), tb(e->c)); break;
        default: r = Z3_mk_eq(ctx, tv(e), keep(num(1, 1)));
        }
        return e->zb = keep(r);
    }
    Z3_ast tv(Expr* e) {
        if (e->z) return e->z;
        Z3_ast r = nullptr;
        switch (e->op) {
        case X::Const: r = num(e->w, e->v); break;
        case X::Var: r = var3(e); break;
        case X::Add: r = Z3_mk_bvadd(ctx, tv(e->a), tv(e->b)); break;
        case X::Sub: r = Z3_mk_bvsub(ctx, tv(e->a), tv(e->b)); break;
        case X::Mul: r = Z3_mk_bvmul(ctx, tv(e->a), tv(e->b)); break;
        case X::UDiv: r = Z3_mk_bvudiv(ctx, tv(e->a), tv(e->b)); break;
        case X::URem: r = Z3_mk_bvurem(ctx, tv(e->a), tv(e->b)); break;
        case X::SDiv: r = Z3_mk_bvsdiv(ctx, tv(e->a), tv(e->b)); break;
        case X::SRem: r = Z3_mk_bvsrem(ctx, tv(e->a), tv(e->b)); break;
        case X::Shl: r = Z3_mk_bvshl(ctx, tv(e->a), tv(e->b)); break;
        case X::LShr: r = Z3_mk_bvlshr(ctx, tv(e->a), tv(e->b)); break;
        case X::AShr: r = Z3_mk_bvashr(ctx, tv(e->a), tv(e->b)); break;
        case X::And: if (e->w == 1) goto viaBool; r = Z3_mk_bvand(ctx, tv(e->a), tv(e->b)); break;
        case X::Or: if (e->w == 1) goto viaBool; r = Z3_mk_bvor(ctx, tv(e->a), tv(e->b)); break;
        case X::Xor: if (e->w == 1) goto viaBool; r = Z3_mk_bvxor(ctx, tv(e->a), tv(e->b)); break;
        case X::Ite: r = Z3_mk_ite(ctx, tb(e->a), tv(e->b), tv(e->c)); break;
        case X::ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, tv(e->a)); break;
        case X::SExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, tv(e->a)); break;
        case X::Extract: r = Z3_mk_extract(ctx, e->lo + e->w - 1, e->lo, tv(e->a)); break;
        case X::Concat: r = Z3_mk_concat(ctx, tv(e->a), tv(e->b)); break;
        default: viaBool: r = Z3_mk_ite(ctx, tb(e), keep(num(1, 1)), keep(num(1, 0)));
        }
        return e->z = keep(r);
    }
};
