#include "expr.h"
Exprs X; Solver S;

uint64_t foldop(Op op, unsigned w, uint64_t a, uint64_t b) {
    uint64_t m = maskw(w); a &= m; b &= m;
    switch (op) {
    case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
    case O_UDIV: return b ? a / b : m; case O_UREM: return b ? a % b : a;
    case O_SDIV: { int64_t x = sxt(a, w), y = sxt(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
    case O_SREM: { int64_t x = sxt(a, w), y = sxt(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
    case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << b) & m; case O_LSHR: return b >= w ? 0 : a >> b;
    case O_ASHR: { int64_t x = sxt(a, w); if (b >= w) b = w - 1; return (uint64_t)(x >> b) & m; }
    case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
    case O_SLT: return sxt(a, w) < sxt(b, w); case O_SLE: return sxt(a, w) <= sxt(b, w);
    default: abort();
    }
}

// the number of leaves of a choice between constants; 0 when it is not one, or a big one
int Exprs::leaves(E e, int d) {
    const Node x = n[e];
    if (x.op == O_CONST) return 1;
    if (x.op == O_ZEXT || x.op == O_SEXT) return d ? leaves(x.a, d - 1) : 0;
    if (x.op != O_ITE || !d) return 0;
    int l = leaves(x.b, d - 1), r = l ? leaves(x.c, d - 1) : 0;
    return r ? l + r : 0;
}

// a bound on the number of significant bits of the unsigned value
unsigned Exprs::sig(E e, int d) {
    const Node x = n[e];
    if (x.op == O_CONST) return cv(e) ? 64 - __builtin_clzll(cv(e)) : 0;
    if (!d) return x.w;
    unsigned r = x.w, p, q;
    switch (x.op) {
    case O_ZEXT: r = sig(x.a, d - 1); break;
    case O_CONCAT: p = sig(x.a, d - 1); r = p ? w(x.b) + p : sig(x.b, d - 1); break;
    case O_ADD: p = sig(x.a, d - 1), q = sig(x.b, d - 1); r = std::max(p, q) + 1; break;
    case O_MUL: r = sig(x.a, d - 1) + sig(x.b, d - 1); break;
    case O_UDIV: if (isc(x.b) && cv(x.b)) r = sig(x.a, d - 1); break;
    case O_UREM: p = sig(x.a, d - 1); r = p; if (isc(x.b) && cv(x.b)) r = std::min(p, sig(x.b, 0)); break;
    case O_AND: p = sig(x.a, d - 1), q = sig(x.b, d - 1); r = std::min(p, q); break;
    case O_OR: case O_XOR: p = sig(x.a, d - 1), q = sig(x.b, d - 1); r = std::max(p, q); break;
    case O_ITE: p = sig(x.b, d - 1), q = sig(x.c, d - 1); r = std::max(p, q); break;
    default: break;
    }
    return std::min(r, (unsigned)x.w);
}

E Exprs::bin(Op op, E a, E b) {
    unsigned W = w(a); uint64_t M = maskw(W);
    if (isc(a) && isc(b)) return cst(W, foldop(op, W, cv(a), cv(b)));
    if (op >= O_MUL && op <= O_SREM && isc(b) && cv(b) == 1) return op == O_UREM || op == O_SREM ? cst(W, 0) : a;
    if ((op == O_MUL && !isc(a)) || ((op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM) && isc(b) && cv(b) && sxt(cv(b), W) > 0)) {
        // no wider than it has to be
        unsigned p = sig(a, 8), q = sig(b, 8), r = op == O_MUL ? p + q : std::max(p, q);
        if (r && r < W - 1) {
            if (op == O_SDIV) op = O_UDIV; if (op == O_SREM) op = O_UREM;
            if (op == O_UDIV && q > p) return cst(W, 0);
            if (op == O_UREM && q > p) return a;
            return zext(bin(op, extract(a, 0, r), extract(b, 0, r)), W);
        }
    }
    if (op == O_SUB) {                                      // x - x / k * k is x % k
        E e = b; while (n[e].op == O_ZEXT) e = n[e].a;
        if (n[e].op == O_MUL && isc(n[e].b)) {
            uint64_t k = cv(n[e].b); E q = n[e].a; unsigned mw = w(e); while (n[q].op == O_ZEXT) q = n[q].a;
            const Node d = n[q];
            if (d.op == O_SDIV && d.a == a && mw == W && isc(d.b) && cv(d.b) == k && sxt(k, W) > 0) return bin(O_SREM, a, d.b);
            if (d.op == O_UDIV && isc(d.b) && cv(d.b) == k && k && (mw == W || sig(d.a, 8) <= mw) && sig(a, 8) <= d.w && extract(a, 0, d.w) == d.a)
                return bin(O_UREM, a, cst(W, k));
        }
    }
    if ((op == O_UREM || op == O_UDIV) && isc(b) && cv(b) && n[a].op == O_ADD && isc(n[a].b) && std::max(sig(n[a].a, 8), sig(n[a].b, 0)) < W) {
        uint64_t c = cv(n[a].b), k = cv(b); E x = n[a].a;
        if (op == O_UREM && c >= k) return bin(op, bin(O_ADD, x, cst(W, c % k)), b);
        if (op == O_UDIV && c >= k) return bin(O_ADD, bin(op, bin(O_ADD, x, cst(W, c % k)), b), cst(W, c / k));
    }
    if ((op == O_UREM || op == O_UDIV) && isc(b) && cv(b) && n[a].op == O_MUL && isc(n[a].b) && cv(n[a].b) % cv(b) == 0 && sig(n[a].a, 8) + sig(n[a].b, 0) <= W)
        return op == O_UREM ? cst(W, 0) : bin(O_MUL, n[a].a, cst(W, cv(n[a].b) / cv(b)));
    bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR;
    if (comm && isc(a)) std::swap(a, b);
    if (isc(b)) {
        uint64_t k = cv(b); const Node na = n[a];
        switch (op) {
        case O_SUB: return k ? bin(O_ADD, a, cst(W, 0 - k)) : a;
        case O_ADD: if (!k) return a; if (na.op == O_ADD && isc(na.b)) return bin(O_ADD, na.a, cst(W, cv(na.b) + k)); break;
        case O_MUL: if (!k) return b; if (k == 1) return a;
            if (na.op == O_ZEXT && w(na.a) == 1) return ite(na.a, b, cst(W, 0));
            if (!(k & (k - 1))) return bin(O_SHL, a, cst(W, __builtin_ctzll(k)));
            break;
        case O_UDIV: if (k == 1) return a; break;
        case O_AND:
            if (!k) return b; if (k == M) return a;
            if (na.op == O_AND && isc(na.b)) return bin(O_AND, na.a, cst(W, cv(na.b) & k));
            if (na.op == O_OR && isc(na.b)) { if ((cv(na.b) & k) == k) return b; if (!(cv(na.b) & k)) return bin(O_AND, na.a, b); }
            if (na.op == O_OR || na.op == O_XOR) return bin(na.op, bin(O_AND, na.a, b), bin(O_AND, na.b, b));
            if (na.op == O_AND) { E t = bin(O_AND, na.a, b), u = bin(O_AND, na.b, b); if (isc(t) || isc(u) || !(k & (k - 1))) { if (isc(t)) return bin(O_AND, u, t); if (isc(u)) return bin(O_AND, t, u); } }
            if (na.op == O_CONCAT) { unsigned lw = w(na.b); return concat(bin(O_AND, na.a, cst(w(na.a), k >> lw)), bin(O_AND, na.b, cst(lw, k))); }
            if (na.op == O_ZEXT) { unsigned iw = w(na.a); if (!(k & maskw(iw))) return cst(W, 0); if ((k & maskw(iw)) == maskw(iw)) return a; return zext(bin(O_AND, na.a, cst(iw, k)), W); }
            if (na.op == O_ITE) { E t = bin(O_AND, na.b, b), u = bin(O_AND, na.c, b); return ite(na.a, t, u); }
            break;
        case O_OR: if (!k) return a; if (k == M) return b;
            if (na.op == O_OR && isc(na.b)) return bin(O_OR, na.a, cst(W, cv(na.b) | k));
            break;
        case O_XOR: if (!k) return a;
            if (na.op == O_XOR && isc(na.b)) return bin(O_XOR, na.a, cst(W, cv(na.b) ^ k));
            if (W == 1 && k == 1) {
                // not(a<b) -> b<=a
                if (na.op == O_ULT) return cmp(O_ULE, na.b, na.a); if (na.op == O_ULE) return cmp(O_ULT, na.b, na.a);
                if (na.op == O_SLT) return cmp(O_SLE, na.b, na.a); if (na.op == O_SLE) return cmp(O_SLT, na.b, na.a);
            }
            break;
        case O_SHL: case O_LSHR:
            if (!k) return a; if (k >= W) return cst(W, 0);
            if (op == O_SHL) return concat(extract(a, 0, W - k), cst(k, 0));
            return zext(extract(a, k, W - k), W);
        case O_ASHR: if (!k) return a; break;
        default: break;
        }
    } else if (isc(a)) {
        uint64_t k = cv(a);
        if ((op == O_SHL || op == O_LSHR) && k == 0) return a;
    }
    if (a == b) { if (op == O_AND || op == O_OR) return a; if (op == O_XOR || op == O_SUB) return cst(W, 0); }
    if (comm && a > b && !isc(b)) std::swap(a, b);
    return raw(op, W, a, b, 0, 0);
}

E Exprs::cmp(Op op, E a, E b) {
    unsigned W = w(a);
    if (isc(a) && isc(b)) return cst(1, foldop(op, W, cv(a), cv(b)));
    if (a == b) return cst(1, op == O_EQ || op == O_ULE || op == O_SLE);
    if (op == O_EQ) {
        if (isc(a)) std::swap(a, b);
        if (isc(b)) {
            uint64_t k = cv(b); const Node na = n[a];
            if (W == 1) return k ? a : lnot(a);
            if (na.op == O_ZEXT) { unsigned iw = w(na.a); if (k & ~maskw(iw)) return cst(1, 0); return cmp(O_EQ, na.a, cst(iw, k)); }
            if (na.op == O_SEXT) { unsigned iw = w(na.a); if ((uint64_t)(sxt(k & maskw(iw), iw) & maskw(W)) != k) return cst(1, 0); return cmp(O_EQ, na.a, cst(iw, k)); }
            if (na.op == O_ITE) {
                E t = cmp(O_EQ, na.b, b), f = cmp(O_EQ, na.c, b);
                if (t == f) return t;
                return bin(O_OR, bin(O_AND, na.a, t), bin(O_AND, lnot(na.a), f));
            }
            if (na.op == O_ADD && isc(na.b)) return cmp(O_EQ, na.a, cst(W, k - cv(na.b)));
            if (na.op == O_XOR && isc(na.b)) return cmp(O_EQ, na.a, cst(W, k ^ cv(na.b)));
            if (na.op == O_AND && isc(na.b) && (k & ~cv(na.b))) return cst(1, 0);
            if (na.op == O_OR && isc(na.b) && (cv(na.b) & ~k)) return cst(1, 0);
            if (na.op == O_CONCAT) { unsigned lw = w(na.b); return bin(O_AND, cmp(O_EQ, na.a, cst(w(na.a), k >> lw)), cmp(O_EQ, na.b, cst(lw, k))); }
        } else if (a > b) std::swap(a, b);
        if (n[a].op == O_ZEXT && n[b].op == O_ZEXT && w(n[a].a) == w(n[b].a)) return cmp(O_EQ, n[a].a, n[b].a);
        return raw(O_EQ, 1, a, b, 0, 0);
    }
    if (op == O_ULT) { if (isc(b) && cv(b) == 0) return cst(1, 0); if (isc(a) && cv(a) == maskw(W)) return cst(1, 0); if (isc(b) && cv(b) == 1) return cmp(O_EQ, a, cst(W, 0)); }
    if (op == O_ULE) { if (isc(b) && cv(b) == maskw(W)) return cst(1, 1); if (isc(a) && cv(a) == 0) return cst(1, 1); }
    if (n[a].op == O_ZEXT && (isc(b) || n[b].op == O_ZEXT)) {        // zero-extended: compare unsigned, narrower
        unsigned iw = w(n[a].a);
        Op u = (op == O_SLT) ? O_ULT : (op == O_SLE) ? O_ULE : op;
        if (isc(b)) {
            uint64_t k = cv(b);
            if ((op == O_SLT || op == O_SLE) && sxt(k, W) < 0) return cst(1, 0);
            if (k > maskw(iw)) return cst(1, 1);
            return cmp(u, n[a].a, cst(iw, k));
        }
        if (w(n[b].a) == iw) return cmp(u, n[a].a, n[b].a);
    }
    if (n[b].op == O_ZEXT && isc(a)) {
        unsigned iw = w(n[b].a); uint64_t k = cv(a);
        Op u = (op == O_SLT) ? O_ULT : (op == O_SLE) ? O_ULE : op;
        if ((op == O_SLT || op == O_SLE) && sxt(k, W) < 0) return cst(1, 1);
        if (k > maskw(iw)) return cst(1, 0);
        return cmp(u, cst(iw, k), n[b].a);
    }
    return raw(op, 1, a, b, 0, 0);
}

E Exprs::ite(E c, E a, E b) {
    if (isc(c)) return cv(c) ? a : b;
    if (a == b) return a;
    { const Node nc = n[c]; if (nc.op == O_XOR && isc(nc.b) && cv(nc.b)) return ite(nc.a, b, a); }
    if (n[a].op == O_ITE && n[a].a == c) return ite(c, n[a].b, b);
    if (n[b].op == O_ITE && n[b].a == c) return ite(c, a, n[b].c);
    if (w(a) == 1) {
        if (isc(a)) return cv(a) ? bin(O_OR, c, b) : bin(O_AND, lnot(c), b);
        if (isc(b)) return cv(b) ? bin(O_OR, lnot(c), a) : bin(O_AND, c, a);
    }
    if (w(a) == 1 && isc(a) && isc(b)) return cv(a) ? c : lnot(c);
    return raw(O_ITE, w(a), c, a, b, 0);
}
// replace 1-bit subterms decided by the path condition
E Exprs::subst(E e, const std::vector<E> &pc, std::unordered_map<E, E> &memo) {
    const Node x = n[e];
    if (x.op == O_CONST || x.op == O_VAR) { if (x.op == O_VAR && x.w == 1) { for (E c : pc) if (c == e) return cst(1, 1); E ne = lnot(e); for (E c : pc) if (c == ne) return cst(1, 0); } return e; }
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    if (memo.size() > 400) return e;
    E r = 0;
    if (x.w == 1) { for (E c : pc) if (c == e) { r = cst(1, 1); break; } if (!r) { E ne = lnot(e); for (E c : pc) if (c == ne) { r = cst(1, 0); break; } } }
    if (!r) {
        E a = x.a ? subst(x.a, pc, memo) : 0, b = x.b ? subst(x.b, pc, memo) : 0, c = x.c ? subst(x.c, pc, memo) : 0;
        if (a == x.a && b == x.b && c == x.c) r = e;
        else switch (x.op) {
            case O_ITE: r = ite(a, b, c); break;
            case O_ZEXT: r = zext(a, x.w); break; case O_SEXT: r = sext(a, x.w); break;
            case O_EXTRACT: r = extract(a, x.k, x.w); break; case O_CONCAT: r = concat(a, b); break;
            case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: r = cmp(x.op, a, b); break;
            default: r = bin(x.op, a, b);
        }
    }
    memo[e] = r; return r;
}
E Exprs::zext(E a, unsigned W) {
    if (w(a) == W) return a;
    if (isc(a)) return cst(W, cv(a));
    if (n[a].op == O_ZEXT) return zext(n[a].a, W);
    { const Node na = n[a]; if (na.op == O_ITE && leaves(a, 8)) return ite(na.a, zext(na.b, W), zext(na.c, W)); }
    return raw(O_ZEXT, W, a, 0, 0, 0);
}
E Exprs::sext(E a, unsigned W) {
    if (w(a) == W) return a;
    if (isc(a)) return cst(W, (uint64_t)sxt(cv(a), w(a)));
    if (n[a].op == O_ZEXT) return zext(n[a].a, W);
    if (n[a].op == O_SEXT) return sext(n[a].a, W);
    { const Node na = n[a]; if (na.op == O_ITE && leaves(a, 8)) return ite(na.a, sext(na.b, W), sext(na.c, W)); }
    return raw(O_SEXT, W, a, 0, 0, 0);
}
E Exprs::extract(E a, unsigned lo, unsigned W) {
    if (lo == 0 && w(a) == W) return a;
    if (isc(a)) return cst(W, cv(a) >> lo);
    const Node na = n[a];
    switch (na.op) {
    case O_EXTRACT: return extract(na.a, lo + na.k, W);
    case O_ZEXT: { unsigned iw = w(na.a); if (lo >= iw) return cst(W, 0); if (lo + W <= iw) return extract(na.a, lo, W); return zext(extract(na.a, lo, iw - lo), W); }
    case O_SEXT: { unsigned iw = w(na.a); if (lo + W <= iw) return extract(na.a, lo, W); if (lo == 0) return sext(na.a, W); break; }
    case O_CONCAT: { unsigned lw = w(na.b); if (lo >= lw) return extract(na.a, lo - lw, W); if (lo + W <= lw) return extract(na.b, lo, W); return concat(extract(na.a, 0, lo + W - lw), extract(na.b, lo, lw - lo)); }
    case O_AND: case O_OR: case O_XOR: return bin(na.op, extract(na.a, lo, W), extract(na.b, lo, W));
    case O_ITE: return ite(na.a, extract(na.b, lo, W), extract(na.c, lo, W));
    case O_ADD: case O_SUB: case O_MUL: if (lo == 0) return bin(na.op, extract(na.a, 0, W), extract(na.b, 0, W)); break;
    default: break;
    }
    return raw(O_EXTRACT, W, a, 0, 0, lo);
}
E Exprs::concat(E hi, E lo) {
    unsigned W = w(hi) + w(lo);
    if (isc(hi) && isc(lo)) return cst(W, (cv(hi) << w(lo)) | cv(lo));
    if (isc(hi) && cv(hi) == 0) return zext(lo, W);
    const Node h = n[hi], l = n[lo];
    // adjacent pieces of one term
    E hb = h.op == O_EXTRACT ? h.a : 0, lb = l.op == O_EXTRACT ? l.a : (E)lo;
    uint64_t ll = l.op == O_EXTRACT ? l.k : 0;
    if (hb && hb == lb && h.k == ll + w(lo)) return extract(hb, ll, W);
    if (h.op == O_ZEXT) return zext(concat(h.a, lo), W);
    if (h.op == O_CONCAT) {   // re-associate so that pieces of one term meet
        const Node hl = n[h.b];
        E b2 = hl.op == O_EXTRACT ? hl.a : 0;
        if (b2 && b2 == lb && hl.k == ll + w(lo)) return concat(h.a, concat(h.b, lo));
    }
    return raw(O_CONCAT, W, hi, lo, 0, 0);
}

const std::vector<uint32_t> &Exprs::vars(E e) {
    if (vset.size() < n.size()) { vset.resize(n.size() + 256); vset_ok.resize(n.size() + 256, 0); }
    if (vset_ok[e]) return vset[e];
    std::vector<uint32_t> r; const Node nd = n[e];
    if (nd.op == O_VAR) r.push_back(nd.a);
    else if (nd.op != O_CONST) {
        for (E k : {nd.a, nd.b, nd.c}) if (k) { const auto &v = vars(k); std::vector<uint32_t> t; std::set_union(r.begin(), r.end(), v.begin(), v.end(), std::back_inserter(t)); r.swap(t); }
    }
    vset[e] = r; vset_ok[e] = 1; return vset[e];
}

uint64_t Exprs::ev_(E e, const std::vector<uint64_t> &m) {
    const Node &x = n[e];
    if (x.op == O_CONST) return x.k;
    if (x.op == O_VAR) return x.a < m.size() ? (m[x.a] & maskw(x.w)) : 0;
    if (evep[e] == epoch) return ev[e];
    uint64_t r;
    switch (x.op) {
    case O_ITE: r = ev_(x.a, m) ? ev_(x.b, m) : ev_(x.c, m); break;
    case O_ZEXT: r = ev_(x.a, m); break;
    case O_SEXT: r = (uint64_t)sxt(ev_(x.a, m), w(x.a)) & maskw(x.w); break;
    case O_EXTRACT: r = (ev_(x.a, m) >> x.k) & maskw(x.w); break;
    case O_CONCAT: r = (ev_(x.a, m) << w(x.b)) | ev_(x.b, m); break;
    default: r = foldop(x.op, w(x.a), ev_(x.a, m), ev_(x.b, m));
    }
    ev[e] = r; evep[e] = epoch; return r;
}

std::string Exprs::str(E e, int d) {
    static const char *nm[] = {"?", "c", "v", "+", "-", "*", "u/", "s/", "u%", "s%", "&", "|", "^", "<<", ">>", "s>>", "==", "u<", "u<=", "s<", "s<=", "ite", "zext", "sext", "ext", "cat"};
    const Node x = n[e]; char b[64];
    if (x.op == O_CONST) { snprintf(b, 64, "%llu:%u", (unsigned long long)x.k, x.w); return b; }
    if (x.op == O_VAR) return varname[x.a];
    if (d == 0) return "...";
    std::string r = "("; r += nm[x.op];
    for (E k : {x.a, x.b, x.c}) if (k) r += " " + str(k, d - 1);
    if (x.op == O_EXTRACT) { snprintf(b, 64, " @%llu:%u", (unsigned long long)x.k, x.w); r += b; }
    return r + ")";
}

static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "symx: z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); }
Solver::Solver() { init(); }
void Solver::init() {
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context_rc(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(ctx, z3err);
    memset(sorts, 0, sizeof(sorts));
    s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, s);
}
Z3_ast Solver::bv(E e) {
    if (bvm.size() < X.n.size()) { bvm.resize(X.n.size() + 256, nullptr); bom.resize(X.n.size() + 256, nullptr); }
    if (bvm[e]) return bvm[e];
    const Node x = X.n[e]; Z3_ast r; Z3_sort so;
    switch (x.op) {
    case O_CONST: so = sort(x.w); r = Z3_mk_unsigned_int64(ctx, x.k, so); break;
    case O_VAR: so = sort(x.w); r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, x.a), so); break;
    case O_ADD: r = Z3_mk_bvadd(ctx, bv(x.a), bv(x.b)); break;
    case O_SUB: r = Z3_mk_bvsub(ctx, bv(x.a), bv(x.b)); break;
    case O_MUL: r = Z3_mk_bvmul(ctx, bv(x.a), bv(x.b)); break;
    case O_UDIV: r = Z3_mk_bvudiv(ctx, bv(x.a), bv(x.b)); break;
    case O_SDIV: r = Z3_mk_bvsdiv(ctx, bv(x.a), bv(x.b)); break;
    case O_UREM: r = Z3_mk_bvurem(ctx, bv(x.a), bv(x.b)); break;
    case O_SREM: r = Z3_mk_bvsrem(ctx, bv(x.a), bv(x.b)); break;
    case O_AND: r = Z3_mk_bvand(ctx, bv(x.a), bv(x.b)); break;
    case O_OR: r = Z3_mk_bvor(ctx, bv(x.a), bv(x.b)); break;
    case O_XOR: r = Z3_mk_bvxor(ctx, bv(x.a), bv(x.b)); break;
    case O_SHL: r = Z3_mk_bvshl(ctx, bv(x.a), bv(x.b)); break;
    case O_LSHR: r = Z3_mk_bvlshr(ctx, bv(x.a), bv(x.b)); break;
    case O_ASHR: r = Z3_mk_bvashr(ctx, bv(x.a), bv(x.b)); break;
    case O_ITE: r = Z3_mk_ite(ctx, bo(x.a), bv(x.b), bv(x.c)); break;
    case O_ZEXT: r = Z3_mk_zero_ext(ctx, x.w - X.w(x.a), bv(x.a)); break;
    case O_SEXT: r = Z3_mk_sign_ext(ctx, x.w - X.w(x.a), bv(x.a)); break;
    case O_EXTRACT: r = Z3_mk_extract(ctx, x.k + x.w - 1, x.k, bv(x.a)); break;
    case O_CONCAT: r = Z3_mk_concat(ctx, bv(x.a), bv(x.b)); break;
    default: { Z3_ast c = bo(e), t = bv(X.cst(1, 1)), z = bv(X.cst(1, 0)); r = Z3_mk_ite(ctx, c, t, z); break; }
    }
    return bvm[e] = keep(r);
}
Z3_ast Solver::bo(E e) {
    if (bvm.size() < X.n.size()) { bvm.resize(X.n.size() + 256, nullptr); bom.resize(X.n.size() + 256, nullptr); }
    if (bom[e]) return bom[e];
    const Node x = X.n[e]; Z3_ast r, t[2];
    switch (x.op) {
    case O_CONST: r = x.k ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case O_EQ: r = Z3_mk_eq(ctx, bv(x.a), bv(x.b)); break;
    case O_ULT: r = Z3_mk_bvult(ctx, bv(x.a), bv(x.b)); break;
    case O_ULE: r = Z3_mk_bvule(ctx, bv(x.a), bv(x.b)); break;
    case O_SLT: r = Z3_mk_bvslt(ctx, bv(x.a), bv(x.b)); break;
    case O_SLE: r = Z3_mk_bvsle(ctx, bv(x.a), bv(x.b)); break;
    case O_AND: t[0] = bo(x.a); t[1] = bo(x.b); r = Z3_mk_and(ctx, 2, t); break;
    case O_OR: t[0] = bo(x.a); t[1] = bo(x.b); r = Z3_mk_or(ctx, 2, t); break;
    case O_XOR: if (X.isc(x.b)) r = X.cv(x.b) ? Z3_mk_not(ctx, bo(x.a)) : bo(x.a); else r = Z3_mk_xor(ctx, bo(x.a), bo(x.b)); break;
    case O_ITE: r = Z3_mk_ite(ctx, bo(x.a), bo(x.b), bo(x.c)); break;
    default: r = Z3_mk_eq(ctx, bv(e), bv(X.cst(1, 1))); break;
    }
    return bom[e] = keep(r);
}
// Conjunctions of bit tests on variables are decided without bit-blasting: each test fixes bits of a
// variable; contradicting tests are unsatisfiable, and a base model with those bits set that satisfies
// every constraint is a model.  -1: not decided here.
static bool bits_of(E e, uint32_t &var, unsigned &lo, unsigned &w) {      // e = bits [lo, lo+w) of var
    const Node x = X.n[e];
    if (x.op == O_VAR) { var = x.a; lo = 0; w = x.w; return true; }
    if (x.op == O_EXTRACT && X.n[x.a].op == O_VAR) { var = X.n[x.a].a; lo = x.k; w = x.w; return true; }
    return false;
}
int Solver::quick(const std::vector<E> &cs, const std::vector<uint64_t> &base, std::vector<std::pair<uint32_t, uint64_t>> &model) {
    struct KB { uint64_t m, v; };
    static std::unordered_map<uint32_t, KB> kb; kb.clear();
    for (E c : cs) {
        Node x = X.n[c]; bool neg = false;
        if (x.op == O_XOR && x.w == 1 && X.isc(x.b) && X.cv(x.b)) { neg = true; x = X.n[x.a]; }
        uint32_t var; unsigned lo, w; uint64_t mask, val;
        if (x.op == O_EQ && X.isc(x.b)) {
            Node t = X.n[x.a]; val = X.cv(x.b);
            if (t.op == O_AND && X.isc(t.b) && bits_of(t.a, var, lo, w)) mask = X.cv(t.b);
            else if (bits_of(x.a, var, lo, w)) mask = maskw(w);
            else continue;
            if (neg) { if (mask & (mask - 1)) continue; val ^= mask; }
            if (val & ~mask) return 0;
        } else if ((x.op == O_VAR || x.op == O_EXTRACT) && x.w == 1) {
            E e = neg ? X.n[c].a : c;
            if (!bits_of(e, var, lo, w)) continue;
            mask = 1; val = neg ? 0 : 1;
        } else continue;
        mask <<= lo; val <<= lo;
        KB &k = kb[var];
        if ((k.m & mask) & (k.v ^ val)) return 0;
        k.m |= mask; k.v |= val;
    }
    static std::vector<uint64_t> m; m = base;
    for (auto &p : kb) { if (m.size() <= p.first) m.resize(p.first + 16, 0); m[p.first] = (m[p.first] & ~p.second.m) | p.second.v; }
    X.epoch++; if (X.ev.size() < X.n.size()) { X.ev.resize(X.n.size() + 1024); X.evep.resize(X.n.size() + 1024, 0); }
    for (E c : cs) if (!X.ev_(c, m)) return -1;
    model.clear();
    for (auto &p : kb) model.push_back({p.first, m[p.first]});
    return 1;
}
int Solver::check(std::vector<E> cs, std::vector<std::pair<uint32_t, uint64_t>> &model) {
    std::sort(cs.begin(), cs.end()); cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    std::string key((const char *)cs.data(), cs.size() * sizeof(E));
    auto it = cache.find(key);
    if (it != cache.end()) { cachehits++; model = it->second.m; return it->second.r; }
    auto t0 = std::chrono::steady_clock::now();
    queries++; if (getenv("SYMX_Q")) { fprintf(stderr, "Q"); for (E c : cs) fprintf(stderr, "\n   %s", X.str(c, 7).c_str()); fprintf(stderr, "\n"); }
    Z3_solver_reset(ctx, s);
    if (queries == 1) {
        Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeout_ms);
        Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
    }
    std::set<uint32_t> vs;
    for (E c : cs) { Z3_solver_assert(ctx, s, bo(c)); for (uint32_t v : X.vars(c)) vs.insert(v); }
    Z3_lbool r = Z3_solver_check(ctx, s);
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    CE ce; ce.r = res;
    if (res == 1) {
        Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
        for (uint32_t v : vs) {
            Z3_ast out; uint64_t val = 0;
            if (Z3_model_eval(ctx, m, bv(X.varnode[v]), true, &out)) { Z3_inc_ref(ctx, out); Z3_get_numeral_uint64(ctx, out, &val); Z3_dec_ref(ctx, out); }
            ce.m.push_back({v, val});
        }
        Z3_model_dec_ref(ctx, m);
    } else if (res < 0) unknowns++;
    secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    model = ce.m;
    cache.emplace(key, std::move(ce));
    return res;
}
