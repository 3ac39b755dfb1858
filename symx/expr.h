// expr.h - hash-consed bit-vector terms, a simplifier, an evaluator and the Z3 back end.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <set>
#include <chrono>
#include <z3.h>

typedef uint32_t E;               // term handle; 0 = "no term" (value is concrete)

enum Op : uint8_t { O_NONE, O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
    O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE,
    O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT };

struct Node { Op op; uint8_t w; uint32_t a, b, c; uint64_t k; };

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline int64_t sxt(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ULL << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

uint64_t foldop(Op op, unsigned w, uint64_t a, uint64_t b);

struct Exprs {
    std::vector<Node> n;
    struct H { size_t operator()(const Node &x) const {
        uint64_t h = x.op * 0x9E3779B97F4A7C15ULL + x.w;
        h = (h ^ x.a) * 0xff51afd7ed558ccdULL; h ^= h >> 29;
        h = (h ^ x.b) * 0xc4ceb9fe1a85ec53ULL; h ^= h >> 31;
        h = (h ^ x.c) * 0x9E3779B97F4A7C15ULL; h ^= h >> 30;
        h = (h ^ x.k) * 0xff51afd7ed558ccdULL; return h ^ (h >> 32); } };
    struct Q { bool operator()(const Node &x, const Node &y) const {
        return x.op == y.op && x.w == y.w && x.a == y.a && x.b == y.b && x.c == y.c && x.k == y.k; } };
    std::unordered_map<Node, E, H, Q> tab;
    std::vector<std::string> varname; std::vector<E> varnode; std::vector<char> varuninit;
    std::vector<std::vector<uint32_t>> vset; std::vector<char> vset_ok;   // variables of a term
    std::vector<uint64_t> ev; std::vector<uint32_t> evep; uint32_t epoch = 0;

    Exprs() { n.push_back(Node{O_NONE, 0, 0, 0, 0, 0}); }
    E raw(Op op, unsigned w, E a, E b, E c, uint64_t k) {
        Node x{op, (uint8_t)w, a, b, c, k};
        auto it = tab.find(x); if (it != tab.end()) return it->second;
        E id = n.size(); n.push_back(x); tab.emplace(x, id); return id;
    }
    E cst(unsigned w, uint64_t v) { return raw(O_CONST, w, 0, 0, 0, v & maskw(w)); }
    E var(unsigned w, const std::string &nm, bool uninit) {
        uint32_t id = varname.size(); varname.push_back(nm); varuninit.push_back(uninit);
        E e = raw(O_VAR, w, id, 0, 0, 0); varnode.push_back(e); return e;
    }
    bool isc(E e) const { return n[e].op == O_CONST; }
    uint64_t cv(E e) const { return n[e].k; }
    unsigned w(E e) const { return n[e].w; }
    int leaves(E e, int d); unsigned sig(E e, int d); E bin(Op op, E a, E b); E cmp(Op op, E a, E b); E ite(E c, E a, E b);
    E zext(E a, unsigned w); E sext(E a, unsigned w); E extract(E a, unsigned lo, unsigned w); E concat(E hi, E lo);
    E lnot(E a) { return bin(O_XOR, a, cst(1, 1)); }
    E subst(E e, const std::vector<E> &pc, std::unordered_map<E, E> &memo);
    const std::vector<uint32_t> &vars(E e);
    uint64_t eval(E e, const std::vector<uint64_t> &m) { epoch++; if (ev.size() < n.size()) { ev.resize(n.size() + 1024); evep.resize(n.size() + 1024, 0); } return ev_(e, m); }
    uint64_t ev_(E e, const std::vector<uint64_t> &m);
    std::string str(E e, int depth = 6);
};
extern Exprs X;

struct Solver {
    Z3_context ctx; Z3_solver s;
    std::vector<Z3_ast> bvm, bom;
    uint64_t queries = 0, unknowns = 0, cachehits = 0, bitdec = 0; double secs = 0; unsigned timeout_ms = 120000;
    struct CE { int r; std::vector<std::pair<uint32_t, uint64_t>> m; };
    std::unordered_map<std::string, CE> cache;
    Solver(); void init();
    Z3_ast bv(E e); Z3_ast bo(E e);
    Z3_sort sorts[65];
    Z3_sort sort(unsigned w) { if (!sorts[w]) { sorts[w] = Z3_mk_bv_sort(ctx, w); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, sorts[w])); } return sorts[w]; }
    Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
    int quick(const std::vector<E> &cs, const std::vector<uint64_t> &base, std::vector<std::pair<uint32_t, uint64_t>> &model);
    // 1 sat, 0 unsat, -1 unknown; model for the variables occurring in cs
    int check(std::vector<E> cs, std::vector<std::pair<uint32_t, uint64_t>> &model);
};
extern Solver S;
