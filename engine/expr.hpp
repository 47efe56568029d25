// Hash-consed bit-vector expressions (width 1..64) with light simplification,
// evaluation under a model, and translation to z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <z3.h>

namespace csx
{
enum class Op : uint8_t
{
    Const, Sym, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, Extract, Concat, ZExt, SExt
};

struct Expr
{
    Op                           op;
    uint8_t                      w;
    bool                         tainted;  // depends on uninitialised memory
    uint32_t                     id;
    const Expr *                 a, *b, *c;
    uint64_t                     k;  // constant value / symbol index / extract low bit
    const std::vector<uint32_t>* syms;
};

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline int64_t  sextw(uint64_t v, unsigned w)
{
    if (w >= 64) return (int64_t) v;
    const uint64_t m = 1ULL << (w - 1);
    v &= maskw(w);
    return (int64_t) ((v ^ m) - m);
}

uint64_t foldBin(Op op, uint64_t x, uint64_t y, unsigned w);

struct SymInfo
{
    std::string name;
    unsigned    w;
    bool        uninit;
};

class ExprMgr
{
public:
    const Expr* constant(uint64_t v, unsigned w);
    const Expr* sym(uint32_t idx);
    uint32_t    newSym(const std::string& name, unsigned w, bool uninit);
    const Expr* bin(Op op, const Expr* x, const Expr* y);
    const Expr* ite(const Expr* c, const Expr* t, const Expr* f);
    const Expr* extract(const Expr* x, unsigned lo, unsigned w);
    const Expr* concat(const Expr* hi, const Expr* lo);
    const Expr* zext(const Expr* x, unsigned w);
    const Expr* sext(const Expr* x, unsigned w);
    const Expr* notb(const Expr* x) { return bin(Op::Eq, x, constant(0, 1)); }
    uint64_t    eval(const Expr* e, const std::vector<uint64_t>& model);
    std::string str(const Expr* e, int depth = 6);

    std::vector<SymInfo> syms;

private:
    const Expr* intern(Op op, unsigned w, const Expr* a, const Expr* b, const Expr* c, uint64_t k);
    struct Key
    {
        uint64_t h1;
        const Expr *a, *b, *c;
        uint64_t k;
        bool     operator==(const Key& o) const { return h1 == o.h1 && a == o.a && b == o.b && c == o.c && k == o.k; }
    };
    struct KH
    {
        size_t operator()(const Key& x) const
        {
            uint64_t h = x.h1 * 0x9E3779B97F4A7C15ULL;
            h ^= (uint64_t) x.a + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
            h ^= (uint64_t) x.b + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
            h ^= (uint64_t) x.c + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
            h ^= x.k + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
            return h;
        }
    };
    std::unordered_map<Key, const Expr*, KH> table_;
    uint32_t                                 nextId_ = 0;
    std::vector<uint64_t>                    evalVal_;
    std::vector<uint32_t>                    evalGen_;
    uint32_t                                 gen_ = 0;
    uint64_t evalRec(const Expr* e, const std::vector<uint64_t>& model);
};

enum class Sat { Yes, No, Unknown };

struct SolverStats
{
    uint64_t queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0;
    double   seconds = 0;
};

class Solver
{
public:
    explicit Solver(ExprMgr& m, unsigned timeoutMs);
    // Satisfiability of (constraints relevant to e) and e; on Yes updates 'model' for the symbols involved.
    Sat check(const std::vector<const Expr*>& constraints, const Expr* e, std::vector<uint64_t>& model);
    SolverStats stats;

private:
    Z3_ast tr(const Expr* e);
    ExprMgr&                             m_;
    Z3_context                           ctx_;
    unsigned                             timeoutMs_;
    std::vector<Z3_ast>                  memo_;
    std::vector<Z3_ast>                  symAst_;
    struct Res { Sat r; std::vector<std::pair<uint32_t, uint64_t>> vals; };
    struct VH { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = v.size(); for (auto x : v) h = (h ^ x) * 0x100000001B3ULL + 0x9E37; return h; } };
    std::unordered_map<std::vector<uint32_t>, Res, VH> cache_;
};
}  // namespace csx
