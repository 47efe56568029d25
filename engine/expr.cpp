#include "expr.hpp"
#include <chrono>
#include <set>

namespace csx
{
uint64_t foldBin(Op op, uint64_t x, uint64_t y, unsigned w)
{
    const uint64_t m = maskw(w);
    x &= m;
    y &= m;
    switch (op)
    {
    case Op::Add: return (x + y) & m;
    case Op::Sub: return (x - y) & m;
    case Op::Mul: return (x * y) & m;
    case Op::UDiv: return y ? (x / y) & m : m;
    case Op::URem: return y ? (x % y) & m : x;
    case Op::SDiv:
    {
        const int64_t a = sextw(x, w), b = sextw(y, w);
        if (b == 0) return a >= 0 ? m : 1;
        if (b == -1) return (0 - x) & m;
        return (uint64_t) (a / b) & m;
    }
    case Op::SRem:
    {
        const int64_t a = sextw(x, w), b = sextw(y, w);
        if (b == 0) return x;
        if (b == -1) return 0;
        return (uint64_t) (a % b) & m;
    }
    case Op::And: return x & y;
    case Op::Or: return x | y;
    case Op::Xor: return x ^ y;
    case Op::Shl: return y >= w ? 0 : (x << y) & m;
    case Op::LShr: return y >= w ? 0 : x >> y;
    case Op::AShr: return (uint64_t) (sextw(x, w) >> (y >= w ? w - 1 : y)) & m;
    case Op::Eq: return x == y;
    case Op::Ult: return x < y;
    case Op::Ule: return x <= y;
    case Op::Slt: return sextw(x, w) < sextw(y, w);
    case Op::Sle: return sextw(x, w) <= sextw(y, w);
    default: abort();
    }
}

static bool isCmp(Op op) { return op >= Op::Eq && op <= Op::Sle; }

const Expr* ExprMgr::intern(Op op, unsigned w, const Expr* a, const Expr* b, const Expr* c, uint64_t k)
{
    Key  key{((uint64_t) op << 8) | w, a, b, c, k};
    auto it = table_.find(key);
    if (it != table_.end()) return it->second;
    auto* e    = new Expr;
    e->op      = op;
    e->w       = (uint8_t) w;
    e->id      = nextId_++;
    e->a       = a;
    e->b       = b;
    e->c       = c;
    e->k       = k;
    e->tainted = false;
    static const std::vector<uint32_t> empty;
    if (op == Op::Sym)
    {
        e->syms    = new std::vector<uint32_t>{(uint32_t) k};
        e->tainted = syms[k].uninit;
    }
    else if (op == Op::Const)
        e->syms = &empty;
    else
    {
        const std::vector<uint32_t>* s = a ? a->syms : &empty;
        for (const Expr* o : {b, c})
        {
            if (!o || o->syms == s || o->syms->empty()) continue;
            if (s->empty()) { s = o->syms; continue; }
            if (std::includes(s->begin(), s->end(), o->syms->begin(), o->syms->end())) continue;
            auto* n = new std::vector<uint32_t>;
            std::set_union(s->begin(), s->end(), o->syms->begin(), o->syms->end(), std::back_inserter(*n));
            s = n;
        }
        e->syms    = s;
        e->tainted = (a && a->tainted) || (b && b->tainted) || (c && c->tainted);
    }
    table_.emplace(key, e);
    return e;
}

const Expr* ExprMgr::constant(uint64_t v, unsigned w) { return intern(Op::Const, w, nullptr, nullptr, nullptr, v & maskw(w)); }
const Expr* ExprMgr::sym(uint32_t idx) { return intern(Op::Sym, syms[idx].w, nullptr, nullptr, nullptr, idx); }
uint32_t    ExprMgr::newSym(const std::string& name, unsigned w, bool uninit)
{
    syms.push_back({name, w, uninit});
    return (uint32_t) syms.size() - 1;
}

const Expr* ExprMgr::bin(Op op, const Expr* x, const Expr* y)
{
    const unsigned w  = x->w;
    const unsigned rw = isCmp(op) ? 1 : w;
    const bool     cx = x->op == Op::Const, cy = y->op == Op::Const;
    if (cx && cy) return constant(foldBin(op, x->k, y->k, w), rw);
    const uint64_t m = maskw(w);
    switch (op)
    {
    case Op::Add: case Op::Mul: case Op::And: case Op::Or: case Op::Xor: case Op::Eq:
        if (cx || (!cy && x->id > y->id && op != Op::Add)) return bin(op, y, x);
        break;
    default: break;
    }
    switch (op)
    {
    case Op::Add:
        if (cy && y->k == 0) return x;
        if (cy && x->op == Op::Add && x->b->op == Op::Const) return bin(Op::Add, x->a, constant(x->b->k + y->k, w));
        if (!cy && x->op == Op::Add && x->b->op == Op::Const) return bin(Op::Add, bin(Op::Add, x->a, y), x->b);
        if (!cy && y->op == Op::Add && y->b->op == Op::Const) return bin(Op::Add, bin(Op::Add, x, y->a), y->b);
        if (!cy && x->id > y->id) return bin(Op::Add, y, x);
        // (a - b) + b
        if (x->op == Op::Sub && x->b == y) return x->a;
        if (y->op == Op::Sub && y->b == x) return y->a;
        break;
    case Op::Sub:
        if (x == y) return constant(0, w);
        if (cy) return bin(Op::Add, x, constant(0 - y->k, w));
        if (x->op == Op::Add && x->b->op == Op::Const) return bin(Op::Add, bin(Op::Sub, x->a, y), x->b);
        if (y->op == Op::Add && y->b->op == Op::Const) return bin(Op::Add, bin(Op::Sub, x, y->a), constant(0 - y->b->k, w));
        if (x->op == Op::Add && x->a == y) return x->b;
        if (x->op == Op::Add && x->b == y) return x->a;
        break;
    case Op::Mul:
        if (cy && y->k == 0) return y;
        if (cy && y->k == 1) return x;
        if (cy && (y->k & (y->k - 1)) == 0)
        {
            unsigned s = 0;
            while ((1ULL << s) != y->k) ++s;
            return bin(Op::Shl, x, constant(s, w));
        }
        break;
    case Op::UDiv:
        if (cy && y->k == 1) return x;
        if (cy && y->k && (y->k & (y->k - 1)) == 0)
        {
            unsigned s = 0;
            while ((1ULL << s) != y->k) ++s;
            return bin(Op::LShr, x, constant(s, w));
        }
        break;
    case Op::URem:
        if (cy && y->k && (y->k & (y->k - 1)) == 0) return bin(Op::And, x, constant(y->k - 1, w));
        break;
    case Op::And:
        if (x == y) return x;
        if (cy && y->k == 0) return y;
        if (cy && y->k == m) return x;
        if (cy && x->op == Op::And && x->b->op == Op::Const) return bin(Op::And, x->a, constant(x->b->k & y->k, w));
        if (cy && x->op == Op::ZExt)
        {
            if ((y->k & maskw(x->a->w)) == maskw(x->a->w)) return x;
            return zext(bin(Op::And, x->a, constant(y->k, x->a->w)), w);
        }
        break;
    case Op::Or:
        if (x == y) return x;
        if (cy && y->k == 0) return x;
        if (cy && y->k == m) return y;
        break;
    case Op::Xor:
        if (x == y) return constant(0, w);
        if (cy && y->k == 0) return x;
        if (w == 1 && cy) return bin(Op::Eq, x, constant(0, 1));
        break;
    case Op::Shl: case Op::LShr: case Op::AShr:
        if (cy && y->k == 0) return x;
        if (cx && x->k == 0) return x;
        if (cy && op != Op::AShr && y->k >= w) return constant(0, w);
        break;
    case Op::Eq:
        if (x == y) return constant(1, 1);
        if (cy)
        {
            if (w == 1 && y->k == 1) return x;
            if (w == 1 && y->k == 0 && x->op == Op::Eq && x->w == 1 && x->a->w == 1 && x->b->op == Op::Const && x->b->k == 0) return x->a;
            if (x->op == Op::ZExt)
            {
                if (y->k > maskw(x->a->w)) return constant(0, 1);
                return bin(Op::Eq, x->a, constant(y->k, x->a->w));
            }
            if (x->op == Op::Add && x->b->op == Op::Const) return bin(Op::Eq, x->a, constant(y->k - x->b->k, w));
            if (x->op == Op::Ite && x->b->op == Op::Const && x->c->op == Op::Const)
            {
                const bool t = x->b->k == y->k, f = x->c->k == y->k;
                if (t && f) return constant(1, 1);
                if (!t && !f) return constant(0, 1);
                return t ? x->a : notb(x->a);
            }
            if (x->op == Op::Concat)
                return bin(Op::And, bin(Op::Eq, x->a, constant(y->k >> x->b->w, x->a->w)), bin(Op::Eq, x->b, constant(y->k, x->b->w)));
        }
        if (x->op == Op::ZExt && y->op == Op::ZExt && x->a->w == y->a->w) return bin(Op::Eq, x->a, y->a);
        if (x->op == Op::Add && y->op == Op::Add && x->b == y->b) return bin(Op::Eq, x->a, y->a);
        break;
    case Op::Ult:
        if (x == y) return constant(0, 1);
        if (cy && y->k == 0) return constant(0, 1);
        if (cy && y->k == 1) return bin(Op::Eq, x, constant(0, w));
        if (cx && x->k == m) return constant(0, 1);
        if (cx && x->k == 0) return notb(bin(Op::Eq, y, x));
        if (x->op == Op::ZExt && cy)
        {
            if (y->k > maskw(x->a->w)) return constant(1, 1);
            return bin(Op::Ult, x->a, constant(y->k, x->a->w));
        }
        if (y->op == Op::ZExt && cx)
        {
            if (x->k >= maskw(y->a->w)) return constant(0, 1);
            return bin(Op::Ult, constant(x->k, y->a->w), y->a);
        }
        if (x->op == Op::ZExt && y->op == Op::ZExt && x->a->w == y->a->w) return bin(Op::Ult, x->a, y->a);
        break;
    case Op::Ule: return notb(bin(Op::Ult, y, x));
    case Op::Slt:
        if (x == y) return constant(0, 1);
        if (x->op == Op::ZExt && y->op == Op::ZExt) return bin(Op::Ult, x, y);
        if (x->op == Op::ZExt && cy && !(y->k >> (w - 1))) return bin(Op::Ult, x, y);
        if (x->op == Op::ZExt && cy) return constant(0, 1);
        if (y->op == Op::ZExt && cx && !(x->k >> (w - 1))) return bin(Op::Ult, x, y);
        if (y->op == Op::ZExt && cx) return constant(1, 1);
        break;
    case Op::Sle: return notb(bin(Op::Slt, y, x));
    default: break;
    }
    return intern(op, rw, x, y, nullptr, 0);
}

const Expr* ExprMgr::ite(const Expr* c, const Expr* t, const Expr* f)
{
    if (c->op == Op::Const) return c->k ? t : f;
    if (t == f) return t;
    if (t->w == 1 && t->op == Op::Const && f->op == Op::Const) return t->k ? c : notb(c);
    if (c->op == Op::Eq && c->a->w == 1 && c->b->op == Op::Const && c->b->k == 0) return ite(c->a, f, t);
    return intern(Op::Ite, t->w, c, t, f, 0);
}

const Expr* ExprMgr::extract(const Expr* x, unsigned lo, unsigned w)
{
    if (lo == 0 && w == x->w) return x;
    switch (x->op)
    {
    case Op::Const: return constant(x->k >> lo, w);
    case Op::Extract: return extract(x->a, (unsigned) x->k + lo, w);
    case Op::ZExt:
        if (lo >= x->a->w) return constant(0, w);
        if (lo + w <= x->a->w) return extract(x->a, lo, w);
        return zext(extract(x->a, lo, x->a->w - lo), w);
    case Op::SExt:
        if (lo + w <= x->a->w) return extract(x->a, lo, w);
        if (lo == 0) return sext(x->a, w);
        break;
    case Op::Concat:
        if (lo >= x->b->w) return extract(x->a, lo - x->b->w, w);
        if (lo + w <= x->b->w) return extract(x->b, lo, w);
        return concat(extract(x->a, 0, lo + w - x->b->w), extract(x->b, lo, x->b->w - lo));
    case Op::And: case Op::Or: case Op::Xor: return bin(x->op, extract(x->a, lo, w), extract(x->b, lo, w));
    case Op::Add: case Op::Sub: case Op::Mul:
        if (lo == 0) return bin(x->op, extract(x->a, 0, w), extract(x->b, 0, w));
        break;
    case Op::Ite: return ite(x->a, extract(x->b, lo, w), extract(x->c, lo, w));
    default: break;
    }
    return intern(Op::Extract, w, x, nullptr, nullptr, lo);
}

const Expr* ExprMgr::concat(const Expr* hi, const Expr* lo)
{
    const unsigned w = hi->w + lo->w;
    if (hi->op == Op::Const && lo->op == Op::Const) return constant((hi->k << lo->w) | lo->k, w);
    if (hi->op == Op::Const && hi->k == 0) return zext(lo, w);
    if (hi->op == Op::Extract && lo->op == Op::Extract && hi->a == lo->a && hi->k == lo->k + lo->w) return extract(hi->a, (unsigned) lo->k, w);
    if (hi->op == Op::Extract && hi->a == lo && hi->k == lo->w) return extract(lo, 0, w);
    if (hi->op == Op::Ite && lo->op == Op::Ite && hi->a == lo->a) return ite(hi->a, concat(hi->b, lo->b), concat(hi->c, lo->c));
    return intern(Op::Concat, w, hi, lo, nullptr, 0);
}

const Expr* ExprMgr::zext(const Expr* x, unsigned w)
{
    if (w == x->w) return x;
    if (x->op == Op::Const) return constant(x->k, w);
    if (x->op == Op::ZExt) return zext(x->a, w);
    return intern(Op::ZExt, w, x, nullptr, nullptr, 0);
}

const Expr* ExprMgr::sext(const Expr* x, unsigned w)
{
    if (w == x->w) return x;
    if (x->op == Op::Const) return constant((uint64_t) sextw(x->k, x->w), w);
    if (x->op == Op::ZExt) return zext(x->a, w);
    return intern(Op::SExt, w, x, nullptr, nullptr, 0);
}

uint64_t ExprMgr::eval(const Expr* e, const std::vector<uint64_t>& model)
{
    ++gen_;
    if (evalGen_.size() < nextId_)
    {
        evalGen_.resize(nextId_ + 1024, 0);
        evalVal_.resize(nextId_ + 1024, 0);
    }
    return evalRec(e, model);
}

uint64_t ExprMgr::evalRec(const Expr* e, const std::vector<uint64_t>& model)
{
    if (e->op == Op::Const) return e->k;
    if (e->op == Op::Sym) return (e->k < model.size() ? model[e->k] : 0) & maskw(e->w);
    if (evalGen_[e->id] == gen_) return evalVal_[e->id];
    uint64_t r;
    switch (e->op)
    {
    case Op::Ite: r = evalRec(e->a, model) ? evalRec(e->b, model) : evalRec(e->c, model); break;
    case Op::Extract: r = (evalRec(e->a, model) >> e->k) & maskw(e->w); break;
    case Op::Concat: r = (evalRec(e->a, model) << e->b->w) | evalRec(e->b, model); break;
    case Op::ZExt: r = evalRec(e->a, model); break;
    case Op::SExt: r = (uint64_t) sextw(evalRec(e->a, model), e->a->w) & maskw(e->w); break;
    default: r = foldBin(e->op, evalRec(e->a, model), evalRec(e->b, model), e->a->w); break;
    }
    evalGen_[e->id] = gen_;
    evalVal_[e->id] = r;
    return r;
}

std::string ExprMgr::str(const Expr* e, int d)
{
    static const char* n[] = {"const", "sym", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl",
                              "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "extract", "concat", "zext", "sext"};
    if (e->op == Op::Const) return std::to_string(e->k);
    if (e->op == Op::Sym) return syms[e->k].name;
    if (d == 0) return "...";
    std::string s = std::string("(") + n[(int) e->op];
    for (const Expr* x : {e->a, e->b, e->c})
        if (x) s += " " + str(x, d - 1);
    return s + ")";
}

// ---------------------------------------------------------------------------------------------------------------------

Solver::Solver(ExprMgr& m, unsigned timeoutMs) : m_(m), timeoutMs_(timeoutMs)
{
    Z3_config cfg = Z3_mk_config();
    ctx_          = Z3_mk_context(cfg);
    Z3_del_config(cfg);
}

Z3_ast Solver::tr(const Expr* e)
{
    if (memo_.size() <= e->id) memo_.resize(e->id + 1024, nullptr);
    if (memo_[e->id]) return memo_[e->id];
    Z3_ast   r = nullptr;
    Z3_ast   a = e->a ? tr(e->a) : nullptr, b = e->b ? tr(e->b) : nullptr, c = e->c ? tr(e->c) : nullptr;
    auto     one  = [&]() { return Z3_mk_unsigned_int64(ctx_, 1, Z3_mk_bv_sort(ctx_, 1)); };
    auto     zero = [&]() { return Z3_mk_unsigned_int64(ctx_, 0, Z3_mk_bv_sort(ctx_, 1)); };
    auto     b2bv = [&](Z3_ast x) { return Z3_mk_ite(ctx_, x, one(), zero()); };
    switch (e->op)
    {
    case Op::Const: r = Z3_mk_unsigned_int64(ctx_, e->k, Z3_mk_bv_sort(ctx_, e->w)); break;
    case Op::Sym:
        if (symAst_.size() <= e->k) symAst_.resize(e->k + 64, nullptr);
        r = Z3_mk_const(ctx_, Z3_mk_int_symbol(ctx_, (int) e->k), Z3_mk_bv_sort(ctx_, e->w));
        symAst_[e->k] = r;
        break;
    case Op::Add: r = Z3_mk_bvadd(ctx_, a, b); break;
    case Op::Sub: r = Z3_mk_bvsub(ctx_, a, b); break;
    case Op::Mul: r = Z3_mk_bvmul(ctx_, a, b); break;
    case Op::UDiv: r = Z3_mk_bvudiv(ctx_, a, b); break;
    case Op::SDiv: r = Z3_mk_bvsdiv(ctx_, a, b); break;
    case Op::URem: r = Z3_mk_bvurem(ctx_, a, b); break;
    case Op::SRem: r = Z3_mk_bvsrem(ctx_, a, b); break;
    case Op::And: r = Z3_mk_bvand(ctx_, a, b); break;
    case Op::Or: r = Z3_mk_bvor(ctx_, a, b); break;
    case Op::Xor: r = Z3_mk_bvxor(ctx_, a, b); break;
    case Op::Shl: r = Z3_mk_bvshl(ctx_, a, b); break;
    case Op::LShr: r = Z3_mk_bvlshr(ctx_, a, b); break;
    case Op::AShr: r = Z3_mk_bvashr(ctx_, a, b); break;
    case Op::Eq: r = b2bv(Z3_mk_eq(ctx_, a, b)); break;
    case Op::Ult: r = b2bv(Z3_mk_bvult(ctx_, a, b)); break;
    case Op::Ule: r = b2bv(Z3_mk_bvule(ctx_, a, b)); break;
    case Op::Slt: r = b2bv(Z3_mk_bvslt(ctx_, a, b)); break;
    case Op::Sle: r = b2bv(Z3_mk_bvsle(ctx_, a, b)); break;
    case Op::Ite: r = Z3_mk_ite(ctx_, Z3_mk_eq(ctx_, a, one()), b, c); break;
    case Op::Extract: r = Z3_mk_extract(ctx_, (unsigned) e->k + e->w - 1, (unsigned) e->k, a); break;
    case Op::Concat: r = Z3_mk_concat(ctx_, a, b); break;
    case Op::ZExt: r = Z3_mk_zero_ext(ctx_, e->w - e->a->w, a); break;
    case Op::SExt: r = Z3_mk_sign_ext(ctx_, e->w - e->a->w, a); break;
    }
    if (memo_.size() <= e->id) memo_.resize(e->id + 1024, nullptr);
    memo_[e->id] = r;
    return r;
}

Sat Solver::check(const std::vector<const Expr*>& constraints, const Expr* e, std::vector<uint64_t>& model)
{
    if (e->op == Op::Const) return e->k ? Sat::Yes : Sat::No;
    // Slice: constraints transitively sharing symbols with e.
    std::vector<uint32_t>    S = *e->syms;
    std::vector<const Expr*> rel;
    std::vector<char>        used(constraints.size(), 0);
    bool                     grow = true;
    while (grow)
    {
        grow = false;
        for (size_t i = 0; i < constraints.size(); ++i)
        {
            if (used[i]) continue;
            bool hit = false;
            for (auto s : *constraints[i]->syms)
                if (std::binary_search(S.begin(), S.end(), s)) { hit = true; break; }
            if (!hit) continue;
            used[i] = 1;
            rel.push_back(constraints[i]);
            if (!std::includes(S.begin(), S.end(), constraints[i]->syms->begin(), constraints[i]->syms->end()))
            {
                std::vector<uint32_t> n;
                std::set_union(S.begin(), S.end(), constraints[i]->syms->begin(), constraints[i]->syms->end(), std::back_inserter(n));
                S.swap(n);
                grow = true;
            }
        }
    }
    std::vector<uint32_t> key;
    for (auto* c : rel) key.push_back(c->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    key.push_back(e->id);
    auto it = cache_.find(key);
    if (it == cache_.end())
    {
        const auto t0 = std::chrono::steady_clock::now();
        ++stats.queries;
        Z3_solver s = Z3_mk_solver_for_logic(ctx_, Z3_mk_string_symbol(ctx_, "QF_BV"));
        Z3_solver_inc_ref(ctx_, s);
        Z3_params p = Z3_mk_params(ctx_);
        Z3_params_inc_ref(ctx_, p);
        Z3_params_set_uint(ctx_, p, Z3_mk_string_symbol(ctx_, "timeout"), timeoutMs_);
        Z3_solver_set_params(ctx_, s, p);
        Z3_params_dec_ref(ctx_, p);
        Z3_ast one = Z3_mk_unsigned_int64(ctx_, 1, Z3_mk_bv_sort(ctx_, 1));
        for (auto* c : rel) Z3_solver_assert(ctx_, s, Z3_mk_eq(ctx_, tr(c), one));
        Z3_solver_assert(ctx_, s, Z3_mk_eq(ctx_, tr(e), one));
        Res            res;
        const Z3_lbool r = Z3_solver_check(ctx_, s);
        if (r == Z3_L_TRUE)
        {
            res.r = Sat::Yes;
            ++stats.sat;
            Z3_model mo = Z3_solver_get_model(ctx_, s);
            Z3_model_inc_ref(ctx_, mo);
            for (auto si : S)
            {
                Z3_ast   v   = nullptr;
                uint64_t out = 0;
                Z3_ast sa = si < symAst_.size() && symAst_[si] ? symAst_[si] : tr(m_.sym(si));
                if (Z3_model_eval(ctx_, mo, sa, true, &v)) Z3_get_numeral_uint64(ctx_, v, &out);
                res.vals.emplace_back(si, out);
            }
            Z3_model_dec_ref(ctx_, mo);
        }
        else if (r == Z3_L_FALSE)
        {
            res.r = Sat::No;
            ++stats.unsat;
        }
        else
        {
            res.r = Sat::Unknown;
            ++stats.unknown;
        }
        Z3_solver_dec_ref(ctx_, s);
        stats.seconds += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        it = cache_.emplace(std::move(key), std::move(res)).first;
    }
    else
        ++stats.cacheHits;
    if (it->second.r == Sat::Yes)
        for (auto& kv : it->second.vals)
        {
            if (model.size() <= kv.first) model.resize(kv.first + 1, 0);
            model[kv.first] = kv.second;
        }
    return it->second.r;
}
}  // namespace csx
