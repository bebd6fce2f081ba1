// symx: a small symbolic executor for LLVM bitcode, deciding with Z3 (QF_BV).
//   symx module.bc --entry f [--replace f:g]... [--timeout s] [--max-paths n] [--ctx n]
// Forks on symbolic branches (depth first, incremental solver), exact byte-level memory with object bounds,
// threads with bounded preemption at shared accesses. Primitives recognised by name:
//   vh_nd(bits) vh_assume(c) vh_prove(c,msg) vh_reach(msg) vh_uf(name,a,b) vh_out(name,ptr,n) vh_is_sym(x)
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3.h>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <memory>
#include <chrono>
#include <unordered_map>
#include <cstring>
#include <cstdio>
#include <cstdlib>
using namespace llvm;
typedef unsigned __int128 u128;
typedef uint64_t u64;

static Z3_context Z; static Z3_solver SOLV;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double T0, TLIMIT = 600, solver_time; static u64 nqueries, npaths, nforks, ninst; static bool incomplete; static std::set<std::string> notes;
static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); notes.insert(std::string("z3 error ") + Z3_get_error_msg(c, e)); incomplete = true; }

struct Val;
typedef std::shared_ptr<std::vector<Val>> Agg;
struct Val {
    unsigned w = 0; Z3_ast s = nullptr; u128 c = 0; Agg a;
    bool sym() const { return s != nullptr; }
};
static u128 maskw(unsigned w) { return w >= 128 ? ~(u128) 0 : (((u128) 1 << w) - 1); }
static Val C(unsigned w, u128 v) { Val r; r.w = w; r.c = v & maskw(w); if (w > 128) { fprintf(stderr, "wide\n"); } return r; }
static Z3_sort bvs(unsigned w) { static std::map<unsigned, Z3_sort> m; auto &x = m[w]; if (!x) x = Z3_mk_bv_sort(Z, w); return x; }
static Z3_ast num(unsigned w, u128 v)
{
    if (w <= 64) return Z3_mk_unsigned_int64(Z, (u64) v, bvs(w));
    return Z3_mk_concat(Z, Z3_mk_unsigned_int64(Z, (u64) (v >> 64), bvs(w - 64)), Z3_mk_unsigned_int64(Z, (u64) v, bvs(64)));
}
static Z3_ast ast(Val const &v) { return v.s ? v.s : num(v.w, v.c); }
static Val S(unsigned w, Z3_ast s) { Val r; r.w = w; r.s = s; return r; }
static Z3_ast ONE1, ZERO1, TRUE_, FALSE_;
static Z3_decl_kind kind(Z3_ast a) { if (Z3_get_ast_kind(Z, a) != Z3_APP_AST) return Z3_OP_UNINTERPRETED; return Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, a))); }
static Z3_ast arg(Z3_ast a, unsigned i) { return Z3_get_app_arg(Z, Z3_to_app(Z, a), i); }
static bool isnum(Z3_ast a, u64 *v) { if (Z3_get_ast_kind(Z, a) != Z3_NUMERAL_AST) return false; return Z3_get_numeral_uint64(Z, a, v); }
static Z3_ast tobool(Val const &v)
{
    if (!v.s) return v.c ? TRUE_ : FALSE_;
    if (kind(v.s) == Z3_OP_ITE && arg(v.s, 1) == ONE1 && arg(v.s, 2) == ZERO1) return arg(v.s, 0);
    return Z3_mk_eq(Z, v.s, ONE1);
}
static Val frombool(Z3_ast b) { if (b == TRUE_) return C(1, 1); if (b == FALSE_) return C(1, 0); return S(1, Z3_mk_ite(Z, b, ONE1, ZERO1)); }
static Z3_ast mknot(Z3_ast b) { if (b == TRUE_) return FALSE_; if (b == FALSE_) return TRUE_; if (kind(b) == Z3_OP_NOT) return arg(b, 0); return Z3_mk_not(Z, b); }
static bool boolish(Val const &v) { return !v.s || (kind(v.s) == Z3_OP_ITE && arg(v.s, 1) == ONE1 && arg(v.s, 2) == ZERO1); }

static Val vextract(Val const &v, unsigned lo, unsigned w)
{
    if (lo == 0 && w == v.w) return v;
    if (!v.s) return C(w, v.c >> lo);
    Z3_ast s = v.s;
    Z3_decl_kind k = kind(s);
    if (k == Z3_OP_CONCAT && Z3_get_app_num_args(Z, Z3_to_app(Z, s)) == 2) {
        unsigned wl = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, arg(s, 1)));
        auto mk = [&](Z3_ast x) { Val r; u64 n; unsigned ww = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, x)); if (ww <= 64 && isnum(x, &n)) r = C(ww, n); else r = S(ww, x); return r; };
        if (lo + w <= wl) return vextract(mk(arg(s, 1)), lo, w);
        if (lo >= wl) return vextract(mk(arg(s, 0)), lo - wl, w);
    }
    if (k == Z3_OP_ZERO_EXT) {
        Z3_ast x = arg(s, 0); unsigned wx = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, x));
        if (lo >= wx) return C(w, 0);
        if (lo + w <= wx) return vextract(S(wx, x), lo, w);
    }
    if (k == Z3_OP_EXTRACT) {
        Z3_ast x = arg(s, 0); unsigned wx = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, x));
        unsigned l0 = Z3_get_decl_int_parameter(Z, Z3_get_app_decl(Z, Z3_to_app(Z, s)), 1);
        return vextract(S(wx, x), lo + l0, w);
    }
    return S(w, Z3_mk_extract(Z, lo + w - 1, lo, s));
}
static Val vconcat(Val const &hi, Val const &lo)
{
    if (!hi.s && !lo.s && hi.w + lo.w <= 128) return C(hi.w + lo.w, (hi.c << lo.w) | lo.c);
    if (!hi.s && hi.c == 0 && lo.s) return S(hi.w + lo.w, Z3_mk_zero_ext(Z, hi.w, lo.s));
    if (hi.s && lo.s && kind(hi.s) == Z3_OP_EXTRACT && kind(lo.s) == Z3_OP_EXTRACT && arg(hi.s, 0) == arg(lo.s, 0)) {
        auto par = [&](Z3_ast s, int i) { return Z3_get_decl_int_parameter(Z, Z3_get_app_decl(Z, Z3_to_app(Z, s)), i); };
        if (par(hi.s, 1) == par(lo.s, 0) + 1) {
            Z3_ast x = arg(hi.s, 0);
            return vextract(S(Z3_get_bv_sort_size(Z, Z3_get_sort(Z, x)), x), par(lo.s, 1), hi.w + lo.w);
        }
    }
    return S(hi.w + lo.w, Z3_mk_concat(Z, ast(hi), ast(lo)));
}
static Val vzext(Val const &v, unsigned w) { if (w == v.w) return v; if (!v.s) return C(w, v.c); return S(w, Z3_mk_zero_ext(Z, w - v.w, v.s)); }
static Val vsext(Val const &v, unsigned w)
{
    if (w == v.w) return v;
    if (!v.s) { u128 x = v.c; if ((x >> (v.w - 1)) & 1) x |= ~maskw(v.w); return C(w, x); }
    return S(w, Z3_mk_sign_ext(Z, w - v.w, v.s));
}
static __int128 sx(u128 x, unsigned w) { if (w < 128 && ((x >> (w - 1)) & 1)) x |= ~maskw(w); return (__int128) x; }
static Val vnot1(Val const &v) { return frombool(mknot(tobool(v))); }
static Val vite(Val const &c, Val const &a, Val const &b)
{
    if (!c.s) return c.c ? a : b;
    if (a.a) { Val r; r.a = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < a.a->size(); ++i) r.a->push_back(vite(c, (*a.a)[i], (*b.a)[i])); return r; }
    if (!a.s && !b.s && a.c == b.c) return a;
    if (a.s && a.s == b.s) return a;
    if (a.w == 1 && boolish(a) && boolish(b)) {
        Z3_ast t = tobool(a), f = tobool(b), cc = tobool(c);
        if (t == TRUE_ && f == FALSE_) return c;
        if (t == FALSE_ && f == TRUE_) return vnot1(c);
        Z3_ast x[2];
        if (t == TRUE_) { x[0] = cc; x[1] = f; return frombool(Z3_mk_or(Z, 2, x)); }
        if (f == FALSE_) { x[0] = cc; x[1] = t; return frombool(Z3_mk_and(Z, 2, x)); }
        if (t == FALSE_) { x[0] = mknot(cc); x[1] = f; return frombool(Z3_mk_and(Z, 2, x)); }
        if (f == TRUE_) { x[0] = mknot(cc); x[1] = t; return frombool(Z3_mk_or(Z, 2, x)); }
        return frombool(Z3_mk_ite(Z, cc, t, f));
    }
    return S(a.w, Z3_mk_ite(Z, tobool(c), ast(a), ast(b)));
}
static Val vcmp(CmpInst::Predicate p, Val const &a, Val const &b)
{
    unsigned w = a.w;
    if (!a.s && !b.s) {
        u128 x = a.c, y = b.c; __int128 sa = sx(x, w), sb = sx(y, w); bool r = false;
        switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
        case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = sa < sb; break; case CmpInst::ICMP_SLE: r = sa <= sb; break;
        case CmpInst::ICMP_SGT: r = sa > sb; break; case CmpInst::ICMP_SGE: r = sa >= sb; break; default: break; }
        return C(1, r);
    }
    if (a.s == b.s && a.s) return C(1, p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_SLE || p == CmpInst::ICMP_SGE);
    // (ite c k1 k2) == k3
    if ((p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) && (!a.s || !b.s)) {
        Val const &y = a.s ? a : b; u128 k = a.s ? b.c : a.c;
        Z3_ast s = y.s; u64 n1, n2;
        if (w == 1 && boolish(y)) { bool pos = (k != 0) == (p == CmpInst::ICMP_EQ); return frombool(pos ? tobool(y) : mknot(tobool(y))); }
        if (kind(s) == Z3_OP_ZERO_EXT) {
            Z3_ast x = arg(s, 0); unsigned wx = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, x));
            if (k >> wx) return C(1, p == CmpInst::ICMP_NE);
            return vcmp(p, S(wx, x), C(wx, k));
        }
        if (w <= 64 && kind(s) == Z3_OP_ITE && isnum(arg(s, 1), &n1) && isnum(arg(s, 2), &n2)) {
            bool e1 = n1 == (u64) k, e2 = n2 == (u64) k; Z3_ast r;
            if (e1 && e2) r = TRUE_; else if (!e1 && !e2) r = FALSE_; else r = e1 ? arg(s, 0) : mknot(arg(s, 0));
            return frombool(p == CmpInst::ICMP_EQ ? r : mknot(r));
        }
    }
    Z3_ast x = ast(a), y = ast(b), r;
    switch (p) {
    case CmpInst::ICMP_EQ: r = Z3_mk_eq(Z, x, y); break; case CmpInst::ICMP_NE: r = Z3_mk_not(Z, Z3_mk_eq(Z, x, y)); break;
    case CmpInst::ICMP_ULT: r = Z3_mk_bvult(Z, x, y); break; case CmpInst::ICMP_ULE: r = Z3_mk_bvule(Z, x, y); break;
    case CmpInst::ICMP_UGT: r = Z3_mk_bvult(Z, y, x); break; case CmpInst::ICMP_UGE: r = Z3_mk_bvule(Z, y, x); break;
    case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(Z, x, y); break; case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(Z, x, y); break;
    case CmpInst::ICMP_SGT: r = Z3_mk_bvslt(Z, y, x); break; default: r = Z3_mk_bvsle(Z, y, x); break;
    }
    return frombool(r);
}
struct Unsupported { std::string m; };
static Val vbin(unsigned op, Val const &a, Val const &b)
{
    unsigned w = a.w;
    if (!a.s && !b.s) {
        u128 x = a.c, y = b.c; __int128 sa = sx(x, w), sb = sx(y, w);
        switch (op) {
        case Instruction::Add: return C(w, x + y); case Instruction::Sub: return C(w, x - y); case Instruction::Mul: return C(w, x * y);
        case Instruction::And: return C(w, x & y); case Instruction::Or: return C(w, x | y); case Instruction::Xor: return C(w, x ^ y);
        case Instruction::Shl: return C(w, y >= w ? 0 : x << y); case Instruction::LShr: return C(w, y >= w ? 0 : x >> y);
        case Instruction::AShr: return C(w, (u128) (sa >> (y >= w ? w - 1 : (unsigned) y)));
        case Instruction::UDiv: if (!y) throw Unsupported{"division by zero"}; return C(w, x / y);
        case Instruction::URem: if (!y) throw Unsupported{"division by zero"}; return C(w, x % y);
        case Instruction::SDiv: if (!sb) throw Unsupported{"division by zero"}; return C(w, (u128) (sa / sb));
        case Instruction::SRem: if (!sb) throw Unsupported{"division by zero"}; return C(w, (u128) (sa % sb));
        default: throw Unsupported{"binop"};
        }
    }
    u128 full = maskw(w);
    if (w <= 128) {
        Val const *k = !b.s ? &b : !a.s ? &a : nullptr; Val const &o = !b.s ? a : b;
        if (k) switch (op) {
        case Instruction::Add: if (!k->c) return o; break;
        case Instruction::Sub: if (!b.s && !b.c) return a; break;
        case Instruction::And: if (!k->c) return C(w, 0); if (k->c == full) return o;
            { // low mask
                u128 m = k->c; if ((m & (m + 1)) == 0) { unsigned n = 0; while (m) { ++n; m >>= 1; } return vzext(vextract(o, 0, n), w); } }
            break;
        case Instruction::Or: if (!k->c) return o; if (k->c == full) return C(w, full); break;
        case Instruction::Xor: if (!k->c) return o; if (w == 1) return vnot1(o); break;
        case Instruction::Mul: if (!k->c) return C(w, 0); if (k->c == 1) return o; if (!(k->c & (k->c - 1))) { unsigned n = 0; while (!((k->c >> n) & 1)) ++n; return vbin(Instruction::Shl, o, C(w, n)); } break;
        case Instruction::Shl: if (!b.s) { if (!b.c) return a; if (b.c >= w) return C(w, 0); return vconcat(vextract(a, 0, w - (unsigned) b.c), C((unsigned) b.c, 0)); } break;
        case Instruction::LShr: if (!b.s) { if (!b.c) return a; if (b.c >= w) return C(w, 0); return vzext(vextract(a, (unsigned) b.c, w - (unsigned) b.c), w); } break;
        case Instruction::AShr: if (!b.s) { if (!b.c) return a; unsigned n = b.c >= w ? w - 1 : (unsigned) b.c; return vsext(vextract(a, n, w - n), w); } break;
        case Instruction::UDiv: if (!b.s && !(b.c & (b.c - 1)) && b.c) { unsigned n = 0; while (!((b.c >> n) & 1)) ++n; return vbin(Instruction::LShr, a, C(w, n)); } break;
        case Instruction::URem: if (!b.s && !(b.c & (b.c - 1)) && b.c) return vbin(Instruction::And, a, C(w, b.c - 1)); break;
        default: break;
        }
    }
    if (a.s == b.s && a.s) switch (op) { case Instruction::Sub: case Instruction::Xor: return C(w, 0); case Instruction::And: case Instruction::Or: return a; default: break; }
    if (w == 1 && boolish(a) && boolish(b)) {
        Z3_ast x[2] = { tobool(a), tobool(b) };
        switch (op) {
        case Instruction::And: return frombool(Z3_mk_and(Z, 2, x)); case Instruction::Or: return frombool(Z3_mk_or(Z, 2, x));
        case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return frombool(Z3_mk_xor(Z, x[0], x[1])); case Instruction::Mul: return frombool(Z3_mk_and(Z, 2, x));
        default: break;
        }
    }
    Z3_ast x = ast(a), y = ast(b), r;
    switch (op) {
    case Instruction::Add: r = Z3_mk_bvadd(Z, x, y); break; case Instruction::Sub: r = Z3_mk_bvsub(Z, x, y); break; case Instruction::Mul: r = Z3_mk_bvmul(Z, x, y); break;
    case Instruction::And: r = Z3_mk_bvand(Z, x, y); break; case Instruction::Or: r = Z3_mk_bvor(Z, x, y); break; case Instruction::Xor: r = Z3_mk_bvxor(Z, x, y); break;
    case Instruction::Shl: r = Z3_mk_bvshl(Z, x, y); break; case Instruction::LShr: r = Z3_mk_bvlshr(Z, x, y); break; case Instruction::AShr: r = Z3_mk_bvashr(Z, x, y); break;
    case Instruction::UDiv: r = Z3_mk_bvudiv(Z, x, y); break; case Instruction::URem: r = Z3_mk_bvurem(Z, x, y); break;
    case Instruction::SDiv: r = Z3_mk_bvsdiv(Z, x, y); break; case Instruction::SRem: r = Z3_mk_bvsrem(Z, x, y); break;
    default: throw Unsupported{"binop"};
    }
    return S(w, r);
}
static unsigned fresh_ctr;
static Val fresh(unsigned w, const char *pfx) { char b[64]; snprintf(b, sizeof b, "%s%u", pfx, fresh_ctr++); return S(w, Z3_mk_const(Z, Z3_mk_string_symbol(Z, b), bvs(w))); }

// ---------------------------------------------------------------- memory
struct Cell { uint8_t k = 0; uint8_t c = 0; unsigned idx = 0; Z3_ast s = nullptr; unsigned w = 0; };  // k: 0 uninitialised, 1 concrete, 2 byte idx of s
struct Obj { u64 base, size; bool ro = false, alive = true, heap = false, stackobj = false; int tid = 0; std::string name; std::vector<Cell> b; };
typedef std::shared_ptr<Obj> ObjP;

struct Frame { Function *F; BasicBlock *bb, *prev; BasicBlock::iterator it; std::vector<Val> loc; std::vector<u64> allocas; Instruction *callsite; std::vector<Val> varargs; };
struct Thread { std::vector<Frame> st; int status = 0; /*0 run,1 done,2 joining*/ int join = -1; };
struct State {
    std::map<u64, ObjP> mem; std::vector<Thread> th; int cur = 0; int preempt = 0; bool noswitch = false;
    std::vector<Z3_ast> pc; std::vector<std::pair<Z3_ast, unsigned>> nd; std::map<Z3_ast, u128> eq; u64 nextbase; unsigned depth = 0; bool ncopy = false;
    Z3_model model = nullptr; std::vector<int> sched;
};
static Module *M; static const DataLayout *DL;
static std::map<std::string, std::string> repl;
static std::unordered_map<const Value *, u64> gaddr; static std::map<u64, Function *> faddr;
static std::unordered_map<Function *, std::unordered_map<const Value *, unsigned>> slots;
static std::vector<State *> work; static State *st;
static int CTX = 2; static u64 MAXPATHS = 200000; static bool multithread = false, allshared = false; static unsigned qtimeout = 120000;
static std::set<std::string> reached, executed; static unsigned proofs;
struct Viol { std::string msg, where; std::vector<u128> vals; std::vector<int> sched; };
static std::vector<Viol> viols; static std::set<std::string> violkeys; static std::map<std::string, unsigned> proved;
struct PathEnd {};
struct Reexec {};

// ---------------------------------------------------------------- solver: stack mirrors st->pc
static std::vector<Z3_ast> sstack;
static void sync()
{
    size_t n = 0; while (n < sstack.size() && n < st->pc.size() && sstack[n] == st->pc[n]) ++n;
    if (n < sstack.size()) { Z3_solver_pop(Z, SOLV, sstack.size() - n); sstack.resize(n); }
    for (; n < st->pc.size(); ++n) { Z3_solver_push(Z, SOLV); Z3_solver_assert(Z, SOLV, st->pc[n]); sstack.push_back(st->pc[n]); }
}
static Z3_model lastmodel;
static Z3_lbool check(Z3_ast extra)
{
    if (extra == FALSE_) return Z3_L_FALSE;
    sync();
    double t = now(); ++nqueries;
    Z3_solver_push(Z, SOLV); Z3_solver_assert(Z, SOLV, extra);
    Z3_lbool r = Z3_solver_check(Z, SOLV);
    if (r == Z3_L_TRUE) { lastmodel = Z3_solver_get_model(Z, SOLV); Z3_model_inc_ref(Z, lastmodel); }
    Z3_solver_pop(Z, SOLV, 1);
    if (r == Z3_L_UNDEF) {        // incremental core gave up: one non-incremental run with full preprocessing
        Z3_tactic ta = Z3_mk_tactic(Z, "qfbv"); Z3_tactic_inc_ref(Z, ta);
        Z3_solver o = Z3_mk_solver_from_tactic(Z, ta); Z3_solver_inc_ref(Z, o);
        double left = TLIMIT - (now() - T0); unsigned ms = (unsigned) std::max(1000.0, std::min((double) qtimeout, left * 1000));
        Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), ms); Z3_solver_set_params(Z, o, p); Z3_params_dec_ref(Z, p);
        for (Z3_ast c : st->pc) Z3_solver_assert(Z, o, c);
        Z3_solver_assert(Z, o, extra);
        r = Z3_solver_check(Z, o);
        if (r == Z3_L_TRUE) { lastmodel = Z3_solver_get_model(Z, o); Z3_model_inc_ref(Z, lastmodel); }
        Z3_solver_dec_ref(Z, o); Z3_tactic_dec_ref(Z, ta);
    }
    solver_time += now() - t;
    if (r == Z3_L_UNDEF) { incomplete = true; notes.insert("solver unknown"); }
    return r;
}
static bool meval(Z3_model m, Z3_ast a, u128 *v)
{
    Z3_ast r; if (!Z3_model_eval(Z, m, a, true, &r)) return false;
    unsigned w = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, a));
    u64 x;
    if (w <= 64) { if (!Z3_get_numeral_uint64(Z, r, &x)) return false; *v = x; return true; }
    const char *s = Z3_get_numeral_string(Z, r); u128 t = 0; while (*s) t = t * 10 + (*s++ - '0'); *v = t; return true;
}
static bool mtrue(Z3_model m, Z3_ast a) { Z3_ast r; return m && Z3_model_eval(Z, m, a, true, &r) && Z3_get_bool_value(Z, r) == Z3_L_TRUE; }
static bool mfalse(Z3_model m, Z3_ast a) { Z3_ast r; return m && Z3_model_eval(Z, m, a, true, &r) && Z3_get_bool_value(Z, r) == Z3_L_FALSE; }
static bool feasible(Z3_ast c, Z3_model *mo)
{
    if (c == TRUE_) { *mo = st->model; return true; }
    if (mtrue(st->model, c)) { *mo = st->model; return true; }
    Z3_lbool r = check(c);
    if (r == Z3_L_TRUE) { *mo = lastmodel; return true; }
    if (r == Z3_L_UNDEF) { *mo = nullptr; return true; }
    return false;
}
static void assume(Z3_ast c) { if (c != TRUE_) st->pc.push_back(c); }
static std::string where()
{
    auto &F = st->th[st->cur].st.back(); std::string s = F.F->getName().str();
    if (F.it != F.bb->end()) if (auto &d = F.it->getDebugLoc()) s += ":" + std::to_string(d.getLine());
    return s;
}
static void violation(std::string const &msg, Z3_model m)
{
    std::string key = msg + "@" + where();
    if (!violkeys.insert(key).second) return;
    Viol v; v.msg = msg; v.where = where(); v.sched = st->sched;
    for (auto &n : st->nd) { u128 x = 0; meval(m, n.first, &x); v.vals.push_back(x); }
    viols.push_back(v);
}
static State *forkst() { ++nforks; return new State(*st); }

// ---------------------------------------------------------------- memory ops
static u64 alloc(u64 size, std::string name, bool heap, bool stk)
{
    u64 base = st->nextbase; st->nextbase += (size + 0x1fff) & ~(u64) 0xfff;
    ObjP o = std::make_shared<Obj>(); o->base = base; o->size = size; o->name = name; o->heap = heap; o->stackobj = stk; o->tid = st->cur; o->b.resize(size);
    st->mem[base] = o; return base;
}
static Obj *find(u64 a)
{
    auto it = st->mem.upper_bound(a); if (it == st->mem.begin()) return nullptr; --it;
    Obj *o = it->second.get(); if (a - o->base > o->size) return nullptr; return o;
}
static Obj *wr(Obj *o) { auto &p = st->mem[o->base]; if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return p.get(); }
static Val loadb(Obj *o, u64 off, unsigned n)   // n bytes
{
    bool conc = true; for (unsigned i = 0; i < n && conc; ++i) conc = o->b[off + i].k == 1;
    if (conc && n <= 16) { u128 v = 0; for (unsigned i = n; i-- > 0; ) v = (v << 8) | o->b[off + i].c; return C(8 * n, v); }
    Val r; bool have = false;
    for (unsigned i = 0; i < n; ) {
        if (o->b[off + i].k == 0) { o = wr(o); Val f = fresh(8, "u"); o->b[off + i].k = 2; o->b[off + i].s = f.s; o->b[off + i].idx = 0; o->b[off + i].w = 8; }
        Cell &c = o->b[off + i]; Val part; unsigned len = 1;
        if (c.k == 1) { u128 v = c.c; while (i + len < n && len < 8 && o->b[off + i + len].k == 1) { v |= (u128) o->b[off + i + len].c << (8 * len); ++len; } part = C(8 * len, v); }
        else { while (i + len < n && o->b[off + i + len].k == 2 && o->b[off + i + len].s == c.s && o->b[off + i + len].idx == c.idx + len) ++len; part = vextract(S(c.w, c.s), 8 * c.idx, 8 * len); }
        r = have ? vconcat(part, r) : part; have = true; i += len;
    }
    return r;
}
static void storeb(Obj *o, u64 off, Val const &v0, unsigned n)
{
    Val v = v0; if (v.w < 8 * n) v = vzext(v, 8 * n);
    o = wr(o);
    if (!v.s) { for (unsigned i = 0; i < n; ++i) { Cell &c = o->b[off + i]; c.k = 1; c.c = (uint8_t) (v.c >> (8 * i)); c.s = nullptr; } return; }
    if (kind(v.s) == Z3_OP_ZERO_EXT || kind(v.s) == Z3_OP_CONCAT) { for (unsigned i = 0; i < n; ++i) { Val b = vextract(v, 8 * i, 8); Cell &c = o->b[off + i]; if (b.s) { c.k = 2; c.s = b.s; c.idx = 0; c.w = 8;
                if (kind(b.s) == Z3_OP_EXTRACT) { unsigned lo = Z3_get_decl_int_parameter(Z, Z3_get_app_decl(Z, Z3_to_app(Z, b.s)), 1); Z3_ast x = arg(b.s, 0); unsigned wx = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, x)); if (lo % 8 == 0 && wx % 8 == 0) { c.s = x; c.idx = lo / 8; c.w = wx; } } }
            else { c.k = 1; c.c = (uint8_t) b.c; c.s = nullptr; } } return; }
    for (unsigned i = 0; i < n; ++i) { Cell &c = o->b[off + i]; c.k = 2; c.s = v.s; c.idx = i; c.w = v.w; }
}
// make a symbolic value concrete by forking over all feasible values
static Instruction *curI = nullptr;    // the instruction being executed: forked states execute it again
static u128 concretise(Val const &v, unsigned limit)
{
    if (!v.s) return v.c;
    auto it = st->eq.find(v.s); if (it != st->eq.end()) return it->second;
    std::vector<std::pair<u128, Z3_model>> vals; std::vector<Z3_ast> block;
    while (true) {
        Z3_ast c = block.empty() ? TRUE_ : block.size() == 1 ? block[0] : Z3_mk_and(Z, block.size(), block.data());
        Z3_model m = nullptr;
        if (c == TRUE_ && st->model) m = st->model; else { Z3_lbool r = check(c); if (r != Z3_L_TRUE) break; m = lastmodel; }
        u128 x; if (!meval(m, v.s, &x)) break;
        vals.push_back({x, m}); block.push_back(mknot(Z3_mk_eq(Z, v.s, num(v.w, x))));
        if (vals.size() > limit) { incomplete = true; notes.insert("too many values for a symbolic address/size in " + where()); break; }
    }
    for (auto &p : vals) { State *n = forkst(); n->pc.push_back(Z3_mk_eq(Z, v.s, num(v.w, p.first))); n->eq[v.s] = p.first; n->model = p.second; n->th[n->cur].st.back().it = curI->getIterator(); work.push_back(n); }
    throw PathEnd();
}
static Val memload(Val const &addr, unsigned n)
{
    if (!addr.s) {
        Obj *o = find((u64) addr.c);
        if (!o || !o->alive || (u64) addr.c + n > o->base + o->size) {
            violation(o && !o->alive ? "MEMORY: read from freed memory" : "MEMORY: read out of bounds" , st->model ? st->model : (check(TRUE_), lastmodel)); throw PathEnd(); }
        return loadb(o, (u64) addr.c - o->base, n);
    }
    auto e = st->eq.find(addr.s); if (e != st->eq.end()) return memload(C(64, e->second), n);
    // symbolic address: find the object via a model
    if (!st->model) { if (check(TRUE_) != Z3_L_TRUE) throw PathEnd(); st->model = lastmodel; }
    u128 a; meval(st->model, addr.s, &a); Obj *o = find((u64) a);
    if (o && o->alive && (u64) a + n <= o->base + o->size) {
        Z3_ast in[2] = { Z3_mk_bvule(Z, num(64, o->base), addr.s), Z3_mk_bvule(Z, addr.s, num(64, o->base + o->size - n)) };
        Z3_ast inb = Z3_mk_and(Z, 2, in); Z3_model m;
        bool out = feasible(mknot(inb), &m);
        if (out) { State *ns = forkst(); ns->pc.push_back(mknot(inb)); ns->model = m; work.push_back(ns); assume(inb); if (!mtrue(st->model, inb)) st->model = nullptr; }
        u64 cnt = (o->size - n) / n + 1; u64 step = n;
        Z3_ast al = n > 1 ? Z3_mk_eq(Z, Z3_mk_extract(Z, 2, 0, Z3_mk_bvand(Z, Z3_mk_bvsub(Z, addr.s, num(64, o->base)), num(64, n - 1))), num(3, 0)) : TRUE_;
        if (n & (n - 1)) al = FALSE_;
        if (cnt <= 300 && (al == TRUE_ || check(mknot(al)) == Z3_L_FALSE)) {
            Val r = loadb(o, 0, n);
            for (u64 i = 1; i < cnt; ++i) { o = find((u64) a); Val x = loadb(o, i * step, n); r = vite(frombool(Z3_mk_eq(Z, addr.s, num(64, o->base + i * step))), x, r); }
            return r;
        }
    }
    concretise(addr, 2000); return Val();
}
static void memstore(Val const &addr, Val const &v, unsigned n)
{
    if (!addr.s) {
        Obj *o = find((u64) addr.c);
        if (!o || !o->alive || o->ro || (u64) addr.c + n > o->base + o->size) {
            violation(o && !o->alive ? "MEMORY: write to freed memory" : o && o->ro ? "MEMORY: write to constant" : "MEMORY: write out of bounds", st->model ? st->model : (check(TRUE_), lastmodel)); throw PathEnd(); }
        storeb(o, (u64) addr.c - o->base, v, n); return;
    }
    auto e = st->eq.find(addr.s); if (e != st->eq.end()) { memstore(C(64, e->second), v, n); return; }
    concretise(addr, 2000);
}

// ---------------------------------------------------------------- constants
static Val cval(const Constant *c);
static void initglobal(Obj *o, u64 off, const Constant *c)
{
    Type *t = c->getType(); u64 sz = DL->getTypeStoreSize(t);
    if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) { for (u64 i = 0; i < sz; ++i) { o->b[off + i].k = 1; o->b[off + i].c = 0; } return; }
    if (isa<UndefValue>(c)) return;
    if (auto *d = dyn_cast<ConstantDataSequential>(c)) { u64 es = DL->getTypeAllocSize(d->getElementType()); for (unsigned i = 0; i < d->getNumElements(); ++i) initglobal(o, off + i * es, d->getElementAsConstant(i)); return; }
    if (auto *a = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); ++i) initglobal(o, off + i * es, a->getOperand(i)); return; }
    if (auto *s = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); ++i) initglobal(o, off + sl->getElementOffset(i), s->getOperand(i)); return; }
    if (t->isFloatingPointTy()) { u64 v = cast<ConstantFP>(c)->getValueAPF().bitcastToAPInt().getLimitedValue(); for (u64 i = 0; i < sz && i < 8; ++i) { o->b[off + i].k = 1; o->b[off + i].c = (uint8_t) (v >> (8 * i)); } return; }
    Val v = cval(c); storeb(o, off, v, sz);
}
static u64 gepoff(const GEPOperator *g, std::vector<Val> *dyn);
static unsigned tw(Type *t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; throw Unsupported{"type"}; }
static Val cval(const Constant *c)
{
    if (auto *i = dyn_cast<ConstantInt>(c)) { auto &v = i->getValue(); if (v.getBitWidth() <= 64) return C(v.getBitWidth(), v.getZExtValue()); if (v.getBitWidth() <= 128) return C(v.getBitWidth(), ((u128) v.extractBitsAsZExtValue(v.getBitWidth() - 64, 64) << 64) | v.extractBitsAsZExtValue(64, 0)); throw Unsupported{"wide constant"}; }
    if (isa<ConstantPointerNull>(c)) return C(64, 0);
    if (isa<UndefValue>(c)) {
        Type *t = c->getType();
        if (t->isStructTy() || t->isArrayTy()) { Val r; r.a = std::make_shared<std::vector<Val>>(); unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); for (unsigned i = 0; i < n; ++i) r.a->push_back(cval(UndefValue::get(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType()))); return r; }
        return C(tw(t), 0);
    }
    if (isa<GlobalValue>(c)) { auto it = gaddr.find(c); if (it != gaddr.end()) return C(64, it->second); throw Unsupported{"global " + c->getName().str()}; }
    if (auto *f = dyn_cast<ConstantFP>(c)) return C(tw(c->getType()), f->getValueAPF().bitcastToAPInt().getLimitedValue());
    if (isa<ConstantAggregateZero>(c)) { Type *t = c->getType(); Val r; r.a = std::make_shared<std::vector<Val>>(); unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); for (unsigned i = 0; i < n; ++i) r.a->push_back(cval(cast<ConstantAggregateZero>(c)->getElementValue(i))); return r; }
    if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) { Val r; r.a = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < c->getNumOperands(); ++i) r.a->push_back(cval(cast<Constant>(c->getOperand(i)))); return r; }
    if (auto *d = dyn_cast<ConstantDataSequential>(c)) { Val r; r.a = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < d->getNumElements(); ++i) r.a->push_back(cval(d->getElementAsConstant(i))); return r; }
    if (auto *e = dyn_cast<ConstantExpr>(c)) {
        if (auto *g = dyn_cast<GEPOperator>(e)) { Val b = cval(cast<Constant>(g->getPointerOperand())); APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) throw Unsupported{"const gep"}; return C(64, b.c + off.getZExtValue()); }
        switch (e->getOpcode()) {
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: { Val v = cval(e->getOperand(0)); unsigned w = tw(e->getType()); return w < v.w ? vextract(v, 0, w) : vzext(v, w); }
        case Instruction::Trunc: return vextract(cval(e->getOperand(0)), 0, tw(e->getType()));
        case Instruction::Add: case Instruction::Sub: return vbin(e->getOpcode(), cval(e->getOperand(0)), cval(e->getOperand(1)));
        default: break;
        }
    }
    throw Unsupported{"constant"};
}

// ---------------------------------------------------------------- execution
static std::unordered_map<const Value *, unsigned> &slotmap(Function *F)
{
    auto &m = slots[F];
    if (m.empty()) { unsigned n = 0; for (auto &a : F->args()) m[&a] = n++; for (auto &b : *F) for (auto &i : b) if (!i.getType()->isVoidTy()) m[&i] = n++; m[nullptr] = n; }
    return m;
}
static Val get(Frame &f, const Value *v)
{
    if (auto *c = dyn_cast<Constant>(v)) return cval(c);
    Val const &x = f.loc[slotmap(f.F)[v]]; if (!x.w && !x.a && !isa<PoisonValue>(v)) throw Unsupported{"value used before it was computed"};
    return x;
}
static void set(Frame &f, const Value *v, Val const &x) { if (!v->getType()->isVoidTy()) f.loc[slotmap(f.F)[v]] = x; }
static void pushframe(Function *F, std::vector<Val> const &args, Instruction *cs)
{
    if (F->isDeclaration()) throw Unsupported{"call to undefined function " + F->getName().str()};
    executed.insert(F->getName().str());
    Frame f; f.F = F; f.bb = &F->getEntryBlock(); f.prev = nullptr; f.it = f.bb->begin(); f.callsite = cs;
    f.loc.resize(slotmap(F)[nullptr] + 1);
    unsigned n = 0; for (auto &a : F->args()) { (void) a; if (n < args.size()) f.loc[n] = args[n]; ++n; }
    for (size_t i = F->arg_size(); i < args.size(); ++i) f.varargs.push_back(args[i]);
    // byval arguments get their own copy
    for (auto &a : F->args()) if (a.hasByValAttr()) { u64 sz = DL->getTypeAllocSize(a.getParamByValType()); u64 b = alloc(sz, "byval", false, true); Obj *src = find((u64) f.loc[a.getArgNo()].c), *dst = find(b); u64 so = (u64) f.loc[a.getArgNo()].c - src->base; for (u64 i = 0; i < sz; ++i) dst->b[i] = src->b[so + i]; f.loc[a.getArgNo()] = C(64, b); f.allocas.push_back(b); }
    st->th[st->cur].st.push_back(std::move(f));
    if (st->th[st->cur].st.size() > 400) throw Unsupported{"recursion too deep"};
}
static void jump(Frame &f, BasicBlock *to)
{
    f.prev = f.bb; f.bb = to; f.it = to->begin();
    std::vector<std::pair<const Value *, Val>> ph;
    for (auto &p : to->phis()) ph.push_back({&p, get(f, p.getIncomingValueForBlock(f.prev))});
    for (auto &x : ph) set(f, x.first, x.second);
    f.it = to->getFirstNonPHIOrDbg()->getIterator();
}
static std::string cstr(Val const &p) { std::string s; u64 a = (u64) p.c; while (true) { Val b = memload(C(64, a++), 1); if (b.s || !b.c) break; s += (char) b.c; } return s; }
static bool memshared(Val const &addr) { if (!multithread) return false; if (addr.s) return true; Obj *o = find((u64) addr.c); return o && !(o->stackobj && o->tid == st->cur) && !o->ro; }
// scheduling point: fork one state per enabled other thread (bounded preemptions)
static void schedpoint(bool must)
{
    if (st->noswitch) { st->noswitch = false; return; }
    if (!multithread) return;
    std::vector<int> en; for (size_t i = 0; i < st->th.size(); ++i) { auto &t = st->th[i]; if ((int) i == st->cur) continue; if (t.status == 0 || (t.status == 2 && st->th[t.join].status == 1)) en.push_back(i); }
    if (must) {
        if (en.empty()) { violation("DEADLOCK", st->model ? st->model : (check(TRUE_), lastmodel)); throw PathEnd(); }
        for (size_t k = 1; k < en.size(); ++k) { State *n = forkst(); n->cur = en[k]; n->th[en[k]].status = 0; n->sched.push_back(en[k]); work.push_back(n); }
        st->cur = en[0]; st->th[en[0]].status = 0; st->sched.push_back(en[0]); throw Reexec();
    }
    if (st->preempt < CTX) for (int k : en) { State *n = forkst(); n->cur = k; n->th[k].status = 0; n->preempt++; n->sched.push_back(k); work.push_back(n); }
}
static Val doalloc(Val const &n, bool zero)
{
    u128 sz = concretise(n, 50); u64 b = alloc((u64) sz, "heap", true, false);
    if (zero) for (auto &c : find(b)->b) { c.k = 1; c.c = 0; }
    return C(64, b);
}
static void copymem(u64 d, u64 s, u64 n)
{
    if (!n) return;
    Obj *so = find(s), *dd = find(d);
    if (!so || !so->alive || s + n > so->base + so->size) { violation("MEMORY: copy source out of bounds", st->model ? st->model : (check(TRUE_), lastmodel)); throw PathEnd(); }
    if (!dd || !dd->alive || dd->ro || d + n > dd->base + dd->size) { violation("MEMORY: copy destination out of bounds", st->model ? st->model : (check(TRUE_), lastmodel)); throw PathEnd(); }
    for (u64 i = 0; i < n; ++i) if (so->b[s - so->base + i].k == 0) loadb(so, s - so->base + i, 1), so = find(s);
    std::vector<Cell> t(so->b.begin() + (s - so->base), so->b.begin() + (s - so->base + n));
    dd = wr(find(d)); std::copy(t.begin(), t.end(), dd->b.begin() + (d - dd->base));
}
static std::vector<std::pair<std::string, Z3_ast>> dagouts; static std::string dagfile;
static void dumpdag()
{
    FILE *f = fopen(dagfile.c_str(), "w"); if (!f) return;
    std::unordered_map<Z3_ast, unsigned> id; unsigned ctr = 0;
    for (auto &o : dagouts) {
        std::vector<std::pair<Z3_ast, bool>> stk = {{o.second, false}};
        while (!stk.empty()) {
            auto [a, done] = stk.back(); stk.pop_back();
            if (id.count(a)) continue;
            if (Z3_get_ast_kind(Z, a) == Z3_NUMERAL_AST) { id[a] = ctr; fprintf(f, "%u num %u %s\n", ctr++, Z3_get_bv_sort_size(Z, Z3_get_sort(Z, a)), Z3_get_numeral_string(Z, a)); continue; }
            Z3_app ap = Z3_to_app(Z, a); unsigned n = Z3_get_app_num_args(Z, ap);
            if (!done) { stk.push_back({a, true}); for (unsigned i = 0; i < n; ++i) if (!id.count(Z3_get_app_arg(Z, ap, i))) stk.push_back({Z3_get_app_arg(Z, ap, i), false}); continue; }
            Z3_func_decl d = Z3_get_app_decl(Z, ap); Z3_sort so = Z3_get_sort(Z, a); unsigned w = Z3_get_sort_kind(Z, so) == Z3_BV_SORT ? Z3_get_bv_sort_size(Z, so) : 0;
            id[a] = ctr; fprintf(f, "%u %s %u", ctr++, n ? Z3_get_symbol_string(Z, Z3_get_decl_name(Z, d)) : (std::string("var:") + Z3_get_symbol_string(Z, Z3_get_decl_name(Z, d))).c_str(), w);
            unsigned np = Z3_get_decl_num_parameters(Z, d); fprintf(f, " [");
            for (unsigned i = 0; i < np; ++i) fprintf(f, "%s%d", i ? "," : "", Z3_get_decl_parameter_kind(Z, d, i) == Z3_PARAMETER_INT ? Z3_get_decl_int_parameter(Z, d, i) : -1);
            fprintf(f, "]"); for (unsigned i = 0; i < n; ++i) fprintf(f, " %u", id[Z3_get_app_arg(Z, ap, i)]); fprintf(f, "\n");
        }
        fprintf(f, "out %s %u\n", o.first.c_str(), id[o.second]);
    }
    fclose(f);
}
static bool builtin(std::string const &n, std::vector<Val> &A, Val *r, Instruction *I)
{
    if (n == "vh_nd") { unsigned w = (unsigned) A[0].c; Val x = fresh(w, "nd"); st->nd.push_back({x.s, w}); *r = vzext(x, 64); return true; }
    if (n == "vh_assume") {
        Z3_ast c = tobool(vcmp(CmpInst::ICMP_NE, A[0], C(A[0].w, 0)));
        if (c == FALSE_) throw PathEnd();
        if (c == TRUE_) return true;
        Z3_model m; if (!feasible(c, &m)) throw PathEnd();
        assume(c); st->model = m; return true;
    }
    if (n == "vh_prove") {
        Z3_ast c = tobool(vcmp(CmpInst::ICMP_NE, A[0], C(A[0].w, 0))); std::string msg = "PROP: " + cstr(A[1]);
        ++proofs; proved[msg]++;
        if (c == TRUE_) return true;
        Z3_ast nc = mknot(c);
        Z3_lbool q;
        if (mtrue(st->model, nc)) { lastmodel = st->model; q = Z3_L_TRUE; } else q = check(nc);
        if (q == Z3_L_TRUE) { violation(msg, lastmodel); throw PathEnd(); }
        return true;
    }
    if (n == "vh_reach") { reached.insert(cstr(A[0])); return true; }
    if (n == "vh_is_sym") { *r = C(32, A[0].sym()); return true; }
    if (n == "vh_fork") { *r = C(A[0].w, concretise(A[0], 5000)); return true; }      // one path per feasible value
    if (n == "vh_tid") { *r = C(32, st->cur); return true; }
    if (n == "vh_uf") {
        static std::map<std::vector<Z3_ast>, Z3_ast> memo; static std::map<std::string, Z3_ast> names;
        std::string fn = cstr(A[0]); std::vector<Z3_ast> key = { (Z3_ast) Z3_mk_string_symbol(Z, fn.c_str()) }; for (size_t i = 1; i < A.size(); ++i) key.push_back(ast(A[i]));
        auto &x = memo[key]; if (!x) x = fresh(64, fn.c_str()).s; *r = S(64, x); return true;
    }
    if (n == "vh_in") {      // vh_in(name, ptr, words): fresh 64-bit symbols name_0.. in memory
        std::string nm = cstr(A[0]); u64 k = (u64) A[2].c;
        for (u64 i = 0; i < k; ++i) { std::string q = nm + "_" + std::to_string(i); Val x = S(64, Z3_mk_const(Z, Z3_mk_string_symbol(Z, q.c_str()), bvs(64))); st->nd.push_back({x.s, 64}); memstore(vbin(Instruction::Add, A[1], C(64, 8 * i)), x, 8); }
        return true;
    }
    if (n == "vh_out") {     // vh_out(name, ptr, words): the terms of these words go to the DAG file
        std::string nm = cstr(A[0]); u64 k = (u64) A[2].c;
        for (u64 i = 0; i < k; ++i) { Val v = memload(vbin(Instruction::Add, A[1], C(64, 8 * i)), 8); dagouts.push_back({nm + "_" + std::to_string(i), ast(v)}); }
        return true;
    }
    if (n == "malloc") { *r = doalloc(A[0], false); return true; }
    if (n == "calloc") { *r = doalloc(vbin(Instruction::Mul, A[0], A[1]), true); return true; }
    if (n == "free") { u128 a = concretise(A[0], 10); if (a) { Obj *o = find((u64) a); if (!o || o->base != (u64) a || !o->heap || !o->alive) { violation("MEMORY: invalid free", st->model ? st->model : (check(TRUE_), lastmodel)); throw PathEnd(); } wr(o)->alive = false; } return true; }
    if (n == "memcpy" || n == "memmove") { copymem((u64) concretise(A[0], 100), (u64) concretise(A[1], 100), (u64) concretise(A[2], 300)); *r = A[0]; return true; }
    if (n == "memset") { u64 k = (u64) concretise(A[2], 300), d = (u64) concretise(A[0], 100); Val b = vextract(A[1], 0, 8); for (u64 i = 0; i < k; ++i) memstore(C(64, d + i), b, 1); *r = A[0]; return true; }
    if (n == "memcmp" || n == "bcmp") {
        u64 k = (u64) concretise(A[2], 300); Val res = C(32, 0);
        for (u64 i = k; i-- > 0; ) { Val a = memload(vbin(Instruction::Add, A[0], C(64, i)), 1), b = memload(vbin(Instruction::Add, A[1], C(64, i)), 1);
            res = vite(vcmp(CmpInst::ICMP_EQ, a, b), res, vite(vcmp(CmpInst::ICMP_ULT, a, b), C(32, (u128) -1), C(32, 1))); }
        *r = res; return true;
    }
    if (n == "strlen") { u64 a = (u64) concretise(A[0], 10), k = 0; while (true) { Val b = memload(C(64, a + k), 1); if (b.s) { u128 z = concretise(b, 256); if (!z) break; } else if (!b.c) break; ++k; } *r = C(64, k); return true; }
    if (n == "abort" || n == "exit" || n == "_exit" || n == "__assert_fail") { throw PathEnd(); }
    if (n == "pthread_create") {
        multithread = true; int id = st->th.size(); memstore(A[0], C(64, id), 8);
        Function *F = faddr.count((u64) A[2].c) ? faddr[(u64) A[2].c] : nullptr; if (!F) throw Unsupported{"thread function"};
        int save = st->cur; st->th.emplace_back(); st->cur = id; pushframe(F, {A[3]}, nullptr); st->cur = save; *r = C(32, 0); return true;
    }
    if (n == "pthread_join") { int id = (int) concretise(A[0], 100); if (st->th[id].status != 1) { auto &t = st->th[st->cur]; t.status = 2; t.join = id; t.st.back().it = I->getIterator(); schedpoint(true); } *r = C(32, 0); return true; }
    return false;
}
static void docall(Frame &f, CallBase *I)
{
    std::vector<Val> A; for (auto &a : I->args()) { if (a->getType()->isMetadataTy()) return; A.push_back(get(f, a)); }
    Function *F = I->getCalledFunction();
    if (!F) {
        if (I->isInlineAsm()) { if (I->getType()->isVoidTy()) return; throw Unsupported{"inline asm"}; }
        Val p = get(f, I->getCalledOperand()); u64 a = (u64) concretise(p, 10); if (!faddr.count(a)) throw Unsupported{"indirect call"}; F = faddr[a];
    }
    std::string n = F->getName().str();
    auto rp = repl.find(n);
    if (rp == repl.end() && F->hasLocalLinkage()) { size_t d = n.rfind('.'); if (d != std::string::npos && n.find_first_not_of("0123456789", d + 1) == std::string::npos) rp = repl.find(n.substr(0, d)); }   // static functions renamed by the linker
    if (rp != repl.end()) { Function *G = M->getFunction(rp->second); if (!G) throw Unsupported{"stub " + rp->second + " missing"}; F = G; n = G->getName().str(); }
    if (F->isIntrinsic()) {
        unsigned w = I->getType()->isIntegerTy() ? I->getType()->getIntegerBitWidth() : 0; Val r;
        switch (F->getIntrinsicID()) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::dbg_label: case Intrinsic::stackrestore: case Intrinsic::vaend: return;
        case Intrinsic::stacksave: set(f, I, C(64, 0)); return;
        case Intrinsic::memcpy: case Intrinsic::memmove: builtin("memcpy", A, &r, I); return;
        case Intrinsic::memset: builtin("memset", A, &r, I); return;
        case Intrinsic::expect: set(f, I, A[0]); return;
        case Intrinsic::objectsize: set(f, I, C(w, (u128) -1)); return;
        case Intrinsic::umin: set(f, I, vite(vcmp(CmpInst::ICMP_ULT, A[0], A[1]), A[0], A[1])); return;
        case Intrinsic::umax: set(f, I, vite(vcmp(CmpInst::ICMP_UGT, A[0], A[1]), A[0], A[1])); return;
        case Intrinsic::smin: set(f, I, vite(vcmp(CmpInst::ICMP_SLT, A[0], A[1]), A[0], A[1])); return;
        case Intrinsic::smax: set(f, I, vite(vcmp(CmpInst::ICMP_SGT, A[0], A[1]), A[0], A[1])); return;
        case Intrinsic::abs: set(f, I, vite(vcmp(CmpInst::ICMP_SLT, A[0], C(w, 0)), vbin(Instruction::Sub, C(w, 0), A[0]), A[0])); return;
        case Intrinsic::usub_sat: set(f, I, vite(vcmp(CmpInst::ICMP_ULT, A[0], A[1]), C(w, 0), vbin(Instruction::Sub, A[0], A[1]))); return;
        case Intrinsic::bswap: { Val x = vextract(A[0], 0, 8); for (unsigned i = 1; i < w / 8; ++i) x = vconcat(x, vextract(A[0], 8 * i, 8)); set(f, I, x); return; }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            if (A[2].s) throw Unsupported{"symbolic funnel shift"};
            unsigned k = (unsigned) (A[2].c % w); bool L = F->getIntrinsicID() == Intrinsic::fshl; if (!L) k = (w - k) % w;
            if (!k) { set(f, I, L ? A[0] : A[1]); return; }
            set(f, I, vconcat(vextract(A[0], 0, w - k), vextract(A[1], w - k, k))); return; }
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: {
            bool add = F->getIntrinsicID() == Intrinsic::uadd_with_overflow; Val s = vbin(add ? Instruction::Add : Instruction::Sub, A[0], A[1]);
            Val o = add ? vcmp(CmpInst::ICMP_ULT, s, A[0]) : vcmp(CmpInst::ICMP_ULT, A[0], A[1]); r.a = std::make_shared<std::vector<Val>>(std::vector<Val>{s, o}); set(f, I, r); return; }
        case Intrinsic::vastart: {
            u64 ar = alloc(8 * f.varargs.size() + 8, "varargs", false, true); for (size_t i = 0; i < f.varargs.size(); ++i) memstore(C(64, ar + 8 * i), vzext(f.varargs[i], 64), 8);
            memstore(A[0], C(32, 48), 4); memstore(vbin(Instruction::Add, A[0], C(64, 4)), C(32, 176), 4); memstore(vbin(Instruction::Add, A[0], C(64, 8)), C(64, ar), 8); memstore(vbin(Instruction::Add, A[0], C(64, 16)), C(64, 0), 8); return; }
        case Intrinsic::trap: throw PathEnd();
        case Intrinsic::ctpop: { Val x = C(w, 0); for (unsigned i = 0; i < w; ++i) x = vbin(Instruction::Add, x, vzext(vextract(A[0], i, 1), w)); set(f, I, x); return; }
        default: throw Unsupported{"intrinsic " + n};
        }
    }
    Val r; 
    if (F->isDeclaration() || n.substr(0, 3) == "vh_" || n == "memcpy" || n == "memset" || n == "memcmp") if (builtin(n, A, &r, I)) { if (!I->getType()->isVoidTy()) { unsigned w = tw(I->getType()); if (r.w > w) r = vextract(r, 0, w); if (r.w == 0) r = C(w, 0); set(f, I, r); } return; }
    pushframe(F, A, I);
}
static bool step()    // one instruction; false when the path is complete
{
    Thread &T = st->th[st->cur]; Frame &f = T.st.back();
    Instruction *I = &*f.it; curI = I; ++f.it; ++ninst;
    switch (I->getOpcode()) {
    case Instruction::Br: {
        auto *b = cast<BranchInst>(I); if (b->isUnconditional()) { jump(f, b->getSuccessor(0)); return true; }
        Val c = get(f, b->getCondition());
        if (!c.s) { jump(f, b->getSuccessor(c.c ? 0 : 1)); return true; }
        Z3_ast t = tobool(c), n = mknot(t); Z3_model mt = nullptr, mn = nullptr;
        bool ft = feasible(t, &mt), fn = ft ? feasible(n, &mn) : true;
        if (!ft) mn = st->model;
        if (ft && fn) { State *o = forkst(); o->pc.push_back(n); o->model = mn; jump(o->th[o->cur].st.back(), b->getSuccessor(1)); work.push_back(o); assume(t); st->model = mt; jump(f, b->getSuccessor(0)); }
        else if (ft) jump(f, b->getSuccessor(0)); else jump(f, b->getSuccessor(1));
        return true; }
    case Instruction::Switch: {
        auto *s = cast<SwitchInst>(I); Val c = get(f, s->getCondition());
        if (c.s) { auto e = st->eq.find(c.s); if (e != st->eq.end()) c = C(c.w, e->second); }
        if (!c.s) { for (auto &k : s->cases()) if (k.getCaseValue()->getZExtValue() == (u64) c.c) { jump(f, k.getCaseSuccessor()); return true; } jump(f, s->getDefaultDest()); return true; }
        std::map<BasicBlock *, std::vector<Z3_ast>> by; std::vector<Z3_ast> def; std::vector<BasicBlock *> order;
        for (auto &k : s->cases()) { Z3_ast q = Z3_mk_eq(Z, c.s, num(c.w, k.getCaseValue()->getZExtValue())); if (!by.count(k.getCaseSuccessor())) order.push_back(k.getCaseSuccessor()); by[k.getCaseSuccessor()].push_back(q); def.push_back(mknot(q)); }
        std::vector<std::pair<Z3_ast, BasicBlock *>> alts; for (auto *bb : order) { auto &v = by[bb]; alts.push_back({v.size() == 1 ? v[0] : Z3_mk_or(Z, v.size(), v.data()), bb}); }
        alts.push_back({def.size() == 1 ? def[0] : Z3_mk_and(Z, def.size(), def.data()), s->getDefaultDest()});
        State *base = st; std::vector<State *> outs;
        for (auto &a : alts) { Z3_model m; if (feasible(a.first, &m)) { State *o = forkst(); o->pc.push_back(a.first); o->model = m; jump(o->th[o->cur].st.back(), a.second); outs.push_back(o); } }
        (void) base; for (auto *o : outs) work.push_back(o);
        throw PathEnd(); }
    case Instruction::Ret: {
        Val r; bool has = I->getNumOperands() > 0; if (has) r = get(f, I->getOperand(0));
        for (u64 a : f.allocas) { auto it = st->mem.find(a); if (it != st->mem.end()) { Obj *o = wr(it->second.get()); o->alive = false; o->b.clear(); o->b.shrink_to_fit(); o->size = 0; st->mem.erase(it->first); } }
        Instruction *cs = f.callsite; T.st.pop_back();
        if (T.st.empty()) {
            if (st->cur == 0) return false;
            T.status = 1; st->noswitch = false;
            std::vector<int> en; for (size_t i = 0; i < st->th.size(); ++i) { auto &t = st->th[i]; if (t.status == 0 || (t.status == 2 && st->th[t.join].status == 1)) en.push_back(i); }
            if (en.empty()) throw PathEnd();
            for (size_t k = 1; k < en.size(); ++k) { State *n = forkst(); n->cur = en[k]; n->th[en[k]].status = 0; n->sched.push_back(en[k]); work.push_back(n); }
            st->cur = en[0]; st->th[en[0]].status = 0; st->sched.push_back(en[0]); return true;
        }
        if (has && cs) set(T.st.back(), cs, r);
        return true; }
    case Instruction::Unreachable: violation("UNREACHABLE: control reached an undefined point", st->model ? st->model : (check(TRUE_), lastmodel)); throw PathEnd();
    case Instruction::Alloca: {
        auto *a = cast<AllocaInst>(I); Val n = get(f, a->getArraySize()); u64 cnt = (u64) concretise(n, 50);
        u64 b = alloc(cnt * DL->getTypeAllocSize(a->getAllocatedType()), a->getName().str(), false, true); f.allocas.push_back(b); set(f, I, C(64, b)); return true; }
    case Instruction::Load: {
        Val p = get(f, I->getOperand(0)); bool at = cast<LoadInst>(I)->isAtomic() || cast<LoadInst>(I)->isVolatile();
        if (multithread && (at || allshared) && memshared(p)) { --f.it; schedpoint(false); ++f.it; }
        Type *t = I->getType(); 
        if (t->isStructTy() || t->isArrayTy()) throw Unsupported{"aggregate load"};
        unsigned w = tw(t), n = (w + 7) / 8; Val v = memload(p, n); if (v.w > w) v = vextract(v, 0, w); set(f, I, v); return true; }
    case Instruction::Store: {
        Val p = get(f, I->getOperand(1)), v = get(f, I->getOperand(0)); bool at = cast<StoreInst>(I)->isAtomic() || cast<StoreInst>(I)->isVolatile();
        if (multithread && (at || allshared) && memshared(p)) { --f.it; schedpoint(false); ++f.it; }
        if (v.a) throw Unsupported{"aggregate store"};
        memstore(p, v, (v.w + 7) / 8); return true; }
    case Instruction::AtomicRMW: {
        auto *a = cast<AtomicRMWInst>(I); Val p = get(f, a->getPointerOperand()), v = get(f, a->getValOperand());
        if (multithread) { --f.it; schedpoint(false); ++f.it; }
        Val old = memload(p, (v.w + 7) / 8), nv; if (old.w > v.w) old = vextract(old, 0, v.w);
        switch (a->getOperation()) { case AtomicRMWInst::Add: nv = vbin(Instruction::Add, old, v); break; case AtomicRMWInst::Sub: nv = vbin(Instruction::Sub, old, v); break; case AtomicRMWInst::Xchg: nv = v; break;
        case AtomicRMWInst::And: nv = vbin(Instruction::And, old, v); break; case AtomicRMWInst::Or: nv = vbin(Instruction::Or, old, v); break; default: throw Unsupported{"atomicrmw"}; }
        memstore(p, nv, (v.w + 7) / 8); set(f, I, old); return true; }
    case Instruction::AtomicCmpXchg: {
        auto *a = cast<AtomicCmpXchgInst>(I); Val p = get(f, a->getPointerOperand()), e = get(f, a->getCompareOperand()), v = get(f, a->getNewValOperand());
        if (multithread) { --f.it; schedpoint(false); ++f.it; }
        Val old = memload(p, (v.w + 7) / 8); if (old.w > v.w) old = vextract(old, 0, v.w);
        Val ok = vcmp(CmpInst::ICMP_EQ, old, e); memstore(p, vite(ok, v, old), (v.w + 7) / 8);
        Val r; r.a = std::make_shared<std::vector<Val>>(std::vector<Val>{old, ok}); set(f, I, r); return true; }
    case Instruction::Fence: return true;
    case Instruction::GetElementPtr: {
        auto *g = cast<GEPOperator>(I); Val b = get(f, g->getPointerOperand());
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
            if (StructType *s = gi.getStructTypeOrNull()) { u64 o = DL->getStructLayout(s)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); b = vbin(Instruction::Add, b, C(64, o)); }
            else { Val ix = vsext(get(f, gi.getOperand()), 64); u64 es = DL->getTypeAllocSize(gi.getIndexedType()); b = vbin(Instruction::Add, b, vbin(Instruction::Mul, ix, C(64, es))); }
        }
        set(f, I, b); return true; }
    case Instruction::ICmp: set(f, I, vcmp(cast<ICmpInst>(I)->getPredicate(), get(f, I->getOperand(0)), get(f, I->getOperand(1)))); return true;
    case Instruction::Select: set(f, I, vite(get(f, I->getOperand(0)), get(f, I->getOperand(1)), get(f, I->getOperand(2)))); return true;
    case Instruction::ZExt: set(f, I, vzext(get(f, I->getOperand(0)), tw(I->getType()))); return true;
    case Instruction::SExt: set(f, I, vsext(get(f, I->getOperand(0)), tw(I->getType()))); return true;
    case Instruction::Trunc: set(f, I, vextract(get(f, I->getOperand(0)), 0, tw(I->getType()))); return true;
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: { Val v = get(f, I->getOperand(0)); unsigned w = tw(I->getType()); set(f, I, w < v.w ? vextract(v, 0, w) : vzext(v, w)); return true; }
    case Instruction::Freeze: set(f, I, get(f, I->getOperand(0))); return true;
    case Instruction::ExtractValue: { Val v = get(f, I->getOperand(0)); for (unsigned k : cast<ExtractValueInst>(I)->indices()) { Val t = (*v.a)[k]; v = t; } set(f, I, v); return true; }
    case Instruction::InsertValue: { auto *iv = cast<InsertValueInst>(I); if (iv->getNumIndices() != 1) throw Unsupported{"insertvalue"}; Val v = get(f, I->getOperand(0)); Val r; r.a = std::make_shared<std::vector<Val>>(*v.a); (*r.a)[*iv->idx_begin()] = get(f, I->getOperand(1)); set(f, I, r); return true; }
    case Instruction::Call: docall(f, cast<CallBase>(I)); return true;
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
        Val b = get(f, I->getOperand(1)); if (!b.s && !b.c) { violation("DIVISION by zero", st->model ? st->model : (check(TRUE_), lastmodel)); throw PathEnd(); }
        set(f, I, vbin(I->getOpcode(), get(f, I->getOperand(0)), b)); return true; }
    default:
        if (I->isBinaryOp() && I->getType()->isIntegerTy()) { set(f, I, vbin(I->getOpcode(), get(f, I->getOperand(0)), get(f, I->getOperand(1)))); return true; }
        throw Unsupported{std::string("instruction ") + I->getOpcodeName()};
    }
}
static std::string js(std::string const &s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char) c < 32) r += ' '; else r += c; } return r + "\""; }
int main(int argc, char **argv)
{
    T0 = now(); std::string entry = "harness", file; u64 maxviol = 6;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--entry") entry = argv[++i]; else if (a == "--replace") { std::string s = argv[++i]; size_t p = s.find(':'); repl[s.substr(0, p)] = s.substr(p + 1); }
        else if (a == "--timeout") TLIMIT = atof(argv[++i]); else if (a == "--max-paths") MAXPATHS = atoll(argv[++i]); else if (a == "--ctx") CTX = atoi(argv[++i]);
        else if (a == "--allshared") allshared = true; else if (a == "--dag") dagfile = argv[++i]; else if (a == "--qtimeout") qtimeout = atoi(argv[++i]); else file = a;
    }
    LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(file, err, ctx); if (!mod) { err.print("symx", errs()); return 3; }
    M = mod.get(); DL = &M->getDataLayout();
    Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context(cfg); Z3_set_error_handler(Z, zerr);
    SOLV = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")); Z3_solver_inc_ref(Z, SOLV);
    { Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), std::min(qtimeout, 5000u)); Z3_solver_set_params(Z, SOLV, p); }
    ONE1 = num(1, 1); ZERO1 = num(1, 0); TRUE_ = Z3_mk_true(Z); FALSE_ = Z3_mk_false(Z);
    st = new State(); st->nextbase = 0x100000; 
    u64 fa = 0x1000; for (auto &F : *M) { gaddr[&F] = fa; faddr[fa] = &F; fa += 16; }
    for (auto &G : M->globals()) { u64 sz = G.getValueType()->isSized() ? (u64) DL->getTypeAllocSize(G.getValueType()) : 0; gaddr[&G] = alloc(sz, G.getName().str(), false, false); }
    for (auto &A : M->aliases()) if (auto *o = A.getAliaseeObject()) gaddr[&A] = gaddr[o];
    try {
        for (auto &G : M->globals()) { Obj *o = find(gaddr[&G]); if (G.hasInitializer()) { initglobal(o, 0, G.getInitializer()); o->ro = G.isConstant(); } }
        Function *E = M->getFunction(entry); if (!E || E->isDeclaration()) throw Unsupported{"entry " + entry + " missing"};
        st->th.emplace_back(); pushframe(E, {}, nullptr);
        if (check(TRUE_) == Z3_L_TRUE) st->model = lastmodel;
        work.push_back(st);
    } catch (Unsupported &u) { incomplete = true; notes.insert("unsupported: " + u.m); }
    while (!work.empty()) {
        if (viols.size() >= maxviol) { notes.insert("stopped after several violations"); incomplete = true; break; }
        if (now() - T0 > TLIMIT) { incomplete = true; notes.insert("time limit"); break; }
        if (npaths >= MAXPATHS) { incomplete = true; notes.insert("path limit"); break; }
        st = work.back(); work.pop_back();
        unsigned k = 0;
        while (true) {
            try { if (!step()) { ++npaths; break; } if ((++k & 0xfff) == 0 && now() - T0 > TLIMIT) { incomplete = true; notes.insert("time limit"); break; } }
            catch (PathEnd &) { ++npaths; break; }
            catch (Reexec &) { continue; }
            catch (Unsupported &u) { incomplete = true; notes.insert("unsupported: " + u.m + " at " + where()); break; }
        }
        delete st;
    }
    if (!dagfile.empty()) dumpdag();
    printf("{\"paths\":%llu,\"forks\":%llu,\"instructions\":%llu,\"queries\":%llu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"incomplete\":%s,\"proofs\":%u,", (unsigned long long) npaths, (unsigned long long) nforks, (unsigned long long) ninst, (unsigned long long) nqueries, solver_time, now() - T0, incomplete ? "true" : "false", proofs);
    auto list = [](const char *n, std::set<std::string> const &s) { printf("\"%s\":[", n); bool f = true; for (auto &x : s) { printf("%s%s", f ? "" : ",", js(x).c_str()); f = false; } printf("],"); };
    list("notes", notes); list("reached", reached); list("functions", executed);
    printf("\"violations\":["); bool fi = true;
    for (auto &v : viols) {
        printf("%s{\"msg\":%s,\"where\":%s,\"vals\":[", fi ? "" : ",", js(v.msg).c_str(), js(v.where).c_str()); fi = false;
        for (size_t i = 0; i < v.vals.size(); ++i) printf("%s\"%llx\"", i ? "," : "", (unsigned long long) v.vals[i]);
        printf("],\"sched\":["); for (size_t i = 0; i < v.sched.size(); ++i) printf("%s%d", i ? "," : "", v.sched[i]); printf("]}");
    }
    printf("]}\n"); return 0;
}
