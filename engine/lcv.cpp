// lcv - deductive verifier for contract translation units compiled to LLVM IR.
//
// Each entry function (vc_*) states a contract over real library code: it establishes the
// precondition (vp_assume, vp_choice, vp_sym), calls the function under contract and states the
// postcondition (vp_assert).  The verifier derives one obligation per assertion, memory access,
// object-lifetime event, branch on possibly indeterminate data, noexcept boundary, frame and leak
// condition on every path, and discharges it (concretely, by term rewriting, or with z3).
// All paths are covered: a path is identified by its vector of decisions (nondeterministic
// choices and feasible symbolic branches), and the decision tree is enumerated completely.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <z3++.h>
#include <unordered_map>
#include <map>
#include <set>
#include <deque>
#include <vector>
#include <string>
#include <memory>
#include <chrono>
#include <cstring>
#include <cstdio>
#include <sstream>
#include <algorithm>
#include <fstream>
using namespace llvm;
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

static u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }
static u64 mix(u64 a, u64 b, u64 c) {
    u64 h = a * 0x9E3779B97F4A7C15ull;
    h ^= h >> 29; h += b; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; h += c; h *= 0x94D049BB133111EBull; h ^= h >> 31;
    return h;
}
struct Unsupported { std::string why; };
static std::string demang(const std::string& s) { return llvm::demangle(s); }

// ------------------------------------------------------------------ terms
enum EOp : u8 { E_VAR, E_K, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
    E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT, E_ITE, E_UF };
struct Node { EOp op; u8 w; int a, b, c; u64 k; };
struct Arena {
    std::vector<Node> n;
    std::map<std::tuple<int,int,int,int,int,u64>, int> cons;
    int mk(EOp op, unsigned w, int a, int b, int c, u64 k) {
        auto key = std::make_tuple((int)op, (int)w, a, b, c, k);
        auto it = cons.find(key); if (it != cons.end()) return it->second;
        n.push_back(Node{op, (u8)w, a, b, c, k}); int id = (int)n.size() - 1; cons[key] = id; return id;
    }
    int K(u64 v, unsigned w) { return mk(E_K, w, -1, -1, -1, v & maskw(w)); }
    bool isK(int e) { return n[e].op == E_K; }
    int notb(int e) { return bin(E_XOR, e, K(1, 1)); }
    int bin(EOp op, int a, int b) {
        unsigned w = n[a].w;
        if (isK(a) && isK(b)) { u64 r; if (fold(op, w, n[a].k, n[b].k, r)) return K(r, cmp(op) ? 1 : w); }
        switch (op) {
        case E_EQ: if (a == b) return K(1, 1);
            if (isK(a)) std::swap(a, b);
            if (isK(b) && w == 1) return n[b].k ? a : notb(a);
            if (isK(b) && n[a].op == E_ZEXT) { unsigned sw = n[n[a].a].w; if (n[b].k & ~maskw(sw)) return K(0, 1); return bin(E_EQ, n[a].a, K(n[b].k, sw)); }
            if (!isK(b) && a > b) std::swap(a, b);
            break;
        case E_ULT: case E_SLT: if (a == b) return K(0, 1); break;
        case E_ULE: case E_SLE: if (a == b) return K(1, 1); break;
        case E_XOR: if (a == b) return K(0, w); if (isK(a)) std::swap(a, b);
            if (isK(b) && n[b].k == 0) return a;
            if (isK(b) && n[a].op == E_XOR && isK(n[a].b)) return bin(E_XOR, n[a].a, K(n[n[a].b].k ^ n[b].k, w));
            break;
        case E_AND: if (a == b) return a; if (isK(a)) std::swap(a, b); if (isK(b)) { if (n[b].k == 0) return b; if (n[b].k == maskw(w)) return a; } break;
        case E_OR: if (a == b) return a; if (isK(a)) std::swap(a, b); if (isK(b)) { if (n[b].k == 0) return a; if (n[b].k == maskw(w)) return b; } break;
        case E_ADD: if (isK(a)) std::swap(a, b); if (isK(b) && n[b].k == 0) return a; break;
        case E_SUB: if (a == b) return K(0, w); if (isK(b) && n[b].k == 0) return a; break;
        case E_MUL: if (isK(a)) std::swap(a, b); if (isK(b) && n[b].k == 1) return a; if (isK(b) && n[b].k == 0) return b; break;
        case E_SHL: case E_LSHR: case E_ASHR: if (isK(b) && n[b].k == 0) return a; break;
        default: break;
        }
        return mk(op, cmp(op) ? 1 : w, a, b, -1, 0);
    }
    static bool cmp(EOp o) { return o >= E_EQ && o <= E_SLE; }
    static bool fold(EOp op, unsigned w, u64 x, u64 y, u64& r) {
        i64 sxx = sx(x, w), syy = sx(y, w);
        switch (op) {
        case E_ADD: r = x + y; return true; case E_SUB: r = x - y; return true; case E_MUL: r = x * y; return true;
        case E_UDIV: if (!y) return false; r = x / y; return true; case E_UREM: if (!y) return false; r = x % y; return true;
        case E_SDIV: if (!y || syy == -1) return false; r = (u64)(sxx / syy); return true;
        case E_SREM: if (!y || syy == -1) return false; r = (u64)(sxx % syy); return true;
        case E_AND: r = x & y; return true; case E_OR: r = x | y; return true; case E_XOR: r = x ^ y; return true;
        case E_SHL: r = y >= w ? 0 : x << y; return true; case E_LSHR: r = y >= w ? 0 : x >> y; return true;
        case E_ASHR: r = (u64)(sxx >> (y >= w ? w - 1 : y)); return true;
        case E_EQ: r = x == y; return true; case E_ULT: r = x < y; return true; case E_ULE: r = x <= y; return true;
        case E_SLT: r = sxx < syy; return true; case E_SLE: r = sxx <= syy; return true;
        default: return false;
        }
    }
    int ext(EOp op, int a, unsigned w) {
        if (n[a].w == w) return a;
        if (isK(a)) return K(op == E_ZEXT ? n[a].k : (u64)sx(n[a].k, n[a].w), w);
        if (op == E_ZEXT && n[a].op == E_ZEXT) return ext(E_ZEXT, n[a].a, w);
        return mk(op, w, a, -1, -1, 0);
    }
    int extract(int a, unsigned lo, unsigned w) {
        if (lo == 0 && w == n[a].w) return a;
        if (isK(a)) return K(n[a].k >> lo, w);
        if (n[a].op == E_ZEXT) { unsigned sw = n[n[a].a].w; if (lo == 0 && w >= sw) return ext(E_ZEXT, n[a].a, w); if (lo >= sw) return K(0, w); if (lo + w <= sw) return extract(n[a].a, lo, w); }
        if (n[a].op == E_SEXT && lo == 0 && w <= n[n[a].a].w) return extract(n[a].a, 0, w);
        if (n[a].op == E_EXTRACT) return extract(n[a].a, lo + (unsigned)n[a].k, w);
        if (n[a].op == E_CONCAT) { unsigned lw = n[n[a].b].w; if (lo + w <= lw) return extract(n[a].b, lo, w); if (lo >= lw) return extract(n[a].a, lo - lw, w); }
        return mk(E_EXTRACT, w, a, -1, -1, lo);
    }
    int concat(int hi, int lo) {
        unsigned w = n[hi].w + n[lo].w;
        if (isK(hi) && isK(lo)) return K((n[hi].k << n[lo].w) | n[lo].k, w);
        if (n[hi].op == E_EXTRACT && n[lo].op == E_EXTRACT && n[hi].a == n[lo].a && n[hi].k == n[lo].k + n[lo].w) return extract(n[hi].a, (unsigned)n[lo].k, w);
        if (isK(hi) && n[hi].k == 0) return ext(E_ZEXT, lo, w);
        return mk(E_CONCAT, w, hi, lo, -1, 0);
    }
    int ite(int c, int a, int b) {
        if (isK(c)) return n[c].k ? a : b; if (a == b) return a;
        if (n[a].w == 1 && isK(a) && isK(b)) return n[a].k ? c : notb(c);
        return mk(E_ITE, n[a].w, c, a, b, 0);
    }
};
static Arena AR;

static std::string dumpDir; static int dumpN;   // --dump: keep every query answered "unsat" for a second solver
static z3::context* Z;
static std::vector<std::unique_ptr<z3::expr>> zcache;
static z3::func_decl* zuf;
static z3::expr toz(int e) {
    if ((int)zcache.size() <= e) zcache.resize(AR.n.size());
    if (zcache[e]) return *zcache[e];
    Node x = AR.n[e]; z3::expr r(*Z);
    auto B = [&](z3::expr b) { return z3::ite(b, Z->bv_val(1, 1), Z->bv_val(0, 1)); };
    switch (x.op) {
    case E_VAR: r = Z->bv_const(("s" + std::to_string(x.k)).c_str(), x.w); break;
    case E_K: r = Z->bv_val((uint64_t)x.k, x.w); break;
    case E_ADD: r = toz(x.a) + toz(x.b); break; case E_SUB: r = toz(x.a) - toz(x.b); break; case E_MUL: r = toz(x.a) * toz(x.b); break;
    case E_UDIV: r = z3::udiv(toz(x.a), toz(x.b)); break; case E_SDIV: r = toz(x.a) / toz(x.b); break;
    case E_UREM: r = z3::urem(toz(x.a), toz(x.b)); break; case E_SREM: r = z3::srem(toz(x.a), toz(x.b)); break;
    case E_AND: r = toz(x.a) & toz(x.b); break; case E_OR: r = toz(x.a) | toz(x.b); break; case E_XOR: r = toz(x.a) ^ toz(x.b); break;
    case E_SHL: r = z3::shl(toz(x.a), toz(x.b)); break; case E_LSHR: r = z3::lshr(toz(x.a), toz(x.b)); break; case E_ASHR: r = z3::ashr(toz(x.a), toz(x.b)); break;
    case E_EQ: r = B(toz(x.a) == toz(x.b)); break; case E_ULT: r = B(z3::ult(toz(x.a), toz(x.b))); break; case E_ULE: r = B(z3::ule(toz(x.a), toz(x.b))); break;
    case E_SLT: r = B(z3::slt(toz(x.a), toz(x.b))); break; case E_SLE: r = B(z3::sle(toz(x.a), toz(x.b))); break;
    case E_ZEXT: r = z3::zext(toz(x.a), x.w - AR.n[x.a].w); break; case E_SEXT: r = z3::sext(toz(x.a), x.w - AR.n[x.a].w); break;
    case E_EXTRACT: r = toz(x.a).extract((unsigned)x.k + x.w - 1, (unsigned)x.k); break;
    case E_CONCAT: r = z3::concat(toz(x.a), toz(x.b)); break;
    case E_ITE: r = z3::ite(toz(x.a) == Z->bv_val(1, 1), toz(x.b), toz(x.c)); break;
    case E_UF: { z3::expr_vector av(*Z); av.push_back(Z->bv_val((uint64_t)x.k, 64)); av.push_back(toz(x.a)); av.push_back(toz(x.b)); r = (*zuf)(av); break; }
    }
    if ((int)zcache.size() <= e) zcache.resize(AR.n.size());
    zcache[e].reset(new z3::expr(r)); return r;
}
// evaluation under an assignment of the variables; uninterpreted functions read as mix()
typedef std::vector<u64> Asg;
static u64 defsym(u64 k, u64 salt) { return salt == 0 ? 1001 + 7 * k : salt == 1 ? 5 : mix(k, salt, 77); }
static u64 evalE(int e, const Asg* as, u64 salt, std::unordered_map<int, u64>& memo) {
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    Node x = AR.n[e]; u64 r = 0;
    auto A = [&](int q) { return evalE(q, as, salt, memo); };
    switch (x.op) {
    case E_VAR: r = (as && x.k < as->size()) ? (*as)[x.k] : defsym(x.k, salt); r &= maskw(x.w); break;
    case E_K: r = x.k; break;
    case E_ZEXT: r = A(x.a); break; case E_SEXT: r = (u64)sx(A(x.a), AR.n[x.a].w); break;
    case E_EXTRACT: r = A(x.a) >> x.k; break; case E_CONCAT: r = (A(x.a) << AR.n[x.b].w) | A(x.b); break;
    case E_ITE: r = A(x.a) ? A(x.b) : A(x.c); break;
    case E_UF: r = mix(x.k, A(x.a), A(x.b)); break;
    default: { u64 p = A(x.a), q = A(x.b); unsigned w = AR.n[x.a].w;
        if (!Arena::fold(x.op, w, p, q, r)) { if (x.op == E_UDIV) r = maskw(w); else if (x.op == E_UREM || x.op == E_SREM) r = p; else r = sx(p, w) < 0 ? 1 : maskw(w); if (x.op == E_SDIV && q == maskw(w)) r = (u64)(-(i64)p); if (x.op == E_SREM && q == maskw(w)) r = 0; } }
    }
    r &= maskw(x.w); memo[e] = r; return r;
}

// ------------------------------------------------------------------ values and memory
enum VK : u8 { V_UNDEF, V_INT, V_SYM, V_PTR, V_AGG, V_BYTES };
struct Val;
struct Byte { u32 v = 0; u8 idx = 0; };
struct Val {
    VK k = V_UNDEF; u8 w = 0; int reg = 0; i64 x = 0; // INT: x=bits; SYM: x=term id; PTR: reg,x=offset
    std::shared_ptr<std::vector<Val>> agg; std::shared_ptr<std::vector<Byte>> by;
    static Val undef(unsigned w) { Val v; v.w = (u8)std::min(w, 255u); return v; }
    static Val I(u64 b, unsigned w) { Val v; v.k = V_INT; v.w = (u8)w; v.x = (i64)(b & maskw(w)); return v; }
    static Val S(int e) { if (AR.isK(e)) return I(AR.n[e].k, AR.n[e].w); Val v; v.k = V_SYM; v.w = AR.n[e].w; v.x = e; return v; }
    static Val P(int r, i64 o) { Val v; v.k = V_PTR; v.w = 64; v.reg = r; v.x = o; return v; }
    int term() const { return k == V_INT ? AR.K((u64)x, w) : (int)x; }
    bool num() const { return k == V_INT || k == V_SYM; }
};
enum RK : u8 { R_NULL, R_STACK, R_HEAP, R_BOX, R_GLOBAL, R_FN, R_EXC, R_OPAQUE };
struct Obj { i64 off; i64 size; int tid; };
struct Region { RK kind = R_NULL; bool alive = true; bool ro = false; i64 size = 0; unsigned align = 1; std::vector<Byte> b; std::vector<Obj> objs;
    Function* fn = nullptr; GlobalVariable* gv = nullptr; const Instruction* site = nullptr; u32 born = 0; };

struct CInst { unsigned op; Instruction* I; int dst; std::vector<int> ops; unsigned w = 0; int bi = 0; unsigned align = 1; i64 size = 0; i64 goff = 0; bool gconst = false; };
enum BI { B_NONE, B_INTERP, B_IGNORE, B_MEMCPY, B_MEMSET, B_LSTART, B_LEND, B_TYPEIDFOR, B_EXPECT, B_TRAP,
    B_CHOICE, B_SYM, B_ASSUME, B_ASSERT, B_COVER, B_BORN, B_DIE, B_USE, B_ISLIVE, B_LIVETOTAL, B_ALLOC, B_FREE, B_HEAPTOTAL, B_BOX, B_UNBOX, B_UF, B_INSIDE, B_ALIGNED,
    B_GEN, B_MARK, B_FRAMEB, B_FRAMEA, B_FRAMEE, B_IMAGE, B_LEARN, B_CONTRACTS, B_ENGINE, B_INV, B_ANYLIVE, B_OPAQUE, B_SAMEREG, B_FORGET, B_LIVEIN, B_FAILMARK,
    B_CXAALLOC, B_CXAFREE, B_CXATHROW, B_CXABEGIN, B_CXAEND, B_CXARETHROW, B_CXAGETPTR, B_TERMINATE, B_STRCMP, B_STRLEN, B_MEMCMP, B_GUARDACQ, B_GUARDREL, B_UNKNOWN, B_UNSUP, B_MALLOC, B_CFREE, B_UNCAUGHT };
struct CBlock { BasicBlock* bb; std::vector<CInst> phis, in; };
struct FnInfo { Function* F; int nslots = 0; std::vector<CBlock> blocks; std::unordered_map<BasicBlock*, int> bidx; std::unordered_map<const Value*, int> slot; std::vector<Constant*> consts;
    std::vector<Val> cvals; std::vector<u8> cok; bool compiled = false; int bi = B_NONE; bool lib = false; bool libset = false; std::string file; unsigned line = 0; u64 execs = 0; };

static Module* M; static const DataLayout* DL;
static std::unordered_map<Function*, FnInfo*> FN;
static std::string repoRoot = "/repo/";

static int builtinOf(Function* F) {
    StringRef n = F->getName();
    if (F->isIntrinsic()) {
        switch (F->getIntrinsicID()) {
        case Intrinsic::lifetime_start: return B_LSTART; case Intrinsic::lifetime_end: return B_LEND;
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return B_MEMCPY;
        case Intrinsic::memset: return B_MEMSET;
        case Intrinsic::eh_typeid_for: return B_TYPEIDFOR;
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return B_EXPECT;
        case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: return B_TRAP;
        case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: return B_IGNORE;
        default: return B_UNSUP;
        }
    }
    static std::map<std::string, int> t = {
        {"vp_choice", B_CHOICE}, {"vp_sym", B_SYM}, {"vp_assume", B_ASSUME}, {"vp_assert_", B_ASSERT}, {"vp_cover", B_COVER}, {"vp_born", B_BORN}, {"vp_die", B_DIE}, {"vp_use", B_USE},
        {"vp_is_live", B_ISLIVE}, {"vp_live_total", B_LIVETOTAL}, {"vp_alloc", B_ALLOC}, {"vp_free", B_FREE}, {"vp_heap_total", B_HEAPTOTAL}, {"vp_box", B_BOX}, {"vp_unbox", B_UNBOX},
        {"vp_uf", B_UF}, {"vp_inside", B_INSIDE}, {"vp_aligned", B_ALIGNED}, {"vp_gen", B_GEN}, {"vp_mark", B_MARK}, {"vp_frame_begin", B_FRAMEB}, {"vp_frame_allow", B_FRAMEA}, {"vp_frame_end", B_FRAMEE},
        {"vp_image", B_IMAGE}, {"vp_learn", B_LEARN}, {"vp_contracts", B_CONTRACTS}, {"vp_symbolic", B_ENGINE}, {"vp_opaque", B_OPAQUE}, {"vp_live_in", B_LIVEIN}, {"vp_forget", B_FORGET},
        {"__cxa_allocate_exception", B_CXAALLOC}, {"__cxa_free_exception", B_CXAFREE}, {"__cxa_throw", B_CXATHROW}, {"__cxa_begin_catch", B_CXABEGIN}, {"__cxa_end_catch", B_CXAEND},
        {"__cxa_rethrow", B_CXARETHROW}, {"__cxa_get_exception_ptr", B_CXAGETPTR}, {"_ZSt9terminatev", B_TERMINATE}, {"abort", B_TERMINATE}, {"__assert_fail", B_TERMINATE}, {"__clang_call_terminate", B_TERMINATE},
        {"_ZSt10unexpectedv", B_TERMINATE}, {"__cxa_call_unexpected", B_TERMINATE}, {"__cxa_bad_cast", B_TERMINATE}, {"__cxa_bad_typeid", B_TERMINATE}, {"__cxa_pure_virtual", B_TERMINATE}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_TERMINATE},
        {"strcmp", B_STRCMP}, {"strlen", B_STRLEN}, {"memcmp", B_MEMCMP}, {"__cxa_guard_acquire", B_GUARDACQ}, {"__cxa_guard_release", B_GUARDREL}, {"__cxa_guard_abort", B_GUARDREL},
        {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"malloc", B_MALLOC}, {"free", B_CFREE}, {"__cxa_atexit", B_IGNORE},
        {"_ZNSt9exceptionD2Ev", B_IGNORE}, {"_ZNSt9exceptionD1Ev", B_IGNORE}, {"_ZNSt9bad_allocD1Ev", B_IGNORE}, {"_ZNSt9bad_allocD2Ev", B_IGNORE}, {"_ZNSt8bad_castD2Ev", B_IGNORE},
        {"_ZSt18uncaught_exceptionv", B_UNCAUGHT}, {"_ZSt19uncaught_exceptionsv", B_UNCAUGHT},
    };
    auto it = t.find(n.str());
    if (it != t.end()) return it->second;
    if (F->isDeclaration()) return B_UNKNOWN;
    return B_INTERP;
}
static FnInfo* getFn(Function* F) {
    auto it = FN.find(F); if (it != FN.end()) return it->second;
    FnInfo* fi = new FnInfo; fi->F = F; fi->bi = builtinOf(F); FN[F] = fi;
    if (auto* sp = F->getSubprogram()) { std::string f = sp->getFilename().str(); if (!f.empty() && f[0] != '/') f = sp->getDirectory().str() + "/" + f; fi->file = f; fi->line = sp->getLine(); fi->lib = f.compare(0, repoRoot.size(), repoRoot) == 0; }
    return fi;
}
static void compileFn(FnInfo* fi) {
    if (fi->compiled) return; fi->compiled = true;
    Function* F = fi->F; int s = 0;
    for (auto& a : F->args()) fi->slot[&a] = s++;
    for (auto& B : *F) for (auto& I : B) if (!I.getType()->isVoidTy()) fi->slot[&I] = s++;
    fi->nslots = s;
    std::unordered_map<const Value*, int> cidx;
    auto opnd = [&](Value* v) -> int {
        auto it = fi->slot.find(v); if (it != fi->slot.end()) return it->second;
        auto* c = dyn_cast<Constant>(v);
        if (!c) return INT32_MIN;
        auto jt = cidx.find(v); if (jt != cidx.end()) return -1 - jt->second;
        int id = (int)fi->consts.size(); fi->consts.push_back(c); cidx[v] = id; return -1 - id;
    };
    int bi = 0;
    for (auto& B : *F) { fi->bidx[&B] = bi++; fi->blocks.push_back(CBlock{&B, {}, {}}); }
    for (auto& cb : fi->blocks) for (auto& I : *cb.bb) {
        CInst c; c.op = I.getOpcode(); c.I = &I; c.dst = I.getType()->isVoidTy() ? -1 : fi->slot[&I];
        if (I.getType()->isIntegerTy()) c.w = I.getType()->getIntegerBitWidth();
        for (auto& o : I.operands()) c.ops.push_back(opnd(o.get()));
        if (auto* L = dyn_cast<LoadInst>(&I)) { c.align = (unsigned)L->getAlign().value(); c.size = (i64)DL->getTypeStoreSize(L->getType()); }
        else if (auto* S = dyn_cast<StoreInst>(&I)) { c.align = (unsigned)S->getAlign().value(); c.size = (i64)DL->getTypeStoreSize(S->getValueOperand()->getType()); }
        else if (auto* A = dyn_cast<AllocaInst>(&I)) { c.align = (unsigned)A->getAlign().value(); c.size = (i64)DL->getTypeAllocSize(A->getAllocatedType()); if (auto* n = dyn_cast<ConstantInt>(A->getArraySize())) c.size *= (i64)n->getZExtValue(); else c.size = -1; }
        else if (auto* G = dyn_cast<GetElementPtrInst>(&I)) { APInt off(64, 0); if (G->accumulateConstantOffset(*DL, off)) { c.gconst = true; c.goff = off.getSExtValue(); } }
        else if (auto* C = dyn_cast<CallBase>(&I)) { if (auto* f = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts())) c.bi = getFn(f)->bi; }
        if (isa<PHINode>(I)) cb.phis.push_back(c); else cb.in.push_back(c);
    }
    fi->cvals.resize(fi->consts.size()); fi->cok.assign(fi->consts.size(), 0);
}

// ------------------------------------------------------------------ statistics over all paths of an entry
struct Failure { std::string kind, msg; std::vector<std::string> trace; std::vector<int> choices; std::vector<std::string> labels; std::vector<u64> syms; std::vector<std::array<u64,4>> ufs; bool gen = false; std::string smt; };
struct Stats { std::map<std::string, u64> oblig; u64 smtq = 0, smtObl = 0; double smts = 0; u64 paths = 0, insts = 0, decisions = 0, pruned = 0, genBlocked = 0; std::map<std::string, u64> covers; std::set<FnInfo*> fns; std::vector<Failure> fails; u64 failCount = 0; std::set<std::string> contractsUsed;
    std::set<std::string> genImages, postImages; std::map<std::string, std::string> postWhere; u64 contractCalls = 0; };
static Stats ST;
struct Decision { int taken; int n; u64 feas; };   // feas: bitmask of feasible alternatives (symbolic branches)
struct PathEnd { };            // path finished early (assume false / prune)
struct PathFail { };

struct Interp {
    std::deque<Region> regs;               // index 0 = null; deque: references stay valid while regions are added
    std::vector<Val> pool;                  // values referenced from memory bytes
    std::unordered_map<GlobalVariable*, int> greg; std::unordered_map<Function*, int> freg;
    struct Frame { FnInfo* fi; std::vector<Val> s; int blk = 0, prev = -1; size_t pc = 0; std::vector<int> allocas; int dst = -1; const CInst* site = nullptr; bool cleanupDtor = false; int stub = 0; };
    std::vector<std::unique_ptr<Frame>> stk;
    std::vector<Decision>* dec; size_t dpos = 0; std::vector<std::string> labels; std::vector<int> choiceVals;
    std::vector<int> pc; int nsym = 0; u32 stamp = 0;
    bool gen = false; bool contractsOn = false; int depth = 0; u64 steps = 0; u64 maxSteps = 4000000;
    int liveTotal = 0;
    // frame
    bool frameOn = false; u32 frameMark = 0; std::set<int> frameAllow; std::string frameTag;
    // exceptions
    struct Exc { int reg; GlobalVariable* ti; Val dtor; int handlers = 0; bool rethrown = false; };
    std::vector<Exc> excs; std::vector<int> caught; int uncaught = 0;
    std::map<GlobalVariable*, int> typeIds;
    // contract replacement
    Function* learnStub = nullptr; std::map<Function*, Function*>* contracts;
    // a contract function may fall back on the body it stands for: its own calls are not replaced
    bool isStub(Function* F) const { for (auto& p : *contracts) if (p.second == F) return true; return false; }
    const CInst* cur = nullptr;

    Interp(std::vector<Decision>* d, std::map<Function*, Function*>* c) : dec(d), contracts(c) { regs.emplace_back(); regs[0].kind = R_NULL; regs[0].alive = false; pool.emplace_back(); }

    // ---------- failure reporting
    std::vector<std::string> trace() {
        std::vector<std::string> t;
        for (int i = (int)stk.size() - 1; i >= 0; --i) {
            Frame& f = *stk[i]; const Instruction* I = nullptr;
            if (i == (int)stk.size() - 1) I = cur ? cur->I : nullptr; else if (stk[i + 1]->site) I = stk[i + 1]->site->I;
            std::string loc = f.fi->file;
            if (I && I->getDebugLoc()) { auto* sc = I->getDebugLoc()->getScope(); std::string fn = sc->getFilename().str(); if (!fn.empty() && fn[0] != '/') fn = sc->getDirectory().str() + "/" + fn; loc = fn + ":" + std::to_string(I->getDebugLoc().getLine()); }
            std::string nm = demang(f.fi->F->getName().str()); if (nm.size() > 160) nm = nm.substr(0, 157) + "...";
            t.push_back(loc + " " + nm);
            if (t.size() > 14) break;
        }
        return t;
    }
    [[noreturn]] void fail(const std::string& kind, const std::string& msg, int negated = -1, const Asg* wit = nullptr) {
        if (gen) { ST.genBlocked++; throw PathEnd(); }
        Failure f; f.kind = kind; f.msg = msg; f.gen = gen;
        f.choices = choiceVals; f.labels = labels;
        std::vector<int> q = pc; if (negated >= 0) q.push_back(negated);
        bool ok = false; f.syms.resize(nsym);
        if (wit) { for (int i = 0; i < nsym; i++) f.syms[i] = i < (int)wit->size() ? (*wit)[i] : defsym(i, 0); ok = true; }
        for (u64 salt = 0; salt < 2 && !ok; ++salt) { std::unordered_map<int, u64> memo; bool all = true; for (int e : q) if (!evalE(e, nullptr, salt, memo)) { all = false; break; } if (all) { for (int i = 0; i < nsym; i++) f.syms[i] = defsym(i, salt); ok = true; } }
        if (!ok) {
            z3::solver s(*Z); z3::params pr(*Z); pr.set("timeout", 20000u); s.set(pr);
            for (int e : q) s.add(toz(e) == Z->bv_val(1, 1));
            auto r = s.check(); ST.smtq++;
            if (r == z3::unsat) throw PathEnd(); // infeasible path after all
            if (r == z3::sat) { z3::model m = s.get_model();
                for (int i = 0; i < nsym; i++) { z3::expr v = m.eval(Z->bv_const(("s" + std::to_string(i)).c_str(), 64), false); u64 k; if (v.is_numeral_u64(k)) f.syms[i] = k; else f.syms[i] = defsym(i, 0); }
                for (size_t e = 0; e < AR.n.size(); ++e) if (AR.n[e].op == E_UF) { u64 a, b, r2; z3::expr va = m.eval(toz(AR.n[e].a), true), vb = m.eval(toz(AR.n[e].b), true), vr = m.eval(toz((int)e), true); if (va.is_numeral_u64(a) && vb.is_numeral_u64(b) && vr.is_numeral_u64(r2)) f.ufs.push_back({AR.n[e].k, a, b, r2}); } }
            std::ostringstream os; os << s; f.smt = os.str().substr(0, 4000);
        }
        f.trace = trace(); ST.failCount++;
        std::string key = kind + msg; int same = 0; for (auto& g : ST.fails) if (g.kind + g.msg == key) same++;
        if (ST.fails.size() < 40 && same < 2) ST.fails.push_back(f);
        throw PathFail();
    }
    void ob(const char* k) { ST.oblig[k]++; }
    [[noreturn]] void unsup(const std::string& w) { std::string t = w; auto tr = trace(); if (!tr.empty()) t += " @ " + tr[0]; if (tr.size() > 1) t += " < " + tr[1]; throw Unsupported{t}; }

    // ---------- solver
    // returns true iff pc /\ extra is satisfiable
    bool sat(int extra) {
        if (AR.isK(extra)) return AR.n[extra].k != 0;   // pc itself is satisfiable by construction
        for (u64 salt = 0; salt < 4; ++salt) { std::unordered_map<int, u64> memo; bool all = evalE(extra, nullptr, salt, memo); for (int e : pc) { if (!all) break; if (!evalE(e, nullptr, salt, memo)) all = false; } if (all) return true; }
        static std::map<std::vector<int>, bool> cache;
        std::vector<int> key = pc; std::sort(key.begin(), key.end()); key.push_back(extra);
        auto it = cache.find(key); if (it != cache.end()) return it->second;
        auto t0 = std::chrono::steady_clock::now();
        z3::check_result r = z3::unknown;
        for (int attempt = 0; attempt < 2 && r == z3::unknown; ++attempt) {   // plain SMT core first, then with equations solved away
            z3::solver s = attempt == 0 ? z3::solver(*Z) : (z3::tactic(*Z, "simplify") & z3::tactic(*Z, "propagate-values") & z3::tactic(*Z, "solve-eqs") & z3::tactic(*Z, "simplify") & z3::tactic(*Z, "smt")).mk_solver();
            z3::params pr(*Z); pr.set("timeout", attempt == 0 ? 3000u : 60000u); s.set(pr);
            for (int e : pc) s.add(toz(e) == Z->bv_val(1, 1));
            s.add(toz(extra) == Z->bv_val(1, 1));
            r = s.check();
            if (r == z3::unsat && !dumpDir.empty() && dumpN < 400) { std::string q = "(set-logic ALL)\n" + s.to_smt2(); std::ofstream fo(dumpDir + "/" + std::to_string(std::hash<std::string>()(q)) + ".smt2"); fo << q; dumpN++; } }
        ST.smtq++; ST.smts += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (r == z3::unknown) throw Unsupported{"solver timeout"};
        bool res = r == z3::sat; cache[key] = res; return res;
    }
    int decide(int n, u64 feas, const std::string& label, bool isChoice) {
        if (dpos < dec->size()) { Decision& d = (*dec)[dpos++]; if (isChoice) { labels.push_back(label + "=" + std::to_string(d.taken)); choiceVals.push_back(d.taken); } return d.taken; }
        int t = 0; while (t < n && !((feas >> t) & 1)) t++;
        dec->push_back(Decision{t, n, feas}); dpos++; ST.decisions++;
        if (isChoice) { labels.push_back(label + "=" + std::to_string(t)); choiceVals.push_back(t); }
        return t;
    }
    // truth of a 1-bit value used for control; forks if both feasible
    bool truth(const Val& c, const char* what) {
        if (c.k == V_INT) return c.x != 0;
        if (c.k == V_SYM) {
            int e = (int)c.x, ne = AR.notb(e);
            for (int p : pc) { if (p == e) return true; if (p == ne) return false; }
            if (dpos < dec->size()) { int t = decide(2, 0, "", false); pc.push_back(t ? e : ne); return t; }
            bool st = sat(e), sf = sat(ne);
            if (st && !sf) return true;    // implied by the path condition
            if (!st && sf) return false;
            if (!st && !sf) throw PathEnd();
            int t = decide(2, 3, "", false); pc.push_back(t ? e : ne); return t;
        }
        if (c.k == V_UNDEF || c.k == V_BYTES) fail("indeterminate", std::string("control flow depends on an indeterminate value (") + what + ")");
        if (c.k == V_PTR) return c.reg != 0 || c.x != 0;
        unsup("branch on odd value");
    }

    // ---------- regions
    int newRegion(RK k, i64 size, unsigned align, const Instruction* site) {
        regs.emplace_back(); Region& r = regs.back(); r.kind = k; r.size = size; r.align = align; r.b.resize(size); r.site = site; r.born = ++stamp; return (int)regs.size() - 1;
    }
    int fnRegion(Function* f) { auto it = freg.find(f); if (it != freg.end()) return it->second; int r = newRegion(R_FN, 1, 16, nullptr); regs[r].fn = f; freg[f] = r; return r; }
    int globalRegion(GlobalVariable* g) {
        auto it = greg.find(g); if (it != greg.end()) return it->second;
        i64 sz = g->getValueType()->isSized() ? (i64)DL->getTypeAllocSize(g->getValueType()) : 0;
        int r = newRegion(g->hasInitializer() ? R_GLOBAL : R_OPAQUE, std::max<i64>(sz, 8), (unsigned)std::max<u64>(g->getAlign().valueOrOne().value(), 1), nullptr);
        regs[r].gv = g; greg[g] = r; regs[r].ro = false; regs[r].born = 0;
        if (g->hasInitializer()) { initConst(r, 0, g->getInitializer()); }
        if (g->isConstant()) regs[r].ro = true;
        return r;
    }
    void initConst(int r, i64 off, Constant* c) {
        Type* t = c->getType();
        if (isa<UndefValue>(c)) return;
        if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
            if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < ca->getNumOperands(); ++i) initConst(r, off + (i64)sl->getElementOffset(i), ca->getOperand(i)); }
            else { i64 es = (i64)DL->getTypeAllocSize(ca->getOperand(0)->getType()); for (unsigned i = 0; i < ca->getNumOperands(); ++i) initConst(r, off + es * i, ca->getOperand(i)); }
            return;
        }
        if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { i64 es = (i64)DL->getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); ++i) initConst(r, off + es * i, cd->getElementAsConstant(i)); return; }
        if (isa<ConstantAggregateZero>(c)) { i64 sz = (i64)DL->getTypeAllocSize(t); for (i64 i = 0; i < sz; ++i) putVal(r, off + i, Val::I(0, 8), 1); return; }
        if (t->isIntegerTy() || t->isPointerTy()) { putVal(r, off, constVal(c), (i64)DL->getTypeStoreSize(t)); return; }
        if (auto* cf = dyn_cast<ConstantFP>(c)) { putVal(r, off, Val::I(cf->getValueAPF().bitcastToAPInt().getZExtValue(), (unsigned)DL->getTypeSizeInBits(t)), (i64)DL->getTypeStoreSize(t)); return; }
        unsup("global initialiser");
    }
    Val constVal(Constant* c) {
        Type* t = c->getType();
        if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { if (ci->getValue().getActiveBits() > 64) unsup("wide constant"); } return Val::I(ci->getValue().extractBitsAsZExtValue(std::min(64u, ci->getBitWidth()), 0), std::min(64u, ci->getBitWidth())); }
        if (isa<ConstantPointerNull>(c)) return Val::P(0, 0);
        if (auto* f = dyn_cast<Function>(c)) return Val::P(fnRegion(f), 0);
        if (auto* g = dyn_cast<GlobalVariable>(c)) return Val::P(globalRegion(g), 0);
        if (auto* ga = dyn_cast<GlobalAlias>(c)) return constVal(cast<Constant>(ga->getAliasee()));
        if (isa<UndefValue>(c)) { if (t->isStructTy() || t->isArrayTy()) { Val v; v.k = V_AGG; v.agg = std::make_shared<std::vector<Val>>(); unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements(); for (unsigned i = 0; i < n; ++i) v.agg->push_back(constVal(UndefValue::get(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType()))); return v; } return Val::undef(t->isIntegerTy() ? t->getIntegerBitWidth() : 64); }
        if (isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c)) { Val v; v.k = V_AGG; v.agg = std::make_shared<std::vector<Val>>(); unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements(); for (unsigned i = 0; i < n; ++i) v.agg->push_back(constVal(c->getAggregateElement(i))); return v; }
        if (auto* cf = dyn_cast<ConstantFP>(c)) return Val::I(cf->getValueAPF().bitcastToAPInt().getZExtValue(), (unsigned)DL->getTypeSizeInBits(t));
        if (auto* ce = dyn_cast<ConstantExpr>(c)) {
            if (ce->getOpcode() == Instruction::GetElementPtr) { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) unsup("constexpr gep"); Val b = constVal(cast<Constant>(ce->getOperand(0))); if (b.k != V_PTR) unsup("constexpr gep base"); b.x += off.getSExtValue(); return b; }
            if (ce->getOpcode() == Instruction::BitCast || ce->getOpcode() == Instruction::AddrSpaceCast || ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::IntToPtr) return constVal(cast<Constant>(ce->getOperand(0)));
        }
        unsup("constant kind");
    }
    u32 poolAdd(const Val& v) { pool.push_back(v); return (u32)pool.size() - 1; }
    void putVal(int r, i64 off, const Val& v, i64 size) {
        Region& R = regs[r];
        if (v.k == V_BYTES) { for (i64 i = 0; i < size; ++i) R.b[off + i] = (*v.by)[i]; return; }
        if (v.k == V_UNDEF) { for (i64 i = 0; i < size; ++i) R.b[off + i] = Byte{}; return; }
        u32 id = poolAdd(v);
        for (i64 i = 0; i < size; ++i) { R.b[off + i].v = id; R.b[off + i].idx = (u8)i; }
    }
    int byteTerm(const Byte& b) { const Val& v = pool[b.v]; unsigned lo = 8u * b.idx; unsigned w = v.w; int t = v.term(); if (lo + 8 > w) { if (lo >= w) return AR.K(0, 8); return AR.ext(E_ZEXT, AR.extract(t, lo, w - lo), 8); } return AR.extract(t, lo, 8); }
    Val getVal(int r, i64 off, i64 size, unsigned w, bool isPtr) {
        Region& R = regs[r]; const Byte* b = &R.b[off];
        if (b[0].v) { const Val& v0 = pool[b[0].v]; bool same = b[0].idx == 0; i64 vs = v0.k == V_PTR ? 8 : (v0.w + 7) / 8; if (same && vs == size) { for (i64 i = 1; i < size && same; ++i) if (b[i].v != b[0].v || b[i].idx != i) same = false; if (same) { if (v0.num() && v0.w != w && w) { if (isPtr) {} else if (v0.k == V_INT) return Val::I((u64)v0.x, w); else return v0.w > w ? Val::S(AR.extract((int)v0.x, 0, w)) : Val::S(AR.ext(E_ZEXT, (int)v0.x, w)); } if (isPtr && v0.k == V_INT && v0.x == 0) return Val::P(0, 0); return v0; } } }
        bool anyU = false, anyP = false, allU = true, allZ = true;
        for (i64 i = 0; i < size; ++i) { if (!b[i].v) { anyU = true; allZ = false; } else { allU = false; const Val& v = pool[b[i].v]; if (v.k == V_PTR) { anyP = true; allZ = false; } else if (!(v.k == V_INT && ((v.x >> (8 * b[i].idx)) & 0xff) == 0)) allZ = false; } }
        if (allU) return Val::undef(w);
        if (isPtr && allZ) return Val::P(0, 0);
        if (anyU || anyP || size > 8) { Val v; v.k = V_BYTES; v.w = (u8)std::min(255u, w); v.by = std::make_shared<std::vector<Byte>>(b, b + size); return v; }
        bool allI = true; for (i64 i = 0; i < size; ++i) if (pool[b[i].v].k != V_INT) allI = false;
        if (allI) { u64 x = 0; for (i64 i = 0; i < size; ++i) x |= (u64)(((u64)pool[b[i].v].x >> (8 * b[i].idx)) & 0xff) << (8 * i); return Val::I(x, w); }
        int t = byteTerm(b[0]); for (i64 i = 1; i < size; ++i) t = AR.concat(byteTerm(b[i]), t);
        if (w && AR.n[t].w > w) t = AR.extract(t, 0, w);
        return Val::S(t);
    }
    std::string descr(int r) { Region& R = regs[r]; const char* k[] = {"null", "local", "heap block", "object", "global", "function", "exception", "external"}; std::string s = k[R.kind]; if (R.gv) s += " " + R.gv->getName().str(); s += " of " + std::to_string(R.size) + " bytes"; return s; }
    void access(const Val& p, i64 size, unsigned align, bool write, const char* what) {
        ob("memory access");
        if (p.k == V_UNDEF || p.k == V_BYTES) fail("memory", std::string(what) + " through an indeterminate pointer");
        if (p.k != V_PTR) fail("memory", std::string(what) + " through a pointer that does not point to an object");
        if (p.reg == 0) fail("memory", std::string(what) + " through a null pointer");
        Region& R = regs[p.reg];
        if (!R.alive) fail("memory", std::string(what) + " of released memory (" + descr(p.reg) + ")");
        if (R.kind == R_FN) fail("memory", std::string(what) + " of code");
        if (p.x < 0 || p.x + size > R.size) { if (R.kind == R_OPAQUE) unsup("access to external object"); fail("memory", std::string(what) + " of " + std::to_string(size) + " bytes at offset " + std::to_string(p.x) + " is out of bounds of " + descr(p.reg)); }
        if (align > 1 && (R.align < align || p.x % align)) fail("alignment", std::string(what) + " needs alignment " + std::to_string(align) + " but the address is offset " + std::to_string(p.x) + " in a " + descr(p.reg) + " aligned to " + std::to_string(R.align));
        if (write && R.ro) fail("memory", "write to a constant object");
        if (write && frameOn && R.born <= frameMark && !frameAllow.count(p.reg) && R.kind != R_GLOBAL && R.kind != R_EXC) { ob("frame"); fail("frame", frameTag + ": write outside the frame, to a " + descr(p.reg)); }
    }
    Val loadTy(const Val& p, Type* t, unsigned align) {
        i64 sz = (i64)DL->getTypeStoreSize(t);
        if (auto* st = dyn_cast<StructType>(t)) { Val v; v.k = V_AGG; v.agg = std::make_shared<std::vector<Val>>(); auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) { Val q = p; q.x += (i64)sl->getElementOffset(i); v.agg->push_back(loadTy(q, st->getElementType(i), 1)); } return v; }
        if (t->isArrayTy()) { Val v; v.k = V_AGG; v.agg = std::make_shared<std::vector<Val>>(); i64 es = (i64)DL->getTypeAllocSize(t->getArrayElementType()); for (unsigned i = 0; i < t->getArrayNumElements(); ++i) { Val q = p; q.x += es * i; v.agg->push_back(loadTy(q, t->getArrayElementType(), 1)); } return v; }
        if (t->isVectorTy()) unsup("vector load");
        access(p, sz, align, false, "read");
        if (regs[p.reg].kind == R_OPAQUE && regs[p.reg].gv) unsup("read of external global " + regs[p.reg].gv->getName().str());
        return getVal(p.reg, p.x, sz, t->isIntegerTy() ? t->getIntegerBitWidth() : (unsigned)(8 * sz), t->isPointerTy());
    }
    void storeTy(const Val& p, Type* t, const Val& v, unsigned align) {
        if (auto* st = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) { Val q = p; q.x += (i64)sl->getElementOffset(i); storeTy(q, st->getElementType(i), v.k == V_AGG ? (*v.agg)[i] : Val::undef(8), 1); } return; }
        if (t->isArrayTy()) { i64 es = (i64)DL->getTypeAllocSize(t->getArrayElementType()); for (unsigned i = 0; i < t->getArrayNumElements(); ++i) { Val q = p; q.x += es * i; storeTy(q, t->getArrayElementType(), v.k == V_AGG ? (*v.agg)[i] : Val::undef(8), 1); } return; }
        i64 sz = (i64)DL->getTypeStoreSize(t);
        access(p, sz, align, true, "write");
        putVal(p.reg, p.x, v, sz);
    }
    void endRegion(int r, const char* how) {
        Region& R = regs[r];
        if (!R.objs.empty()) { ob("lifetime: nothing left alive in released memory"); Obj o = R.objs[0]; fail("lifetime", std::string(how) + " while an object of type T" + std::to_string(o.tid) + " in it was never destroyed"); }
        R.alive = false; R.b.clear(); R.b.shrink_to_fit(); R.size = R.size;
    }
    u64 concrete(const Val& v, const char* what) { if (v.k == V_INT) return (u64)v.x; if (v.k == V_UNDEF || v.k == V_BYTES) fail("indeterminate", std::string(what) + " depends on an indeterminate value"); unsup(std::string("symbolic ") + what); }
    std::string cstr(const Val& p) { std::string s; if (p.k != V_PTR || p.reg == 0) return s; for (i64 i = p.x;; ++i) { if (i >= regs[p.reg].size) break; Val c = getVal(p.reg, i, 1, 8, false); if (c.k != V_INT || c.x == 0) break; s.push_back((char)c.x); } return s; }

    // ---------- type info
    bool tiMatch(GlobalVariable* thrown, GlobalVariable* handler, int d = 0) {
        if (!handler || thrown == handler) return true; if (d > 8) return false;
        if (thrown->getName() == handler->getName()) return true;
        static std::map<std::string, std::string> ext = {{"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}};
        if (!thrown->hasInitializer()) { auto it = ext.find(thrown->getName().str()); return it != ext.end() && it->second == handler->getName().str(); }
        auto* cs = dyn_cast<ConstantStruct>(thrown->getInitializer()); if (!cs) return false;
        for (unsigned i = 2; i < cs->getNumOperands(); ++i) if (auto* b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts())) if (tiMatch(b, handler, d + 1)) return true;
        return false;
    }
    int typeId(GlobalVariable* g) { auto it = typeIds.find(g); if (it != typeIds.end()) return it->second; for (auto& p : typeIds) if (g && p.first && p.first->getName() == g->getName()) { int v = p.second; typeIds[g] = v; return v; } int id = (int)typeIds.size() + 1; typeIds[g] = id; return id; }

    // ---------- exceptions
    // returns selector for a landing pad that catches; 0 = cleanup only; -1 = does not stop here
    int padSelect(LandingPadInst* lp, GlobalVariable* ti) {
        for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
            if (lp->isCatch(i)) { Constant* c = lp->getClause(i); GlobalVariable* h = dyn_cast<GlobalVariable>(c->stripPointerCasts()); if (isa<ConstantPointerNull>(c) || tiMatch(ti, h)) return typeId(h); }
            else { Constant* arr = lp->getClause(i); bool in = false; unsigned n = (unsigned)cast<ArrayType>(arr->getType())->getNumElements(); for (unsigned j = 0; j < n; ++j) { auto* h = dyn_cast<GlobalVariable>(arr->getAggregateElement(j)->stripPointerCasts()); if (tiMatch(ti, h)) in = true; } if (!in) return -1000000; }
        }
        return lp->isCleanup() ? 0 : -1;
    }
    void popFrame(bool) {
        Frame& f = *stk.back();
        for (int r : f.allocas) if (regs[r].alive) endRegion(r, "a scope ended");
        stk.pop_back();
    }
    // the exception with index ei propagates out of the current instruction of the top frame
    // callSite: the CInst in the top frame that raised it
    void unwind(int ei, const CInst* site) {
        // phase 1: is there a handler?
        {
            const CInst* s = site; bool found = false; bool isTerm = false;
            for (int i = (int)stk.size() - 1; i >= 0; --i) {
                if (s && s->op == Instruction::Invoke) { auto* lp = cast<InvokeInst>(s->I)->getLandingPadInst(); int sel = padSelect(lp, excs[ei].ti); if (sel > 0 || sel == -1000000) { found = true; break; } }
                if (s && s->op == Instruction::Call && stk[i]->fi->F->doesNotThrow()) { isTerm = true; break; }
                if (stk[i]->cleanupDtor) { isTerm = true; break; }
                s = stk[i]->site;
            }
            ob("exception reaches a handler");
            if (isTerm) fail("terminate", "an exception leaves a function that must not throw");
            if (!found) fail("terminate", "an exception escapes with no handler");
        }
        const CInst* s = site; cur = nullptr;
        while (!stk.empty()) {
            Frame& f = *stk.back();
            if (s && s->op == Instruction::Invoke) {
                auto* iv = cast<InvokeInst>(s->I); auto* lp = iv->getLandingPadInst(); int sel = padSelect(lp, excs[ei].ti);
                if (sel == -1000000) fail("terminate", "an exception leaves a function whose exception specification forbids it");
                if (sel >= 0) {
                    enter(f, f.fi->bidx[iv->getUnwindDest()]);
                    Val v; v.k = V_AGG; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(Val::P(excs[ei].reg, 0)); v.agg->push_back(Val::I((u64)sel, 32));
                    // position after the landingpad
                    CBlock& cb = f.fi->blocks[f.blk]; size_t k = 0; while (cb.in[k].op != Instruction::LandingPad) k++;
                    f.s[cb.in[k].dst] = v; f.pc = k + 1; return;
                }
            }
            s = f.site; cur = nullptr; popFrame(true);
        }
        fail("terminate", "an exception escapes the contract");
    }
    int excOf(const Val& p) { for (int i = (int)excs.size() - 1; i >= 0; --i) if (p.k == V_PTR && excs[i].reg == p.reg) return i; unsup("unknown exception object"); }

    void enter(Frame& f, int blk) {
        f.prev = f.blk; f.blk = blk; f.pc = 0; CBlock& cb = f.fi->blocks[blk];
        if (!cb.phis.empty()) { std::vector<Val> tmp; BasicBlock* pb = f.fi->blocks[f.prev].bb; for (auto& p : cb.phis) { int ix = cast<PHINode>(p.I)->getBasicBlockIndex(pb); tmp.push_back(get(f, p.ops[ix])); } for (size_t i = 0; i < tmp.size(); ++i) f.s[cb.phis[i].dst] = tmp[i]; }
    }
    Val get(Frame& f, int o) {
        if (o >= 0) return f.s[o];
        if (o == INT32_MIN) return Val::undef(64);
        return constVal(f.fi->consts[-1 - o]);
    }
    void call(FnInfo* fi, std::vector<Val>& args, const CInst* site, int dst) {
        if (stk.size() > 400) unsup("call depth");
        compileFn(fi); fi->execs++; ST.fns.insert(fi);
        std::unique_ptr<Frame> f(new Frame); f->fi = fi; f->s.resize(fi->nslots); f->site = site; f->dst = dst;
        size_t i = 0; for (auto& a : fi->F->args()) {
            if (i < args.size()) {
                if (a.hasByValAttr()) { Type* t = a.getParamByValType(); i64 sz = (i64)DL->getTypeAllocSize(t); int r = newRegion(R_STACK, sz, (unsigned)std::max<u64>(a.getParamAlign().valueOrOne().value(), 8), nullptr); access(args[i], sz, 1, false, "argument read"); for (i64 k = 0; k < sz; ++k) regs[r].b[k] = regs[args[i].reg].b[args[i].x + k]; f->allocas.push_back(r); f->s[i] = Val::P(r, 0); }
                else f->s[i] = args[i];
            } ++i; }
        stk.push_back(std::move(f));
    }
    void run(Function* entry) {
        std::vector<Val> a; call(getFn(entry), a, nullptr, -1);
        while (!stk.empty()) step();
        // end of contract: nothing may be left
        ob("heap: everything released at the end"); ob("lifetime: everything destroyed at the end");
        for (size_t r = 1; r < regs.size(); ++r) if (regs[r].alive && (regs[r].kind == R_HEAP || regs[r].kind == R_BOX)) {
            cur = nullptr;
            if (!regs[r].objs.empty()) fail("lifetime", "an object of type T" + std::to_string(regs[r].objs[0].tid) + " is never destroyed" + siteOf((int)r));
            if (regs[r].kind == R_HEAP) fail("heap", "memory is never released" + siteOf((int)r)); }
    }
    std::string siteOf(int) { return ""; }
    Val arith(EOp op, const Val& a, const Val& b, unsigned w) {
        if (a.k == V_INT && b.k == V_INT) { u64 r; if (Arena::fold(op, w, (u64)a.x, (u64)b.x, r)) return Val::I(r, w); fail("arithmetic", "division by zero or overflow"); }
        if (a.num() && b.num()) return Val::S(AR.bin(op, a.term(), b.term()));
        if (a.k == V_PTR && b.k == V_PTR && op == E_SUB) { if (a.reg == b.reg) return Val::I((u64)(a.x - b.x), w); unsup("difference of unrelated pointers"); }
        if (a.k == V_PTR && b.k == V_INT && (op == E_ADD || op == E_SUB)) { Val v = a; v.x += op == E_ADD ? b.x : -b.x; return v; }
        if (a.k == V_PTR && b.k == V_INT && op == E_AND && ((u64)b.x & ((u64)b.x + 1)) == 0 && (u64)b.x < regs[a.reg].align) return Val::I((u64)a.x & (u64)b.x, w);
        if (a.k == V_PTR && b.k == V_INT && op == E_UREM && b.x && ((u64)b.x & ((u64)b.x - 1)) == 0 && (u64)b.x <= regs[a.reg].align) return Val::I((u64)a.x % (u64)b.x, w);
        if (a.k == V_PTR || b.k == V_PTR) unsup("pointer arithmetic");
        if ((op == E_AND || op == E_MUL) && ((a.k == V_INT && a.x == 0) || (b.k == V_INT && b.x == 0))) return Val::I(0, w);
        return Val::undef(w);
    }
    Val icmp(CmpInst::Predicate p, const Val& a0, const Val& b0) {
        Val a = a0, b = b0;
        if (a.k == V_PTR || b.k == V_PTR) {
            if (a.k == V_INT && a.x == 0) a = Val::P(0, 0); if (b.k == V_INT && b.x == 0) b = Val::P(0, 0);
            if (a.k == V_PTR && b.k == V_PTR) {
                bool eq = a.reg == b.reg && a.x == b.x;
                switch (p) { case CmpInst::ICMP_EQ: return Val::I(eq, 1); case CmpInst::ICMP_NE: return Val::I(!eq, 1); default: break; }
                if (a.reg != b.reg) unsup("order of unrelated pointers");
                bool r = false; switch (p) { case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: r = a.x < b.x; break; case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: r = a.x <= b.x; break; case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: r = a.x > b.x; break; default: r = a.x >= b.x; }
                return Val::I(r, 1);
            }
            if (a.k == V_UNDEF || b.k == V_UNDEF || a.k == V_BYTES || b.k == V_BYTES) return Val::undef(1);
            unsup("comparison of a pointer with a number");
        }
        if (!a.num() || !b.num()) return Val::undef(1);
        unsigned w = a.w; EOp op = E_EQ; bool neg = false, sw = false;
        switch (p) { case CmpInst::ICMP_EQ: break; case CmpInst::ICMP_NE: neg = true; break; case CmpInst::ICMP_ULT: op = E_ULT; break; case CmpInst::ICMP_ULE: op = E_ULE; break; case CmpInst::ICMP_UGT: op = E_ULT; sw = true; break; case CmpInst::ICMP_UGE: op = E_ULE; sw = true; break;
        case CmpInst::ICMP_SLT: op = E_SLT; break; case CmpInst::ICMP_SLE: op = E_SLE; break; case CmpInst::ICMP_SGT: op = E_SLT; sw = true; break; case CmpInst::ICMP_SGE: op = E_SLE; sw = true; break; default: unsup("icmp"); }
        if (sw) std::swap(a, b);
        Val r; if (a.k == V_INT && b.k == V_INT) { u64 q; Arena::fold(op, w, (u64)a.x, (u64)b.x, q); r = Val::I(q, 1); } else r = Val::S(AR.bin(op, a.term(), b.term()));
        if (neg) { if (r.k == V_INT) r.x = !r.x; else r = Val::S(AR.notb((int)r.x)); }
        return r;
    }
    // floating point: values are their IEEE bit patterns; comparison is exact for all of them
    unsigned fpw(Type* t) { if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; unsup("floating-point type"); }
    Val fcmp(CmpInst::Predicate p, const Val& a, const Val& b, Type* t) {
        unsigned w = fpw(t); if (!a.num() || !b.num()) return Val::undef(1);
        int x = a.term(), y = b.term(); u64 sign = 1ull << (w - 1), mag = sign - 1, inf = w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull; int one = AR.K(1, 1); (void)one;
        auto nan = [&](int v) { return AR.bin(E_ULT, AR.K(inf, w), AR.bin(E_AND, v, AR.K(mag, w))); };
        int un = AR.bin(E_OR, nan(x), nan(y)), zz = AR.bin(E_EQ, AR.bin(E_AND, AR.bin(E_OR, x, y), AR.K(mag, w)), AR.K(0, w));
        auto key = [&](int v) { return AR.ite(AR.bin(E_SLT, v, AR.K(0, w)), AR.bin(E_XOR, v, AR.K(mag, w)), v); };
        int eq = AR.bin(E_OR, zz, AR.bin(E_EQ, x, y)), lt = AR.bin(E_AND, AR.notb(zz), AR.bin(E_SLT, key(x), key(y))), gt = AR.bin(E_AND, AR.notb(zz), AR.bin(E_SLT, key(y), key(x)));
        int r; switch (p & 7) { case 0: r = AR.K(0, 1); break; case 1: r = eq; break; case 2: r = gt; break; case 3: r = AR.bin(E_OR, gt, eq); break; case 4: r = lt; break; case 5: r = AR.bin(E_OR, lt, eq); break; case 6: r = AR.notb(eq); break; default: r = AR.K(1, 1); }
        r = p & 8 ? AR.bin(E_OR, r, un) : AR.bin(E_AND, r, AR.notb(un));
        return AR.isK(r) ? Val::I(AR.n[r].k, 1) : Val::S(r);
    }
    Val fconv(const CInst& c, const Val& v) {
        Type *s = c.I->getOperand(0)->getType(), *d = c.I->getType(); unsigned w = d->isIntegerTy() ? d->getIntegerBitWidth() : fpw(d); if (w > 64) unsup("wide integer");
        if (v.k != V_INT) { if (!v.num()) return Val::undef(w); unsup("conversion of a symbolic floating-point value"); }
        double x; u64 b = (u64)v.x; if (s->isIntegerTy()) { if (c.op == Instruction::SIToFP) { i64 q = sx(b, v.w); if (d->isFloatTy()) { float g = (float)q; u32 o; memcpy(&o, &g, 4); return Val::I(o, 32); } x = (double)q; } else { if (d->isFloatTy()) { float g = (float)b; u32 o; memcpy(&o, &g, 4); return Val::I(o, 32); } x = (double)b; } }
        else if (s->isFloatTy()) { float g; u32 o = (u32)b; memcpy(&g, &o, 4); x = g; } else { fpw(s); memcpy(&x, &b, 8); }
        if (d->isFloatTy()) { float g = (float)x; u32 o; memcpy(&o, &g, 4); return Val::I(o, 32); }
        if (d->isDoubleTy()) { u64 o; memcpy(&o, &x, 8); return Val::I(o, 64); }
        if (!(x > -9.2e18 && x < 9.2e18)) unsup("floating-point value out of range"); return c.op == Instruction::FPToSI ? Val::I((u64)(i64)x & maskw(w), w) : Val::I((u64)x & maskw(w), w);
    }
    void assertion(const Val& c, const std::string& tag) {
        ob(("assert " + tag.substr(0, tag.find(' '))).c_str());
        if (c.k == V_INT) { if (!c.x) fail("assert", tag); return; }
        if (c.k == V_SYM) { ST.smtObl++; int ne = AR.notb((int)c.x); if (sat(ne)) fail("assert", tag, ne); return; }
        fail("assert", tag + " (the checked value is indeterminate)");
    }
    Val castV(const CInst& c, const Val& v) {
        unsigned w = c.w;
        switch (c.op) {
        case Instruction::Trunc:
            if (v.k == V_INT) return Val::I((u64)v.x, w); if (v.k == V_SYM) return Val::S(AR.extract((int)v.x, 0, w));
            if (v.k == V_BYTES) { i64 n = (w + 7) / 8; bool all = true; for (i64 i = 0; i < n; ++i) { auto& b = (*v.by)[i]; if (!b.v || pool[b.v].k == V_PTR) all = false; } if (all) { int t = byteTerm((*v.by)[0]); for (i64 i = 1; i < n; ++i) t = AR.concat(byteTerm((*v.by)[i]), t); return Val::S(AR.extract(t, 0, w)); } return Val::undef(w); }
            if (v.k == V_PTR) unsup("pointer truncated"); return Val::undef(w);
        case Instruction::ZExt: if (v.k == V_INT) return Val::I((u64)v.x, w); if (v.k == V_SYM) return Val::S(AR.ext(E_ZEXT, (int)v.x, w)); return Val::undef(w);
        case Instruction::SExt: if (v.k == V_INT) return Val::I((u64)sx((u64)v.x, v.w), w); if (v.k == V_SYM) return Val::S(AR.ext(E_SEXT, (int)v.x, w)); return Val::undef(w);
        default: return v;
        }
    }
    void step() {
        Frame& f = *stk.back(); CBlock& cb = f.fi->blocks[f.blk]; const CInst& c = cb.in[f.pc]; cur = &c;
        if (++steps > maxSteps) unsup("path too long");
        ST.insts++;
        switch (c.op) {
        case Instruction::Alloca: { if (c.size < 0) unsup("variable-size local"); int r = newRegion(R_STACK, c.size, c.align, c.I); f.allocas.push_back(r); f.s[c.dst] = Val::P(r, 0); f.pc++; return; }
        case Instruction::Load: { Val p = get(f, c.ops[0]); f.s[c.dst] = loadTy(p, c.I->getType(), c.align); f.pc++; return; }
        case Instruction::Store: { Val v = get(f, c.ops[0]), p = get(f, c.ops[1]); storeTy(p, llvm::cast<StoreInst>(c.I)->getValueOperand()->getType(), v, c.align); f.pc++; return; }
        case Instruction::GetElementPtr: {
            Val b = get(f, c.ops[0]);
            if (b.k != V_PTR) { f.s[c.dst] = Val::undef(64); f.pc++; return; }
            if (c.gconst) b.x += c.goff; else {
                unsigned i = 1; for (auto gt = gep_type_begin(llvm::cast<User>(c.I)); gt != gep_type_end(llvm::cast<User>(c.I)); ++gt, ++i) {
                    Val ix = get(f, c.ops[i]);
                    if (auto* st = gt.getStructTypeOrNull()) b.x += (i64)DL->getStructLayout(st)->getElementOffset((unsigned)ix.x);
                    else b.x += sx(concrete(ix, "array index"), ix.w) * (i64)DL->getTypeAllocSize(gt.getIndexedType()); } }
            f.s[c.dst] = b; f.pc++; return; }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
            EOp op = E_ADD; switch (c.op) { case Instruction::Add: op = E_ADD; break; case Instruction::Sub: op = E_SUB; break; case Instruction::Mul: op = E_MUL; break; case Instruction::UDiv: op = E_UDIV; break; case Instruction::SDiv: op = E_SDIV; break; case Instruction::URem: op = E_UREM; break; case Instruction::SRem: op = E_SREM; break; case Instruction::And: op = E_AND; break; case Instruction::Or: op = E_OR; break; case Instruction::Xor: op = E_XOR; break; case Instruction::Shl: op = E_SHL; break; case Instruction::LShr: op = E_LSHR; break; default: op = E_ASHR; }
            if (c.w > 64) unsup("wide arithmetic");
            f.s[c.dst] = arith(op, get(f, c.ops[0]), get(f, c.ops[1]), c.w); f.pc++; return; }
        case Instruction::ICmp: f.s[c.dst] = icmp(llvm::cast<ICmpInst>(c.I)->getPredicate(), get(f, c.ops[0]), get(f, c.ops[1])); f.pc++; return;
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Freeze: case Instruction::AddrSpaceCast:
            if (c.w > 64) unsup("wide integer"); f.s[c.dst] = castV(c, get(f, c.ops[0])); f.pc++; return;
        case Instruction::Select: { Val k = get(f, c.ops[0]), a = get(f, c.ops[1]), b = get(f, c.ops[2]); if (k.k == V_SYM && a.num() && b.num()) f.s[c.dst] = Val::S(AR.ite((int)k.x, a.term(), b.term())); else f.s[c.dst] = truth(k, "select") ? a : b; f.pc++; return; }
        case Instruction::ExtractValue: { Val a = get(f, c.ops[0]); for (unsigned ix : llvm::cast<ExtractValueInst>(c.I)->indices()) { if (a.k != V_AGG) { a = Val::undef(64); break; } Val t = (*a.agg)[ix]; a = t; } f.s[c.dst] = a; f.pc++; return; }
        case Instruction::InsertValue: { Val a = get(f, c.ops[0]), v = get(f, c.ops[1]); auto idx = llvm::cast<InsertValueInst>(c.I)->getIndices(); if (idx.size() != 1) unsup("nested insertvalue"); if (a.k != V_AGG) a = constVal(UndefValue::get(c.I->getType())); a.agg = std::make_shared<std::vector<Val>>(*a.agg); (*a.agg)[idx[0]] = v; f.s[c.dst] = a; f.pc++; return; }
        case Instruction::Br: { auto* br = llvm::cast<BranchInst>(c.I); if (br->isUnconditional()) { enter(f, f.fi->bidx[br->getSuccessor(0)]); return; } ob("branch condition determinate"); bool t = truth(get(f, c.ops[0]), "branch"); enter(f, f.fi->bidx[br->getSuccessor(t ? 0 : 1)]); return; }
        case Instruction::Switch: {
            auto* sw = llvm::cast<SwitchInst>(c.I); Val v = get(f, c.ops[0]); ob("branch condition determinate");
            if (v.k == V_INT) { BasicBlock* d = sw->getDefaultDest(); for (auto& k : sw->cases()) if (k.getCaseValue()->getZExtValue() == (u64)v.x) { d = k.getCaseSuccessor(); break; } enter(f, f.fi->bidx[d]); return; }
            if (v.k == V_SYM) { for (auto& k : sw->cases()) { Val q = Val::S(AR.bin(E_EQ, (int)v.x, AR.K(k.getCaseValue()->getZExtValue(), v.w))); if (truth(q, "switch")) { enter(f, f.fi->bidx[k.getCaseSuccessor()]); return; } } enter(f, f.fi->bidx[sw->getDefaultDest()]); return; }
            fail("indeterminate", "control flow depends on an indeterminate value (switch)"); }
        case Instruction::Ret: {
            Val v; bool has = false; if (!c.ops.empty()) { v = get(f, c.ops[0]); has = true; }
            const CInst* site = f.site; int dst = f.dst; popFrame(false);
            if (stk.empty()) return;
            Frame& g = *stk.back(); if (has && dst >= 0) g.s[dst] = v;
            resumeAfter(g, site); return; }
        case Instruction::Call: case Instruction::Invoke: doCall(f, c); return;
        case Instruction::Resume: { Val v = get(f, c.ops[0]); if (v.k != V_AGG) unsup("resume"); int ei = excOf((*v.agg)[0]); const CInst* site = f.site; 
            cur = nullptr; popFrame(true); if (stk.empty()) { fail("terminate", "an exception escapes the contract"); } unwind2(ei, site); return; }
        case Instruction::Unreachable: ob("unreachable code not reached"); fail("unreachable", "control reaches code that must be unreachable (missing return or contradictory assumption)");
        case Instruction::FCmp: f.s[c.dst] = fcmp(llvm::cast<FCmpInst>(c.I)->getPredicate(), get(f, c.ops[0]), get(f, c.ops[1]), c.I->getOperand(0)->getType()); f.pc++; return;
        case Instruction::FNeg: { Val v = get(f, c.ops[0]); Type* t = c.I->getType(); unsigned w = fpw(t); f.s[c.dst] = arith(E_XOR, v, Val::I(1ull << (w - 1), w), w); f.pc++; return; }
        case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: f.s[c.dst] = fconv(c, get(f, c.ops[0])); f.pc++; return;
        case Instruction::FAdd: default: unsup(std::string("instruction ") + c.I->getOpcodeName());
        }
    }
    void unwind2(int ei, const CInst* site) {   // continue unwinding from call site in (new) top frame; phase 1 already done
        const CInst* s = site;
        while (!stk.empty()) {
            Frame& f = *stk.back();
            if (s && s->op == Instruction::Invoke) {
                auto* iv = llvm::cast<InvokeInst>(s->I); auto* lp = iv->getLandingPadInst(); int sel = padSelect(lp, excs[ei].ti);
                if (sel == -1000000) fail("terminate", "an exception leaves a function whose exception specification forbids it");
                if (sel >= 0) { enter(f, f.fi->bidx[iv->getUnwindDest()]); Val v; v.k = V_AGG; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(Val::P(excs[ei].reg, 0)); v.agg->push_back(Val::I((u64)sel, 32)); CBlock& cb = f.fi->blocks[f.blk]; size_t k = 0; while (cb.in[k].op != Instruction::LandingPad) k++; f.s[cb.in[k].dst] = v; f.pc = k + 1; return; }
            }
            if (f.fi->F->doesNotThrow() || f.cleanupDtor) fail("terminate", "an exception leaves a function that must not throw");
            s = f.site; cur = nullptr; popFrame(true);
        }
        fail("terminate", "an exception escapes the contract");
    }
    void resumeAfter(Frame& g, const CInst* site) {
        if (!site) return;
        if (site->op == Instruction::Invoke) enter(g, g.fi->bidx[llvm::cast<InvokeInst>(site->I)->getNormalDest()]); else g.pc++;
    }
    void copyBytes(const Val& d, const Val& s, i64 n, unsigned da, unsigned sa) {
        if (n == 0) return;
        access(s, n, sa, false, "copy from"); access(d, n, da, true, "copy to");
        std::vector<Byte> t(regs[s.reg].b.begin() + s.x, regs[s.reg].b.begin() + s.x + n);
        std::copy(t.begin(), t.end(), regs[d.reg].b.begin() + d.x);
    }
    void image(int r, i64 off, i64 size, std::ostringstream& os, std::map<int, int>& seen);
    void raise(int ei, const CInst* c) { unwind(ei, c); }
    void doCall(Frame& f, const CInst& c);
    bool builtin(Frame& f, const CInst& c, FnInfo* fi, std::vector<Val>& a, Val& r);
    const Obj* findObj(const Val& p, int tid) { for (auto& o : regs[p.reg].objs) if (o.off == p.x && o.tid == tid) return &o; return nullptr; }
    Exc mkexc() { return Exc(); }
};

void Interp::doCall(Frame& f, const CInst& c) {
    auto* cbi = llvm::cast<CallBase>(c.I);
    Function* callee = dyn_cast<Function>(cbi->getCalledOperand()->stripPointerCasts());
    if (!callee) { if (cbi->isInlineAsm()) { if (cbi->arg_size() == 0) { resumeAfter(f, &c); return; } unsup("inline assembly"); }
        Val p = get(f, c.ops.back() ); // called operand is the last operand for call/invoke handled below
        // find operand index of callee
        unsigned ix = (unsigned)(&cbi->getCalledOperandUse() - cbi->op_begin()); p = get(f, c.ops[ix]);
        ob("indirect call target valid");
        if (p.k == V_PTR && p.reg && regs[p.reg].kind == R_FN && p.x == 0) callee = regs[p.reg].fn; else fail("memory", "call through an invalid function pointer"); }
    FnInfo* fi = getFn(callee);
    std::vector<Val> a; a.reserve(cbi->arg_size());
    for (unsigned i = 0; i < cbi->arg_size(); ++i) a.push_back(get(f, c.ops[i]));
    if (fi->bi == B_INTERP) {
        if (learnStub && fi->lib) { (*contracts)[callee] = learnStub; learnStub = nullptr; throw PathEnd(); }
        if (contractsOn && !isStub(f.fi->F)) { auto it = contracts->find(callee); if (it != contracts->end()) { ST.contractCalls++; ST.contractsUsed.insert(demang(callee->getName().str())); fi = getFn(it->second); } }
        call(fi, a, &c, c.dst); return;
    }
    Val r; bool has = builtin(f, c, fi, a, r);
    if (!has) return; // control was transferred
    if (c.dst >= 0) f.s[c.dst] = r;
    resumeAfter(f, &c);
}
// canonical image of an object: everything the library stored in it, with values abstracted
void Interp::image(int r, i64 off, i64 size, std::ostringstream& os, std::map<int, int>& seen) {
    Region& R = regs[r]; std::vector<std::pair<i64,i64>> covered;
    for (auto& o : R.objs) if (o.off >= off && o.off < off + size) { os << "obj@" << (o.off - off) << ":T" << o.tid << ";"; covered.push_back({o.off, o.off + o.size}); }
    for (i64 i = off; i < off + size; ++i) {
        bool in = false; for (auto& p : covered) if (i >= p.first && i < p.second) in = true; if (in) continue;
        const Byte& b = R.b[i]; if (!b.v) { continue; }
        const Val& v = pool[b.v];
        if (v.k == V_PTR && b.idx == 0) { if (v.reg == 0) os << (i - off) << ":null;"; else if (!regs[v.reg].alive) os << (i - off) << ":dangling;"; else if (regs[v.reg].kind == R_HEAP) { if (seen.count(v.reg)) os << (i - off) << ":back;"; else { seen[v.reg] = 1; os << (i - off) << ":heap+" << v.x << "["; image(v.reg, 0, regs[v.reg].size, os, seen); os << "];"; } } else os << (i - off) << ":ptr;"; }
        else if (v.k == V_INT) os << (i - off) << ":" << ((v.x >> (8 * b.idx)) & 0xff) << ";";
        else if (v.k == V_SYM) os << (i - off) << ":*;";
    }
}
bool Interp::builtin(Frame& f, const CInst& c, FnInfo* fi, std::vector<Val>& a, Val& r) {
    auto I32 = [&](i64 v) { return Val::I((u64)v, 32); };
    switch (fi->bi) {
    case B_IGNORE: r = Val::undef(64); return true;
    case B_EXPECT: r = a[0]; return true;
    case B_MEMCPY: { i64 n = (i64)concrete(a[2], "copy size"); unsigned da = 1, sa = 1; if (auto* mi = dyn_cast<MemTransferInst>(c.I)) { da = (unsigned)mi->getDestAlign().valueOrOne().value(); sa = (unsigned)mi->getSourceAlign().valueOrOne().value(); } copyBytes(a[0], a[1], n, da, sa); r = a[0]; return true; }
    case B_MEMSET: { i64 n = (i64)concrete(a[2], "fill size"); if (n) { access(a[0], n, 1, true, "fill"); Val v = a[1]; if (v.k == V_INT) v = Val::I((u64)v.x, 8); else if (v.k == V_SYM) v = Val::S(AR.extract((int)v.x, 0, 8)); for (i64 i = 0; i < n; ++i) putVal(a[0].reg, a[0].x + i, v, 1); } r = a[0]; return true; }
    case B_LSTART: { Val p = a[1]; if (p.k == V_PTR && p.reg) { Region& R = regs[p.reg]; if (R.kind == R_STACK) { if (R.alive && !R.objs.empty()) fail("lifetime", "storage of a live object is reused"); R.alive = true; R.b.assign(R.size, Byte{}); R.born = ++stamp; } } return true; }
    case B_LEND: { Val p = a[1]; if (p.k == V_PTR && p.reg && regs[p.reg].kind == R_STACK && regs[p.reg].alive) endRegion(p.reg, "a scope ended"); return true; }
    case B_TYPEIDFOR: { r = I32(a[0].reg == 0 ? typeId(nullptr) : typeId(regs[a[0].reg].gv)); return true; }
    case B_TRAP: fail("terminate", "trap reached");
    case B_CHOICE: { int n = (int)concrete(a[0], "choice"); if (n > 60) unsup("choice width"); if (n <= 0) throw PathEnd(); r = I32(decide(n, maskw(n), cstr(a[1]), true)); return true; }
    case B_SYM: { r = Val::S(AR.mk(E_VAR, 64, -1, -1, -1, (u64)nsym++)); return true; }
    case B_ASSUME: { Val v = a[0]; if (v.k == V_INT) { if (!v.x) { ST.pruned++; throw PathEnd(); } return true; } if (v.k == V_SYM) { if (!sat((int)v.x)) { ST.pruned++; throw PathEnd(); } pc.push_back((int)v.x); return true; } fail("indeterminate", "precondition depends on an indeterminate value"); }
    case B_ASSERT: assertion(a[0], cstr(a[1])); return true;
    case B_COVER: ST.covers[cstr(a[0])]++; return true;
    case B_BORN: {
        Val p = a[0]; i64 sz = (i64)a[1].x; unsigned al = (unsigned)a[2].x; int tid = (int)a[3].x;
        access(p, sz, al, false, "construction"); ob("lifetime: no construction over a live object");
        for (auto& o : regs[p.reg].objs) if (o.off < p.x + sz && p.x < o.off + o.size) fail("lifetime", "an object of type T" + std::to_string(tid) + " is constructed over a live object of type T" + std::to_string(o.tid));
        regs[p.reg].objs.push_back(Obj{p.x, sz, tid}); liveTotal++; return true; }
    case B_DIE: {
        Val p = a[0]; int tid = (int)a[2].x; ob("lifetime: destruction of a live object");
        if (p.k != V_PTR || !p.reg || !regs[p.reg].alive) fail("lifetime", "destruction of T" + std::to_string(tid) + " at an address holding no object");
        auto& v = regs[p.reg].objs; for (size_t i = 0; i < v.size(); ++i) if (v[i].off == p.x && v[i].tid == tid) { v.erase(v.begin() + i); liveTotal--; i64 sz = (i64)a[1].x; for (i64 k = 0; k < sz; ++k) regs[p.reg].b[p.x + k] = Byte{}; return true; }
        fail("lifetime", "destruction of T" + std::to_string(tid) + " at an address holding no live object of that type"); }
    case B_USE: { Val p = a[0]; int tid = (int)a[1].x; ob("lifetime: use of a live object"); if (p.k != V_PTR || !p.reg || !regs[p.reg].alive || !findObj(p, tid)) fail("lifetime", "use of T" + std::to_string(tid) + " at an address holding no live object of that type"); return true; }
    case B_ISLIVE: { Val p = a[0]; int tid = (int)a[1].x; r = I32(p.k == V_PTR && p.reg && regs[p.reg].alive && findObj(p, tid)); return true; }
    case B_LIVETOTAL: r = I32(liveTotal); return true;
    case B_LIVEIN: { Val p = a[0]; i64 sz = (i64)a[1].x; int n = 0; if (p.k == V_PTR && p.reg) for (auto& o : regs[p.reg].objs) if (o.off >= p.x && o.off < p.x + sz) n++; r = I32(n); return true; }
    case B_ALLOC: case B_BOX: { i64 sz = (i64)concrete(a[0], "allocation size"); unsigned al = a.size() > 1 ? (unsigned)a[1].x : 16; if (sz > (1 << 20)) unsup("huge allocation"); r = Val::P(newRegion(fi->bi == B_BOX ? R_BOX : R_HEAP, sz, al, c.I), 0); return true; }
    case B_MALLOC: { i64 sz = (i64)concrete(a[0], "allocation size"); r = Val::P(newRegion(R_HEAP, sz, 16, c.I), 0); return true; }
    case B_FREE: case B_UNBOX: case B_CFREE: { Val p = a[0]; ob("heap: release of a live allocation"); if (p.k == V_PTR && p.reg == 0) return true; if (p.k != V_PTR) fail("heap", "release of an indeterminate pointer"); Region& R = regs[p.reg]; RK want = fi->bi == B_UNBOX ? R_BOX : R_HEAP;
        if (R.kind != want) fail("heap", "release of memory that was not allocated"); if (!R.alive) fail("heap", "memory released twice"); if (p.x != 0) fail("heap", "release of a pointer into the middle of an allocation"); endRegion(p.reg, "memory was released"); return true; }
    case B_HEAPTOTAL: { int n = 0; for (auto& R : regs) if (R.alive && R.kind == R_HEAP) n++; r = I32(n); return true; }
    case B_UF: { if (!a[1].num() || !a[2].num()) fail("indeterminate", "an operation reads an indeterminate value"); int x = AR.ext(E_SEXT, a[1].term(), 64), y = AR.ext(E_SEXT, a[2].term(), 64); r = Val::S(AR.mk(E_UF, 64, x, y, -1, (u64)a[0].x)); return true; }
    case B_INSIDE: { Val p = a[0], q = a[1]; i64 n = (i64)a[2].x, sz = (i64)a[3].x; r = I32(p.k == V_PTR && q.k == V_PTR && p.reg == q.reg && p.x >= q.x && p.x + sz <= q.x + n); return true; }
    case B_ALIGNED: { Val p = a[0]; unsigned al = (unsigned)a[1].x; r = I32(p.k == V_PTR && p.reg && regs[p.reg].align >= al && p.x % al == 0); return true; }
    case B_GEN: gen = a[0].x != 0; return true;
    case B_MARK: return true;
    case B_FRAMEB: frameOn = true; frameMark = stamp; frameAllow.clear(); frameTag = cstr(a[0]); return true;
    case B_FRAMEA: { Val p = a[0]; if (p.k == V_PTR && p.reg) { std::vector<int> w{p.reg}; while (!w.empty()) { int q = w.back(); w.pop_back(); if (!frameAllow.insert(q).second) continue; for (auto& b : regs[q].b) if (b.v && pool[b.v].k == V_PTR && pool[b.v].reg && regs[pool[b.v].reg].alive && regs[pool[b.v].reg].kind == R_HEAP) w.push_back(pool[b.v].reg); } } return true; }
    case B_FRAMEE: if (frameOn) ob("frame"); frameOn = false; return true;
    case B_IMAGE: { int kind = (int)a[0].x; std::ostringstream os; std::map<int, int> seen; os << cstr(a[3]) << "|"; if (a[1].k == V_PTR && a[1].reg && regs[a[1].reg].alive) image(a[1].reg, a[1].x, (i64)a[2].x, os, seen); if (kind == 0) ST.genImages.insert(os.str()); else ST.postImages.insert(os.str()); return true; }
    case B_FORGET: { Val p = a[0]; i64 n = (i64)a[1].x; access(p, n, 1, true, "forget"); for (i64 i = 0; i < n; ++i) regs[p.reg].b[p.x + i] = Byte{}; return true; }
    case B_LEARN: if (a[0].k == V_PTR && a[0].reg && regs[a[0].reg].kind == R_FN) learnStub = regs[a[0].reg].fn; return true;
    case B_CONTRACTS: contractsOn = a[0].x != 0; return true;
    case B_ENGINE: r = I32(1); return true;
    case B_OPAQUE: { int rr = newRegion(R_OPAQUE, 4096, 16, c.I); r = Val::P(rr, 0); return true; }
    case B_UNCAUGHT: r = Val::I(0, c.w ? c.w : 1); return true;
    case B_CXAALLOC: r = Val::P(newRegion(R_EXC, (i64)concrete(a[0], "size"), 16, c.I), 0); return true;
    case B_CXAFREE: regs[a[0].reg].objs.clear(); endRegion(a[0].reg, "exception released"); return true;
    case B_CXATHROW: { Exc e; e.reg = a[0].reg; e.ti = regs[a[1].reg].gv; e.dtor = a[2]; excs.push_back(e); raise((int)excs.size() - 1, &c); return false; }
    case B_CXAGETPTR: r = a[0]; return true;
    case B_CXABEGIN: { int ei = excOf(a[0]); excs[ei].handlers++; excs[ei].rethrown = false; caught.push_back(ei); r = a[0]; return true; }
    case B_CXAEND: {
        if (caught.empty()) { return true; } int ei = caught.back(); caught.pop_back(); Exc& e = excs[ei]; e.handlers--;
        if (e.handlers == 0 && !e.rethrown) {
            if (e.dtor.k == V_PTR && e.dtor.reg && regs[e.dtor.reg].kind == R_FN) { FnInfo* df = getFn(regs[e.dtor.reg].fn); if (df->bi == B_INTERP) { std::vector<Val> aa{Val::P(e.reg, 0)}; call(df, aa, &c, -1); stk.back()->cleanupDtor = true; return false; } }
        } return true; }
    case B_CXARETHROW: { ob("exception: rethrow inside a handler"); if (caught.empty()) fail("terminate", "rethrow outside a handler"); int ei = caught.back(); excs[ei].rethrown = true; raise(ei, &c); return false; }
    case B_TERMINATE: { ob("no termination"); std::string n = fi->F->getName().str(); if (n == "__assert_fail") fail("assertion", "library assertion fails: " + cstr(a[0])); if (n == "_ZSt9terminatev" || n == "__clang_call_terminate") fail("terminate", "an exception leaves a function that must not throw (std::terminate)"); fail("terminate", n + " is reached"); }
    case B_STRCMP: { std::string x = cstr(a[0]), y = cstr(a[1]); int v = x.compare(y); r = I32(v < 0 ? -1 : v > 0); return true; }
    case B_STRLEN: r = Val::I(cstr(a[0]).size(), 64); return true;
    case B_MEMCMP: { i64 n = (i64)concrete(a[2], "size"); int v = 0; for (i64 i = 0; i < n && !v; ++i) { Val x = getVal(a[0].reg, a[0].x + i, 1, 8, false), y = getVal(a[1].reg, a[1].x + i, 1, 8, false); v = (int)concrete(x, "memcmp") - (int)concrete(y, "memcmp"); } r = I32(v); return true; }
    case B_GUARDACQ: { Val v = getVal(a[0].reg, a[0].x, 1, 8, false); r = I32(!(v.k == V_INT && v.x)); return true; }
    case B_GUARDREL: putVal(a[0].reg, a[0].x, Val::I(1, 8), 1); return true;
    case B_UNSUP: unsup("intrinsic " + fi->F->getName().str());
    default: unsup("external function " + demang(fi->F->getName().str()));
    }
}

// ------------------------------------------------------------------ driver
static std::string js(const std::string& s) { std::string o = "\""; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += (char)ch; } return o + "\""; }
int main(int argc, char** argv) {
    std::string in, out, entry; u64 maxPaths = 3000000; double maxSec = 800; bool list = false, useContracts = true, stopFirst = false;
    for (int i = 1; i < argc; ++i) { std::string s = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (s == "--entry") entry = nx(); else if (s == "--dump") dumpDir = nx(); else if (s == "--out") out = nx(); else if (s == "--max-sec") maxSec = std::stod(nx()); else if (s == "--max-paths") maxPaths = std::stoull(nx()); else if (s == "--list") list = true; else if (s == "--inline") useContracts = false; else if (s == "--repo") repoRoot = nx(); else if (s == "--stop-first") stopFirst = true; else in = s; }
    LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(in, err, ctx);
    if (!mod) { fprintf(stderr, "cannot read %s\n", in.c_str()); return 3; }
    M = mod.get(); DL = &M->getDataLayout();
    if (list) { for (auto& F : *M) if (!F.isDeclaration() && F.getName().starts_with("vc_")) printf("%s\n", F.getName().str().c_str()); return 0; }
    Function* E = M->getFunction(entry); if (!E) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    z3::context zc; Z = &zc; z3::sort b64 = zc.bv_sort(64); z3::sort dom[3] = {b64, b64, b64}; z3::func_decl uf = zc.function("uf", 3, dom, b64); zuf = &uf;
    auto t0 = std::chrono::steady_clock::now(); std::string status = "ok", why;
    std::vector<Decision> dec; std::map<Function*, Function*> contracts; bool complete = false;
    try {
        for (;;) {
            Interp it(&dec, &contracts); bool failed = false;
            (void)useContracts;
            try { it.run(E); ST.paths++; } catch (PathEnd&) { ST.paths++; } catch (PathFail&) { ST.paths++; failed = true; }
            if (failed && stopFirst) { status = "ok"; break; }
            // a learning run only records the callee; run the same decision vector again
            // next decision vector (a replayed prefix may be longer than what was consumed)
            dec.resize(std::min(dec.size(), it.dpos));
            while (!dec.empty()) { Decision& d = dec.back(); int t = d.taken + 1; while (t < d.n && !((d.feas >> t) & 1)) t++; if (t < d.n) { d.taken = t; break; } dec.pop_back(); }
            if (dec.empty()) { complete = true; break; }
            double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if (ST.paths >= maxPaths || el > maxSec) { status = "limit"; why = "path or time limit"; break; }
        }
    } catch (Unsupported& u) { status = "unsupported"; why = u.why; }
    catch (z3::exception& e) { status = "unsupported"; why = std::string("solver: ") + e.msg(); }
    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    std::ostringstream o; o << "{\"entry\":" << js(entry) << ",\"status\":" << js(status) << ",\"why\":" << js(why) << ",\"complete\":" << (complete ? "true" : "false") << ",\"paths\":" << ST.paths << ",\"insts\":" << ST.insts << ",\"pruned\":" << ST.pruned << ",\"gen_blocked\":" << ST.genBlocked
      << ",\"smt_queries\":" << ST.smtq << ",\"smt_obligations\":" << ST.smtObl << ",\"smt_s\":" << ST.smts << ",\"wall_s\":" << el << ",\"fail_count\":" << ST.failCount << ",\"contract_calls\":" << ST.contractCalls;
    o << ",\"obligations\":{"; bool first = true; for (auto& p : ST.oblig) { o << (first ? "" : ",") << js(p.first) << ":" << p.second; first = false; }
    o << "},\"covers\":{"; first = true; for (auto& p : ST.covers) { o << (first ? "" : ",") << js(p.first) << ":" << p.second; first = false; }
    o << "},\"functions\":["; first = true; { std::set<std::string> names; for (auto* fi : ST.fns) if (fi->lib) { std::string f = fi->file.substr(fi->file.find("include/boost") == std::string::npos ? 0 : fi->file.find("include/boost")); auto* sp = fi->F->getSubprogram(); std::string n = sp ? sp->getName().str() : ""; names.insert(f + ":" + std::to_string(fi->line) + " " + n); } for (auto& s : names) { o << (first ? "" : ",") << js(s); first = false; } }
    o << "],\"contracts_used\":["; first = true; for (auto& s : ST.contractsUsed) { o << (first ? "" : ",") << js(s); first = false; }
    o << "],\"gen_images\":["; first = true; for (auto& s : ST.genImages) { o << (first ? "" : ",") << js(s); first = false; }
    o << "],\"post_images\":["; first = true; for (auto& s : ST.postImages) { o << (first ? "" : ",") << js(s); first = false; }
    o << "],\"failures\":["; first = true;
    for (auto& f : ST.fails) { o << (first ? "" : ",") << "{\"kind\":" << js(f.kind) << ",\"msg\":" << js(f.msg) << ",\"trace\":["; first = false; for (size_t i = 0; i < f.trace.size(); ++i) o << (i ? "," : "") << js(f.trace[i]); o << "],\"choices\":["; for (size_t i = 0; i < f.choices.size(); ++i) o << (i ? "," : "") << f.choices[i]; o << "],\"labels\":["; for (size_t i = 0; i < f.labels.size(); ++i) o << (i ? "," : "") << js(f.labels[i]); o << "],\"syms\":["; for (size_t i = 0; i < f.syms.size(); ++i) o << (i ? "," : "") << f.syms[i]; o << "],\"ufs\":["; for (size_t i = 0; i < f.ufs.size(); ++i) o << (i ? "," : "") << "[" << f.ufs[i][0] << "," << f.ufs[i][1] << "," << f.ufs[i][2] << "," << f.ufs[i][3] << "]"; o << "],\"smt\":" << js(f.smt) << "}"; }
    o << "]}\n";
    if (out.empty()) fputs(o.str().c_str(), stdout); else { std::ofstream fo(out); fo << o.str(); }
    return 0;
}
