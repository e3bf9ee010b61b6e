// C15: conversions.
#include "inh.hpp"
#ifndef VP_PART
#define VP_PART 3
#endif
namespace vp {
// the oracle: overload resolution done by the language over one function per bounded type
template <int I, class L> struct ov;
template <int I> struct ov<I, TL<> > { void f(); };
template <int I, class H> struct ov<I, TL<H> > { static char (&f(const H&))[I + 1]; };
template <int I, class H, class... R> struct ov<I, TL<H, R...> > : ov<I + 1, TL<R...> > { using ov<I + 1, TL<R...> >::f; static char (&f(const H&))[I + 1]; };
template <class L, class S> struct pick { enum { value = sizeof(ov<0, L>::f(std::declval<const S&>())) - 1 }; };
// a source value
template <class S> struct src; // mk(long), val
// how: 0 const lvalue, 1 lvalue, 2 rvalue
template <class V, class S> struct op_cc { void* p; S* s; int how; void operator()() { if (how == 0) new (p) V(const_cast<const S&>(*s)); else if (how == 1) new (p) V(*s); else if (how == 2) new (p) V(std::move(*s)); else new (p) V(static_cast<const S&&>(*s)); } };
template <class V, class S> struct op_ca { V* p; S* s; int how; void operator()() { V* r; if (how == 0) r = &(*p = const_cast<const S&>(*s)); else if (how == 1) r = &(*p = *s); else if (how == 2) r = &(*p = std::move(*s)); else r = &(*p = static_cast<const S&&>(*s)); VP_CHECK(r == p, "assign.ret assignment returns the target"); } };
template <class Cfg, class S> struct want { int which; long v; };
struct KMSrc; template <class K, class S> bool consumed(K*, const S&) { return true; } template <class S> bool consumed(KMSrc*, const S& s) { return s.v == -1; }
// from a value: K is the kind of the source, X the expected value as a function of the source value
template <class Cfg, class S, class K> void convert_ctor() {
    typedef typename Cfg::V V; typedef typename Cfg::L L; const int I = pick<L, S>::value; Box<V> x; long q = vp_sym("value"); S s(K::mk(q)); int base = vp_live_total(); long q0 = K::val(s); int how = vp_choice(4, "const lvalue / lvalue / rvalue / const rvalue");
    op_cc<V, S> f = { x.p, &s, how }; Outcome o = attempt(f); exc_clause(o);
    if (how != 2) VP_CHECK(K::val(s) == q0, "convert.source an lvalue source is unchanged"); else if (o.k == OK) VP_CHECK(consumed((K*)0, s), "convert.consumed an rvalue source is moved from");
    if (o.k == OK) { vp_cover("post: converted"); View w = inv<Cfg>(x.p); one_each<Cfg>(base, &w); VP_CHECK(w.which == I, "convert.type the bounded type chosen by overload resolution is held"); VP_CHECK((w.v == K::template to<typename at<I, L>::type>(q0)), "convert.value the converted value is held"); x.destroy(); }
    else vp_cover("post: conversion failed");
    VP_CHECK(vp_live_total() == base, "convert.leak nothing is left behind");
}
template <class Cfg, class S, class K> void convert_assign() {
    typedef typename Cfg::V V; typedef typename Cfg::L L; const int I = pick<L, S>::value; Box<V> x; View t0 = any<Cfg>(x.p, "target"); { long q = vp_sym("value"); int b0 = vp_live_total(); S s(K::mk(q)); int base = vp_live_total() - b0; long q0 = K::val(s); int how = vp_choice(4, "const lvalue / lvalue / rvalue / const rvalue");
    op_ca<V, S> f = { x.p, &s, how }; Outcome o = attempt(f); exc_clause(o);
    if (how != 2) VP_CHECK(K::val(s) == q0, "convert.source an lvalue source is unchanged"); else if (o.k == OK) VP_CHECK(consumed((K*)0, s), "convert.consumed an rvalue source is moved from");
    View w = inv<Cfg>(x.p); one_each<Cfg>(base, &w);
    if (o.k == OK) { vp_cover("post: assigned"); VP_CHECK(w.which == I, "convert.type the bounded type chosen by overload resolution is held"); VP_CHECK((w.v == K::template to<typename at<I, L>::type>(q0)), "convert.value the converted value is held"); }
    else { vp_cover("post: assignment failed"); failed_target<Cfg>(t0, w, I); } }
    x.destroy();
}
// ---- sources
template <class S> struct KNum { static S mk(long x) { return (S)x; } static long val(const S& s) { return (long)s; } template <class T> static long to(long q) { return (long)(T)(S)q; } };
struct Src { long x; };                                        // converts to Conv only
struct Conv : Obj<30, ALLT> { Conv() {} explicit Conv(vp::val q) : Obj<30, ALLT>(q) {} Conv(const Src& s) : Obj<30, ALLT>(check(s)) {} static vp::val check(const Src& s) { if (may_fail()) raise(31); return vp::val(s.x ^ 0x55); } };
template <> struct kind<Conv> : der_kind<Conv, 70> { static long val(const Conv& c) { return kind<Obj<30, ALLT> >::val(c); } static long def() { return defv(30); } static void put(Conv& c, long x) { kind<Obj<30, ALLT> >::put(c, x); } };
struct KSrc { static Src mk(long x) { Src s = { x }; return s; } static long val(const Src& s) { return s.x; } template <class T> static long to(long q) { return q ^ 0x55; } };
// a type with a conversion operator to a bounded type
struct Oper { long x; operator Unrel() const { if (may_fail()) raise(32); return Unrel(vp::val(x + 1)); } };
struct KOper { static Oper mk(long x) { Oper s; s.x = x; return s; } static long val(const Oper& s) { return s.x; } template <class T> static long to(long q) { return q + 1; } };
// moving conversion: an rvalue source is consumed
struct MSrc : Obj<33, 0> { MSrc() {} explicit MSrc(vp::val q) : Obj<33, 0>(q) {} };
struct MConv : Obj<34, CT | DT> { MConv() {} explicit MConv(vp::val q) : Obj<34, CT | DT>(q) {} MConv(const MSrc& s) : Obj<34, CT | DT>(vp::val(s.v)) { g.copies++; } MConv(MSrc&& s) : Obj<34, CT | DT>(vp::val(s.v)) { s.set(-1); g.moves++; } };
template <> struct kind<MConv> : der_kind<MConv, 71> { enum { move_nx = 1, massign_nx = 1, cassign_nx = 1 }; static long val(const MConv& c) { return kind<Obj<34, CT | DT> >::val(c); } static long def() { return defv(34); } static void put(MConv& c, long x) { kind<Obj<34, CT | DT> >::put(c, x); } };
struct KMSrc { static MSrc mk(long x) { return MSrc(vp::val(x)); } static long val(const MSrc& s) { return s.v; } template <class T> static long to(long q) { return q; } };
// derived to base
struct KDer { static Der mk(long x) { return Der(vp::val(x)); } static long val(const Der& s) { return kind<Base>::val(s); } template <class T> static long to(long q) { return q; } };
struct KMul { static Mul mk(long x) { return Mul(vp::val(x)); } static long val(const Mul& s) { return kind<Base>::val(s); } template <class T> static long to(long q) { return q; } };
// enumerations and booleans
enum Color { red = 1, green = 2 };
struct KColor { static Color mk(long x) { return (x & 1) ? red : green; } static long val(const Color& s) { return (long)s; } template <class T> static long to(long q) { return q; } };
struct KBool { static bool mk(long x) { return (x & 1) != 0; } static long val(const bool& s) { return s ? 1 : 0; } template <class T> static long to(long q) { return q; } };
// pointers
template <> struct kind<const Base*> { enum { tid = 72, ghost = 0, copy_nx = 1, move_nx = 1, def_nx = 1, cassign_nx = 1, massign_nx = 1 }; static Base* obj() { return reinterpret_cast<Base*>(&cell()); } static long& cell() { static long c[64]; return c[0]; } static const Base* mk(long) { return 0; } static long canon(long) { return 0; } static long val(const Base* const& p) { return p == 0 ? 0 : 1; } static long def() { return 0; } static void put(const Base*&, long) {} };
template <> struct kind<bool> : pod_kind<bool, 73> { static long canon(long x) { return (x & 1); } static bool mk(long x) { return (x & 1) != 0; } };

#define CFGX(NAME, FB, INP, B0, B1, ...) struct NAME { typedef TL<__VA_ARGS__> L; typedef boost::variant<__VA_ARGS__> V; static bool rec_at(int) { return false; } enum { fallback = FB, in_place = INP }; VP_CFG_BODY(NAME, B0, B1) };
#define CFGN(NAME, ...) struct NAME { typedef TL<__VA_ARGS__> L; typedef boost::variant<__VA_ARGS__> V; static bool rec_at(int) { return false; } enum { fallback = 0, in_place = 1 }; static const char* name() { return #NAME; } static void fail_into(V*, int) { vp_assume(false); } };
CFGX(CvNum, 1, 1, A, B, A, long, B, int)
CFGN(CvLongs, long, int, char)
CFGX(CvUns, 1, 1, A, B, A, unsigned, unsigned short, B)
struct CvConv { typedef TL<A, Conv, int> L; typedef boost::variant<A, Conv, int> V; static bool rec_at(int) { return false; } enum { fallback = 2, in_place = 1 }; VP_CFG_BODY(CvConv, A, A) };
struct CvConvB { typedef TL<A, Conv, B> L; typedef boost::variant<A, Conv, B> V; static bool rec_at(int) { return false; } enum { fallback = -1, in_place = 0 }; VP_CFG_BODY(CvConvB, A, B) };
struct CvOper { typedef TL<A, Unrel, B> L; typedef boost::variant<A, Unrel, B> V; static bool rec_at(int) { return false; } enum { fallback = 1, in_place = 1 }; VP_CFG_BODY(CvOper, A, B) };
struct CvMove { typedef TL<A, MConv, B> L; typedef boost::variant<A, MConv, B> V; static bool rec_at(int) { return false; } enum { fallback = -1, in_place = 0 }; VP_CFG_BODY(CvMove, A, B) };
struct CvBase { typedef TL<A, Base, B> L; typedef boost::variant<A, Base, B> V; static bool rec_at(int) { return false; } enum { fallback = -1, in_place = 0 }; VP_CFG_BODY(CvBase, A, B) };
struct CvBool { typedef TL<A, bool, B> L; typedef boost::variant<A, bool, B> V; static bool rec_at(int) { return false; } enum { fallback = 1, in_place = 1 }; VP_CFG_BODY(CvBool, A, B) };

// ---- foreign variants: source SCfg, target TCfg; every source type J converts as pick<> says
template <class TCfg, class SCfg> struct fv {
    typedef typename TCfg::V V; typedef typename SCfg::V S; typedef typename TCfg::L L; typedef typename SCfg::L SL;
    struct exp_f { long v; int which; long out; bool exact; template <class T, int J> void run() { enum { I = pick<L, T>::value }; which = I; out = SCfg::template conv<T, typename at<I, L>::type>(v); exact = std::is_same<T, typename at<I, L>::type>::value; } };
    static exp_f expect(const View& s) { exp_f e = { s.v, -1, 0, false }; dispatch<SL>::go(s.which, e); return e; }
    static void ctor() {
        Box<V> x; Box<S> s; View s0 = any<SCfg>(s.p, "source"); int how = vp_choice(4, "const lvalue / lvalue / rvalue / const rvalue"); op_cc<V, S> f = { x.p, s.p, how };
        vp_frame_begin("converting construction"); vp_frame_allow(x.p); if (how == 2) vp_frame_allow(s.p); Outcome o = attempt(f); vp_frame_end(); exc_clause(o); int copies = g.copies, moves = g.moves;
        View s1 = inv<SCfg>(s.p); if (how != 2) VP_CHECK(same(s0, s1), "convert.source an lvalue source is unchanged"); else VP_CHECK(s0.which == s1.which, "convert.source.type a moved-from source keeps its type");
        exp_f e = expect(s0);
        if (o.k == OK) { vp_cover("post: converted"); View w = inv<TCfg>(x.p); one_each<TCfg>(0, &w, &s1); VP_CHECK(w.which == e.which, "convert.type the content is converted to the best bounded type"); VP_CHECK(w.v == e.out, "convert.value the converted value is held"); VP_CHECK(!(how == 2 && e.exact && s0.ghost) || (copies == 0 && moves >= 1), "convert.moved content of an rvalue source is moved, not copied"); x.destroy(); }
        else { vp_cover("post: conversion failed"); one_each<TCfg>(0, &s1); }
        s.destroy();
    }
    static void assign() {
        Box<V> x; Box<S> s; View t0 = any<TCfg>(x.p, "target"), s0 = any<SCfg>(s.p, "source", 2); int how = vp_choice(4, "const lvalue / lvalue / rvalue / const rvalue"); op_ca<V, S> f = { x.p, s.p, how };
        vp_frame_begin("converting assignment"); vp_frame_allow(x.p); if (how == 2) vp_frame_allow(s.p); Outcome o = attempt(f); vp_frame_end(); exc_clause(o); int copies = g.copies;
        View s1 = inv<SCfg>(s.p); if (how != 2) VP_CHECK(same(s0, s1), "convert.source an lvalue source is unchanged"); else VP_CHECK(s0.which == s1.which, "convert.source.type a moved-from source keeps its type");
        exp_f e = expect(s0); View w = inv<TCfg>(x.p); one_each<TCfg>(0, &w, &s1);
        if (o.k == OK) { vp_cover("post: assigned"); VP_CHECK(w.which == e.which, "convert.type the content is converted to the best bounded type"); VP_CHECK(w.v == e.out, "convert.value the converted value is held"); if (how == 2 && e.exact && move_nx_at<L>(e.which) && massign_nx_at<L>(e.which) && !TCfg::rec_at(e.which)) VP_CHECK(copies == 0, "convert.moved content of an rvalue source is moved, not copied"); }
        else { vp_cover("post: assignment failed"); failed_target<TCfg>(t0, w, e.which); }
        x.destroy(); s.destroy();
    }
};
struct idconv { template <class T, class U> static long conv(long v) { return v; } };
template <class C> struct Id : C, idconv { static const char* name() { return C::name(); } };
struct numconv { template <class T, class U> static long conv(long v) { return conv_((T*)0, (U*)0, v); } template <class T, class U> static long conv_(T*, U*, long v) { return v; } template <class U> static long conv_(short*, U*, long v) { return v; } };
template <> struct kind<short> : pod_kind<short, 57> {};
template <> struct kind<Src> { enum { tid = 74, ghost = 0, copy_nx = 1, move_nx = 1, def_nx = 1, cassign_nx = 1, massign_nx = 1 }; static Src mk(long x) { Src s = { x }; return s; } static long canon(long x) { return x; } static long val(const Src& s) { return s.x; } static long def() { return 0; } static void put(Src& s, long x) { s.x = x; } };
// sources
struct FsSub { typedef TL<A, C, B> L; typedef boost::variant<A, C, B> V; static bool rec_at(int) { return false; } enum { fallback = -1, in_place = 0 }; VP_CFG_BODY(FsSub, A, B) };
struct FsRec { typedef TL<A, R, B> L; typedef boost::variant<A, boost::recursive_wrapper<R>, B> V; static bool rec_at(int i) { return i == 1; } enum { fallback = -1, in_place = 0 }; VP_CFG_BODY(FsRec, A, B) };
struct FsNum : numconv { typedef TL<A, short, B> L; typedef boost::variant<A, short, B> V; static bool rec_at(int) { return false; } enum { fallback = 1, in_place = 1 }; VP_CFG_BODY(FsNum, A, B) };
struct FsConv { typedef TL<A, Src> L; typedef boost::variant<A, Src> V; static bool rec_at(int) { return false; } enum { fallback = 1, in_place = 1 }; static const char* name() { return "FsConv"; } static void fail_into(V* p, int i) { vp_assume(i == 1); V bomb(kind<A>::mk(1)); g.force = 0; provoke(p, bomb); g.force = -1; } template <class T, class U> static long conv(long v) { return conv_((T*)0, v); } static long conv_(Src*, long v) { return v ^ 0x55; } static long conv_(A*, long v) { return v; } };
struct FsDer { typedef TL<Der, Mul, A> L; typedef boost::variant<Der, Mul, A> V; static bool rec_at(int) { return false; } enum { fallback = -1, in_place = 0 }; VP_INH_BODY(FsDer, Der, Mul) };
// targets
struct FtMany { typedef TL<B, D, A, C> L; typedef boost::variant<B, D, A, C> V; static bool rec_at(int) { return false; } enum { fallback = -1, in_place = 0 }; VP_CFG_BODY(FtMany, A, B) };
struct FtFall { typedef TL<N, B, A, C> L; typedef boost::variant<N, B, A, C> V; static bool rec_at(int) { return false; } enum { fallback = 0, in_place = 1 }; VP_CFG_BODY(FtFall, A, B) };
struct FtRec { typedef TL<B, R, A> L; typedef boost::variant<B, boost::recursive_wrapper<R>, A> V; static bool rec_at(int i) { return i == 1; } enum { fallback = -1, in_place = 0 }; VP_CFG_BODY(FtRec, A, B) };
struct FtPlain { typedef TL<B, R, A> L; typedef boost::variant<B, R, A> V; static bool rec_at(int) { return false; } enum { fallback = -1, in_place = 0 }; VP_CFG_BODY(FtPlain, A, B) };

// ---- a variant that is itself a bounded type is stored whole
typedef boost::variant<A, int> Inner;
struct CfgInner { typedef TL<A, int> L; typedef Inner V; static bool rec_at(int) { return false; } enum { fallback = 1, in_place = 1 }; static const char* name() { return "CfgInner"; } static void fail_into(V* p, int i) { vp_assume(i == 1); V bomb(kind<A>::mk(1)); g.force = 0; provoke(p, bomb); g.force = -1; } };
template <> struct kind<Inner> { enum { tid = 75, ghost = 1, copy_nx = 0, move_nx = 0, def_nx = 0, cassign_nx = 0, massign_nx = 0 }; static Inner mk(long x) { if (x & 1) return Inner(A(vp::val(x))); return Inner((int)x); }
    static long canon(long x) { return x; } static long val(const Inner& i) { View w = probe<CfgInner::L>(i); return w.v * 2 + w.which; } static long def() { return defv(0) * 2; } };
template <class V, class F> struct whole {
    static void ctor() {
        Box<V> x; Box<Inner> s; View s0 = any<CfgInner>(s.p, "source"); int how = vp_choice(4, "const lvalue / lvalue / rvalue / const rvalue"); op_cc<V, Inner> f = { x.p, s.p, how }; Outcome o = attempt(f); exc_clause(o);
        View s1 = inv<CfgInner>(s.p); if (how != 2) VP_CHECK(same(s0, s1), "convert.source an lvalue source is unchanged"); else VP_CHECK(s0.which == s1.which, "convert.source.type a moved-from source keeps its type");
        if (o.k == OK) { vp_cover("post: stored whole"); held(*x, s0); x.destroy(); }
        VP_CHECK(vp_live_total() == (s1.ghost ? 1 : 0), "convert.leak nothing is left behind"); s.destroy();
    }
    static void held(V& v, const View& s0) { VP_CHECK(v.which() == 1, "whole.type the variant is stored whole"); const Inner* p = boost::get<Inner>(&v); VP_CHECK(p != 0, "whole.get the stored variant can be got"); View w = probe<CfgInner::L>(*p); VP_CHECK(same(w, s0), "whole.value the stored variant equals the given one"); }
    static void assign() {
        Box<V> x; int st = vp_choice(4, "target holds"); g.armed = false; if (st == 0) new (x.p) V(kind<F>::mk(1)); else if (st == 1) new (x.p) V(Inner(3)); else if (st == 2) new (x.p) V(Inner(A(vp::val(4)))); else { new (x.p) V(Inner(A(vp::val(4)))); vp_gen(1); V b(kind<F>::mk(1)); g.force = kind<F>::tid; try { *x = static_cast<const V&>(b); } VP_CATCH_CONTENT(;) g.force = -1; vp_gen(0); }
        int w0 = x->which(); Box<Inner> s; View s0 = any<CfgInner>(s.p, "source"); int how = vp_choice(4, "const lvalue / lvalue / rvalue / const rvalue"); op_ca<V, Inner> f = { x.p, s.p, how }; Outcome o = attempt(f); exc_clause(o);
        View s1 = inv<CfgInner>(s.p); if (how != 2) VP_CHECK(same(s0, s1), "convert.source an lvalue source is unchanged");
        if (o.k == OK) { vp_cover("post: assigned whole"); held(*x, s0); } else { vp_cover("post: assignment failed"); VP_CHECK(w0 == 1 || x->which() == 0, "fail.keep a failed assignment leaves the target's type unchanged"); }
        x.destroy(); VP_CHECK(vp_live_total() == (s1.ghost ? 1 : 0), "convert.leak nothing is left behind"); s.destroy();
    }
    // values that only the inner variant takes select it
};
typedef boost::variant<B, Inner> VWhole; typedef boost::variant<A, Inner> VWholeA; typedef boost::variant<int, Inner> VWholeI; typedef boost::variant<long, Inner, A> VWholeM;
}
#define CV(NAME, CFG, S, K) extern "C" void vc_ctor__##NAME() { vp::convert_ctor<vp::CFG, S, K >(); } extern "C" void vc_assign__##NAME() { vp::convert_assign<vp::CFG, S, K >(); }
#if VP_PART & 1
CV(short_to_int, CvNum, short, vp::KNum<short>) CV(char_to_int, CvNum, signed char, vp::KNum<signed char>) CV(ushort_to_int, CvNum, unsigned short, vp::KNum<unsigned short>) CV(bool_to_int, CvNum, bool, vp::KBool) CV(enum_to_int, CvNum, vp::Color, vp::KColor)
CV(long_exact, CvNum, long, vp::KNum<long>) CV(short_to_int2, CvLongs, short, vp::KNum<short>) CV(char_exact, CvLongs, char, vp::KNum<char>) CV(ushort_exact, CvUns, unsigned short, vp::KNum<unsigned short>)
CV(user_ctor, CvConv, vp::Src, vp::KSrc) CV(user_ctor_backup, CvConvB, vp::Src, vp::KSrc) CV(user_oper, CvOper, vp::Oper, vp::KOper) CV(user_move, CvMove, vp::MSrc, vp::KMSrc)
CV(derived, CvBase, vp::Der, vp::KDer) CV(derived_mul, CvBase, vp::Mul, vp::KMul) CV(int_to_bool, CvBool, int, vp::KNum<int>)
#endif
#define FV(NAME, T, S) extern "C" void vc_fctor__##NAME() { vp::fv<vp::T, vp::S>::ctor(); } extern "C" void vc_fassign__##NAME() { vp::fv<vp::T, vp::S>::assign(); }
#if VP_PART & 2
FV(sub_many, FtMany, Id<vp::FsSub>) FV(sub_fall, FtFall, Id<vp::FsSub>) FV(rec_rec, FtRec, Id<vp::FsRec>) FV(plain_rec, FtRec, Id<vp::FtPlain>) FV(num, CvNum, FsNum) FV(conv, CvConv, FsConv) FV(der, CvBase, Id<vp::FsDer>)
#define WHOLE(N, V, F) extern "C" void vc_whole_ctor_##N() { vp::whole<vp::V, F>::ctor(); } extern "C" void vc_whole_assign_##N() { vp::whole<vp::V, F>::assign(); }
WHOLE(B, VWhole, vp::B) WHOLE(A, VWholeA, vp::A) WHOLE(int, VWholeI, int) WHOLE(many, VWholeM, long)
#endif
