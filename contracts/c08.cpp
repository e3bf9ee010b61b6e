// C08: visitation of two and more variants.
#include "vis.hpp"
#include <boost/variant/multivisitors.hpp>
#if defined(__cpp_decltype_auto) && __cpp_decltype_auto >= 201304
#define VP14 1
#else
#define VP14 0
#endif
namespace vp {
struct Cfg2b { typedef TL<O3, C> L; typedef boost::variant<O3, C> V; static bool rec_at(int) { return false; } enum { fallback = -1, in_place = 0 }; VP_CFG_BODY(Cfg2b, O3, C) };
struct Cfg2c { typedef TL<B, R> L; typedef boost::variant<B, boost::recursive_wrapper<R> > V; static bool rec_at(int i) { return i == 1; } enum { fallback = -1, in_place = 0 }; VP_CFG_BODY(Cfg2c, B, R) };
struct Cfg2d { typedef TL<int, A> L; typedef boost::variant<int, A> V; static bool rec_at(int) { return false; } enum { fallback = 0, in_place = 1 }; VP_CFG_BODY(Cfg2d, A, A) };

// ---- binary
template <class V1, class V2> struct op2 { V1* a; V2* b; int form, ca, cb; long got;
    template <class X, class Y> void two(X&& x, Y&& y) {
        switch (form) {
        case 0: { RecL r; got = boost::apply_visitor(r, static_cast<X&&>(x), static_cast<Y&&>(y)); VP_CHECK(lg.self_const == 0 && lg.self == &r, "visit.visitor the given visitor object itself is invoked"); break; }
        case 1: { const RecL r; got = boost::apply_visitor(r, static_cast<X&&>(x), static_cast<Y&&>(y)); VP_CHECK(lg.self_const == 1 && lg.self == &r, "visit.visitor the given visitor object itself is invoked"); break; }
        case 2: { got = boost::apply_visitor(RecL(), static_cast<X&&>(x), static_cast<Y&&>(y)); break; }
#if VP14
        case 4: { RecD r; got = boost::apply_visitor(r, static_cast<X&&>(x), static_cast<Y&&>(y)); VP_CHECK(lg.self_const == 0 && lg.self == &r, "visit.visitor the given visitor object itself is invoked"); break; }
        case 5: { const RecD r; got = boost::apply_visitor(r, static_cast<X&&>(x), static_cast<Y&&>(y)); VP_CHECK(lg.self_const == 1 && lg.self == &r, "visit.visitor the given visitor object itself is invoked"); break; }
        case 6: { got = boost::apply_visitor([](auto&& t, auto&& u) -> long { log_args(0, static_cast<decltype(t)&&>(t), static_cast<decltype(u)&&>(u)); return log_call(0, 1); }, static_cast<X&&>(x), static_cast<Y&&>(y)); break; }
#endif
        default: vp_assume(false); } }
    template <class X, class Y> void delayed(X& x, Y& y) {
        if (form == 3) { RecL r; got = boost::apply_visitor(r)(x, y); VP_CHECK(lg.self == &r, "visit.visitor the given visitor object itself is invoked"); }
#if VP14
        else { RecD r; got = boost::apply_visitor(r)(x, y); VP_CHECK(lg.self == &r, "visit.visitor the given visitor object itself is invoked"); }
#endif
    }
    template <class X> void second(X&& x) { if (cb == LV) two(static_cast<X&&>(x), *b); else if (cb == CLV) two(static_cast<X&&>(x), const_cast<const V2&>(*b)); else two(static_cast<X&&>(x), std::move(*b)); }
    void operator()() { log_reset();
        if (form == 3 || form == 7) { if (ca == LV && cb == LV) delayed(*a, *b); else if (ca == CLV && cb == LV) delayed(const_cast<const V1&>(*a), *b); else if (ca == LV && cb == CLV) delayed(*a, const_cast<const V2&>(*b)); else if (ca == CLV && cb == CLV) delayed(const_cast<const V1&>(*a), const_cast<const V2&>(*b)); else vp_assume(false); return; }
        if (ca == LV) second(*a); else if (ca == CLV) second(const_cast<const V1&>(*a)); else second(std::move(*a)); } };
template <class C1, class C2> void contract_binary(int form) {
    typedef typename C1::V V1; typedef typename C2::V V2; Box<V1> a; Box<V2> b; View a0 = any<C1>(a.p, "first"), b0 = any<C2>(b.p, "second");
    int ca = vp_choice(3, "category of first"), cb = vp_choice(3, "category of second");
    op2<V1, V2> f = { a.p, b.p, form, ca, cb, 0 }; vp_frame_begin("visitation"); vp_frame_allow(&f); Outcome o = attempt(f); vp_frame_end();
    visited(o, f.got, 2); arg_is(0, a0, ca); arg_is(1, b0, cb); vp_cover(o.k == OK ? "post: visited" : "post: visitor threw");
    VP_CHECK(g.copies == 0 && g.moves == 0, "visit.pure visitation itself neither copies nor moves the content");
    View a1 = inv<C1>(a.p), b1 = inv<C2>(b.p); one_each<C1>(0, &a1, &b1); VP_CHECK(same(a0, a1) && same(b0, b1), "visit.unchanged visitation changes nothing of its own");
    a.destroy(); b.destroy();
}
// the same variant in both places
template <class Cfg> void contract_binary_same() {
    typedef typename Cfg::V V; Box<V> a; View a0 = any<Cfg>(a.p, "variant"); int form = vp_choice(VP14 ? 8 : 4, "form"); op2<V, V> f = { a.p, a.p, form, LV, LV, 0 };
    Outcome o = attempt(f); visited(o, f.got, 2); arg_is(0, a0, LV); arg_is(1, a0, LV); View a1 = inv<Cfg>(a.p); one_each<Cfg>(0, &a1); VP_CHECK(same(a0, a1), "visit.unchanged visitation changes nothing of its own"); vp_cover("post: visited"); a.destroy();
}
// other result types
template <class V1, class V2> struct op2r { V1* a; V2* b; int form; long got; int n; void operator()() { log_reset(); n = 2; switch (form) {
    case 0: { RecRef r; long& z = boost::apply_visitor(r, *a, *b); got = &z == &cells[1] ? lg.ret : ~lg.ret; break; }
    case 1: { RecVoid r; boost::apply_visitor(r, *a, *b); got = lg.ret; break; }
    case 2: { RecObj r; MoveOnly<13, 0> z(boost::apply_visitor(r, *a, *b)); got = z.v; break; }
#if VP14
    case 3: { RecDRef r; long& z = boost::apply_visitor(r, *a, *b); got = &z == &cells[1] ? lg.ret : ~lg.ret; break; }
    case 4: { RecDVoid r; boost::apply_visitor(r, *a, *b); got = lg.ret; break; }
    case 5: { RecDObj r; MoveOnly<13, 0> z(boost::apply_visitor(r, *a, *b)); got = z.v; break; }
    case 8: { RecDRef r; static_assert(std::is_same<decltype(boost::apply_visitor(r)(*a, *b)), long&>::value && std::is_same<decltype(boost::apply_visitor(r, *a, *b)), long&>::value, "VP:C08 the deduced result type is the visitor's"); long& z = boost::apply_visitor(r)(*a, *b); got = &z == &cells[1] ? lg.ret : ~lg.ret; break; }
    case 9: { RecDObj r; MoveOnly<13, 0> z(boost::apply_visitor(r)(*a, *b)); got = z.v; break; }
    case 10: { RecDVoid r; boost::apply_visitor(r)(*a, *b); got = lg.ret; break; }
#endif
    case 6: { RecRef r; long& z = boost::apply_visitor(r)(*a, *b); got = &z == &cells[1] ? lg.ret : ~lg.ret; break; }
    case 7: { RecObj r; MoveOnly<13, 0> z(boost::apply_visitor(r)(*a, *b)); got = z.v; break; }
    // three operands
    case 11: { n = 3; RecRef r; long& z = boost::apply_visitor(r, *a, *b, *a); got = &z == &cells[1] ? lg.ret : ~lg.ret; break; }
    case 12: { n = 3; RecVoid r; boost::apply_visitor(r, *a, *b, *a); got = lg.ret; break; }
    case 13: { n = 3; RecObj r; MoveOnly<13, 0> z(boost::apply_visitor(r, *a, *b, *a)); got = z.v; break; }
    case 14: { n = 3; RecRef r; long& z = boost::apply_visitor(r)(*a, *b, *a); got = &z == &cells[1] ? lg.ret : ~lg.ret; break; }
#if VP14
    case 15: { n = 3; RecDRef r; static_assert(std::is_same<decltype(boost::apply_visitor(r, *a, *b, *a)), long&>::value && std::is_same<decltype(boost::apply_visitor(r)(*a, *b, *a)), long&>::value, "VP:C08 the deduced result type is the visitor's"); long& z = boost::apply_visitor(r, *a, *b, *a); got = &z == &cells[1] ? lg.ret : ~lg.ret; break; }
    case 16: { n = 3; RecDVoid r; boost::apply_visitor(r, *a, *b, *a); got = lg.ret; break; }
    case 17: { n = 3; RecDObj r; MoveOnly<13, 0> z(boost::apply_visitor(r, *a, *b, *a)); got = z.v; break; }
    case 18: { n = 3; RecDRef r; long& z = boost::apply_visitor(r)(*a, *b, *a); got = &z == &cells[1] ? lg.ret : ~lg.ret; break; }
#endif
    default: vp_assume(false); } } };
template <class C1, class C2> void contract_binary_results() {
    typedef typename C1::V V1; typedef typename C2::V V2; Box<V1> a; Box<V2> b; View a0 = any<C1>(a.p, "first"), b0 = any<C2>(b.p, "second"); int form = vp_choice(19, "result type");
    op2r<V1, V2> f = { a.p, b.p, form, 0, 2 }; Outcome o = attempt(f); visited(o, f.got, f.n); arg_is(0, a0, LV); arg_is(1, b0, LV); if (f.n == 3) arg_is(2, a0, LV); View a1 = inv<C1>(a.p), b1 = inv<C2>(b.p); one_each<C1>(0, &a1, &b1); VP_CHECK(same(a0, a1) && same(b0, b1), "visit.unchanged visitation changes nothing of its own"); vp_cover("post: visited"); a.destroy(); b.destroy();
}
// ---- three and more: rvalue operands may reach the visitor by way of a moved-to temporary
struct Many { int form; long got; int n;
    template <class... X> void go(X&&... x) { log_reset(); switch (form) {
        case 0: { RecL r; got = boost::apply_visitor(r, static_cast<X&&>(x)...); VP_CHECK(lg.calls == 0 || lg.self == &r, "visit.visitor the given visitor object itself is invoked"); break; }
        case 1: { const RecL r; got = boost::apply_visitor(r, static_cast<X&&>(x)...); VP_CHECK(lg.calls == 0 || lg.self == &r, "visit.visitor the given visitor object itself is invoked"); break; }
#if VP14
        case 2: { RecD r; got = boost::apply_visitor(r, static_cast<X&&>(x)...); VP_CHECK(lg.calls == 0 || lg.self == &r, "visit.visitor the given visitor object itself is invoked"); break; }
        case 3: { const RecD r; got = boost::apply_visitor(r, static_cast<X&&>(x)...); VP_CHECK(lg.calls == 0 || lg.self == &r, "visit.visitor the given visitor object itself is invoked"); break; }
#endif
        default: vp_assume(false); } }
    template <class... X> void delayed(X&... x) { log_reset(); if (form == 4) { RecL r; got = boost::apply_visitor(r)(x...); }
#if VP14
        else { RecD r; got = boost::apply_visitor(r)(x...); }
#endif
    } };
template <class V1, class V2, class V3> struct op3 { V1* a; V2* b; V3* c; Many* m; int ca, cb, cc;
    template <class X, class Y> void s3(X&& x, Y&& y) { if (cc == LV) m->go(static_cast<X&&>(x), static_cast<Y&&>(y), *c); else if (cc == CLV) m->go(static_cast<X&&>(x), static_cast<Y&&>(y), const_cast<const V3&>(*c)); else m->go(static_cast<X&&>(x), static_cast<Y&&>(y), std::move(*c)); }
    template <class X> void s2(X&& x) { if (cb == LV) s3(static_cast<X&&>(x), *b); else if (cb == CLV) s3(static_cast<X&&>(x), const_cast<const V2&>(*b)); else s3(static_cast<X&&>(x), std::move(*b)); }
    void operator()() { if (m->form >= 4) { if (ca != LV || cc != LV || cb == RV || (!VP14 && m->form == 5)) vp_assume(false); else if (cb == LV) m->delayed(*a, *b, *c); else m->delayed(*a, const_cast<const V2&>(*b), *c); return; }
        if (ca == LV) s2(*a); else if (ca == CLV) s2(const_cast<const V1&>(*a)); else s2(std::move(*a)); } };
inline bool many_visited(const Outcome& o, long got, int n, bool rv) {
    if (rv && lg.calls == 0) { VP_CHECK(o.k == EX || o.k == OOM, "visit.once the visitor is invoked exactly once"); VP_CHECK(o.faithful, "visit.exc.same exceptions propagate unchanged"); return false; }
    visited(o, got, n); return true; }
template <class C1, class C2, class C3> void contract_ternary(int form) {
    typedef typename C1::V V1; typedef typename C2::V V2; typedef typename C3::V V3; Box<V1> a; Box<V2> b; Box<V3> c; int st = 2;
    View a0 = any<C1>(a.p, "first", st), b0 = any<C2>(b.p, "second", st), c0 = any<C3>(c.p, "third", st); Many m = { form, 0, 3 };
    int ca = vp_choice(3, "category of first"), cb = vp_choice(3, "category of second"), cc = vp_choice(3, "category of third");
    op3<V1, V2, V3> f = { a.p, b.p, c.p, &m, ca, cb, cc }; vp_frame_begin("visitation"); vp_frame_allow(&m); if (ca == RV) vp_frame_allow(a.p); if (cb == RV) vp_frame_allow(b.p); if (cc == RV) vp_frame_allow(c.p); Outcome o = attempt(f); vp_frame_end();
    bool rv = ca == RV || cb == RV || cc == RV;
    if (many_visited(o, m.got, 3, rv)) { vp_cover("post: visited"); arg_is(0, a0, ca, ca != RV); arg_is(1, b0, cb, cb != RV); arg_is(2, c0, cc, cc != RV); }
    VP_CHECK(rv || (g.copies == 0 && g.moves == 0), "visit.pure visitation of lvalues neither copies nor moves the content"); VP_CHECK(g.copies == 0, "visit.nocopy visitation never copies content");
    View a1 = inv<C1>(a.p), b1 = inv<C2>(b.p), c1 = inv<C3>(c.p); one_each<C1>(c1.ghost, &a1, &b1);
    VP_CHECK(a1.which == a0.which && b1.which == b0.which && c1.which == c0.which, "visit.type.kept visitation keeps every variant's type");
    VP_CHECK((ca == RV || same(a0, a1)) && (cb == RV || same(b0, b1)) && (cc == RV || same(c0, c1)), "visit.unchanged visitation changes nothing of its own");
    a.destroy(); b.destroy(); c.destroy();
}
template <class V1, class V2, class V3, class V4> struct op4 { V1* a; V2* b; V3* c; V4* d; Many* m; int mode; void operator()() {
    switch (mode) { case 0: m->go(*a, *b, *c, *d); break; case 1: m->go(const_cast<const V1&>(*a), *b, const_cast<const V3&>(*c), *d); break; case 2: m->go(*a, std::move(*b), *c, std::move(*d)); break; default: m->go(std::move(*a), const_cast<const V2&>(*b), std::move(*c), *d); } } };
template <class C1, class C2, class C3, class C4> void contract_quaternary() {
    typedef typename C1::V V1; typedef typename C2::V V2; typedef typename C3::V V3; typedef typename C4::V V4; Box<V1> a; Box<V2> b; Box<V3> c; Box<V4> d;
    View a0 = any<C1>(a.p, "first", 2), b0 = any<C2>(b.p, "second", 2), c0 = any<C3>(c.p, "third", 1), d0 = any<C4>(d.p, "fourth", 1); Many m = { vp_choice(4, "form"), 0, 4 }; int mode = vp_choice(4, "categories");
    static const int cats[4][4] = { { LV, LV, LV, LV }, { CLV, LV, CLV, LV }, { LV, RV, LV, RV }, { RV, CLV, RV, LV } }; const int* k = cats[mode];
    op4<V1, V2, V3, V4> f = { a.p, b.p, c.p, d.p, &m, mode }; Outcome o = attempt(f);
    if (many_visited(o, m.got, 4, mode >= 2)) { vp_cover("post: visited"); arg_is(0, a0, k[0], k[0] != RV); arg_is(1, b0, k[1], k[1] != RV); arg_is(2, c0, k[2], k[2] != RV); arg_is(3, d0, k[3], k[3] != RV); }
    View a1 = inv<C1>(a.p), b1 = inv<C2>(b.p), c1 = inv<C3>(c.p), d1 = inv<C4>(d.p); one_each<C1>(c1.ghost + d1.ghost, &a1, &b1);
    VP_CHECK((k[0] == RV ? a1.which == a0.which : same(a0, a1)) && (k[1] == RV ? b1.which == b0.which : same(b0, b1)) && (k[2] == RV ? c1.which == c0.which : same(c0, c1)) && (k[3] == RV ? d1.which == d0.which : same(d0, d1)), "visit.unchanged visitation changes nothing of its own");
    a.destroy(); b.destroy(); c.destroy(); d.destroy();
}
template <class V1, class V2> struct op5 { V1* a; V2* b; Many* m; void operator()() { m->go(*a, *b, *a, const_cast<const V2&>(*b), *a); } };
template <class C1, class C2> void contract_quinary() {
    typedef typename C1::V V1; typedef typename C2::V V2; Box<V1> a; Box<V2> b; View a0 = any<C1>(a.p, "first"), b0 = any<C2>(b.p, "second"); Many m = { vp_choice(4, "form"), 0, 5 };
    op5<V1, V2> f = { a.p, b.p, &m }; Outcome o = attempt(f); visited(o, m.got, 5); vp_cover("post: visited");
    arg_is(0, a0, LV); arg_is(1, b0, LV); arg_is(2, a0, LV); arg_is(3, b0, CLV); arg_is(4, a0, LV); View a1 = inv<C1>(a.p), b1 = inv<C2>(b.p); one_each<C1>(0, &a1, &b1); VP_CHECK(same(a0, a1) && same(b0, b1), "visit.unchanged visitation changes nothing of its own"); a.destroy(); b.destroy();
}
}
#define F2(NAME, C1, C2, F) extern "C" void vc_binary_f##F##__##NAME() { vp::contract_binary<vp::C1, vp::C2>(F); }
#define F3(NAME, C1, C2, C3, F) extern "C" void vc_ternary_f##F##__##NAME() { vp::contract_ternary<vp::C1, vp::C2, vp::C3>(F); }
#if VP14
#define ALL2(NAME, C1, C2) F2(NAME, C1, C2, 0) F2(NAME, C1, C2, 1) F2(NAME, C1, C2, 2) F2(NAME, C1, C2, 3) F2(NAME, C1, C2, 4) F2(NAME, C1, C2, 5) F2(NAME, C1, C2, 6) F2(NAME, C1, C2, 7)
#define ALL3(NAME, C1, C2, C3) F3(NAME, C1, C2, C3, 0) F3(NAME, C1, C2, C3, 1) F3(NAME, C1, C2, C3, 2) F3(NAME, C1, C2, C3, 3) F3(NAME, C1, C2, C3, 4) F3(NAME, C1, C2, C3, 5)
#else
#define ALL2(NAME, C1, C2) F2(NAME, C1, C2, 0) F2(NAME, C1, C2, 1) F2(NAME, C1, C2, 2) F2(NAME, C1, C2, 3)
#define ALL3(NAME, C1, C2, C3) F3(NAME, C1, C2, C3, 0) F3(NAME, C1, C2, C3, 1) F3(NAME, C1, C2, C3, 4)
#endif
#if VP_PART == 0
ALL2(two_rec, CfgTwo, CfgRec)
VP_ENTRY(binary_same, CfgBackup) VP_ENTRY(binary_same, CfgRec)
extern "C" void vc_binary_results__two_c() { vp::contract_binary_results<vp::CfgTwo, vp::Cfg2c>(); }
#elif VP_PART == 1
ALL3(a_b_c, CfgTwo, Cfg2b, Cfg2c)
#elif VP_PART == 2
extern "C" void vc_quaternary__b_c_d_a() { vp::contract_quaternary<vp::Cfg2b, vp::Cfg2c, vp::Cfg2d, vp::CfgTwo>(); }
extern "C" void vc_quinary__c_b() { vp::contract_quinary<vp::Cfg2c, vp::Cfg2b>(); }
#elif VP_PART == 3
ALL2(rec_pod, CfgRec, CfgPod)
ALL2(b_fallback, Cfg2b, CfgFallback)
#else
ALL3(c_d_b, Cfg2c, Cfg2d, Cfg2b)
#endif
