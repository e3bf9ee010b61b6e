// C07: unary visitation.
#include "vis.hpp"
#include "big.hpp"
namespace vp {
#if defined(__cpp_decltype_auto) && __cpp_decltype_auto >= 201304
enum { FORMS = 10 };
#else
enum { FORMS = 5 };
#endif
template <class V> struct op_visit { V* v; int form, cat; long got; const void* vis;
    template <class X> void one(X&& x) {
        switch (form) {
        case 0: { RecL r; vis = &r; got = boost::apply_visitor(r, static_cast<X&&>(x)); VP_CHECK(lg.self_const == 0 && lg.self == vis, "visit.visitor the given visitor object itself is invoked"); break; }
        case 1: { const RecL r; vis = &r; got = boost::apply_visitor(r, static_cast<X&&>(x)); VP_CHECK(lg.self_const == 1 && lg.self == vis, "visit.visitor the given visitor object itself is invoked"); break; }
        case 2: { got = boost::apply_visitor(RecL(), static_cast<X&&>(x)); break; }
        case 3: { RecL r; vis = &r; got = static_cast<X&&>(x).apply_visitor(r); VP_CHECK(lg.self == vis, "visit.visitor the given visitor object itself is invoked"); break; }
#if defined(__cpp_decltype_auto) && __cpp_decltype_auto >= 201304
        case 5: { RecD r; vis = &r; got = boost::apply_visitor(r, static_cast<X&&>(x)); VP_CHECK(lg.self_const == 0 && lg.self == vis, "visit.visitor the given visitor object itself is invoked"); break; }
        case 6: { const RecD r; vis = &r; got = boost::apply_visitor(r, static_cast<X&&>(x)); VP_CHECK(lg.self_const == 1 && lg.self == vis, "visit.visitor the given visitor object itself is invoked"); break; }
        case 7: { got = boost::apply_visitor(RecD(), static_cast<X&&>(x)); break; }
        case 8: { got = boost::apply_visitor([](auto&& t) -> long { log_args(0, static_cast<decltype(t)&&>(t)); return log_call(0, 1); }, static_cast<X&&>(x)); break; }
#endif
        default: vp_assume(false);
        } }
    template <class X> void delayed(X& x) {
        if (form == 4) { RecL r; vis = &r; got = boost::apply_visitor(r)(x); VP_CHECK(lg.self == vis, "visit.visitor the given visitor object itself is invoked"); }
#if defined(__cpp_decltype_auto) && __cpp_decltype_auto >= 201304
        else { RecD r; vis = &r; got = boost::apply_visitor(r)(x); VP_CHECK(lg.self == vis, "visit.visitor the given visitor object itself is invoked"); }
#endif
    }
    void operator()() {
        log_reset();
        if (form == 4 || form == 9) { if (cat == LV) delayed(*v); else if (cat == CLV) delayed(const_cast<const V&>(*v)); else vp_assume(false); }
        else if (cat == LV) one(*v); else if (cat == CLV) one(const_cast<const V&>(*v)); else if (cat == RV) one(std::move(*v)); else one(static_cast<const V&&>(*v));
    } };
template <class Cfg> void contract_visit() {
    typedef typename Cfg::V V; Box<V> x; View w0 = any<Cfg>(x.p, "variant");
    one_each<Cfg>(0, &w0); VP_CHECK(!w0.ghost || vp_is_live(w0.addr, w0.tid), "visit.live the visited object is the live content");
    int form = vp_choice(FORMS, "form of application"), cat = vp_choice(4, "lvalue / const / rvalue / const rvalue");
    op_visit<V> f = { x.p, form, cat, 0, 0 }; vp_frame_begin("visitation"); vp_frame_allow(&f); Outcome o = attempt(f); vp_frame_end();
    visited(o, f.got, 1); arg_is(0, w0, cat); vp_cover(o.k == OK ? "post: visited" : "post: visitor threw");
    VP_CHECK(g.copies == 0 && g.moves == 0 && g.allocs == 0, "visit.pure visitation itself neither copies nor moves the content");
    View w1 = inv<Cfg>(x.p); one_each<Cfg>(0, &w1); VP_CHECK(same(w0, w1) && w0.addr == w1.addr, "visit.unchanged visitation changes nothing of its own");
    x.destroy();
}
// other result types
template <class V> struct op_visit_r { V* v; int form; long got; void operator()() { log_reset();
    switch (form) {
    case 0: { RecRef r; long& z = boost::apply_visitor(r, *v); got = &z == &cells[1] ? lg.ret : ~lg.ret; break; }
    case 1: { RecVoid r; boost::apply_visitor(r, *v); got = lg.ret; break; }
    case 2: { RecObj r; MoveOnly<13, 0> z(boost::apply_visitor(r, *v)); got = z.v; break; }
    case 3: { RecRef r; long& z = boost::apply_visitor(r)(*v); got = &z == &cells[1] ? lg.ret : ~lg.ret; break; }
    case 4: { RecVoid r; boost::apply_visitor(r)(*v); got = lg.ret; break; }
    case 8: { RecRef r; long& z = boost::apply_visitor(r, std::move(*v)); got = &z == &cells[1] ? lg.ret : ~lg.ret; break; }
    case 14: { RecObj r; MoveOnly<13, 0> z(boost::apply_visitor(r)(*v)); got = z.v; break; }
    case 15: { RecRef r; long& z = v->apply_visitor(r); got = &z == &cells[1] ? lg.ret : ~lg.ret; break; }
#if defined(__cpp_decltype_auto) && __cpp_decltype_auto >= 201304
    case 5: { RecDRef r; static_assert(std::is_same<decltype(boost::apply_visitor(r, *v)), long&>::value, "VP:C07 the deduced result type is the visitor's"); long& z = boost::apply_visitor(r, *v); got = &z == &cells[1] ? lg.ret : ~lg.ret; break; }
    case 6: { RecDVoid r; boost::apply_visitor(r, *v); got = lg.ret; break; }
    case 7: { RecDObj r; MoveOnly<13, 0> z(boost::apply_visitor(r, *v)); got = z.v; break; }
    case 9: { RecDRef r; static_assert(std::is_same<decltype(boost::apply_visitor(r)(*v)), long&>::value, "VP:C07 the deduced result type is the visitor's"); long& z = boost::apply_visitor(r)(*v); got = &z == &cells[1] ? lg.ret : ~lg.ret; break; }
    case 10: { RecDObj r; MoveOnly<13, 0> z(boost::apply_visitor(r)(*v)); got = z.v; break; }
    case 11: { RecDVoid r; boost::apply_visitor(r)(*v); got = lg.ret; break; }
    case 12: { RecDRef r; long& z = boost::apply_visitor(r, std::move(*v)); got = &z == &cells[1] ? lg.ret : ~lg.ret; break; }
#endif
    default: vp_assume(false); } } };
template <class Cfg> void contract_visit_results() {
    typedef typename Cfg::V V; Box<V> x; View w0 = any<Cfg>(x.p, "variant"); int form = vp_choice(16, "result type");
    op_visit_r<V> f = { x.p, form, 0 }; Outcome o = attempt(f); visited(o, f.got, 1); arg_is(0, w0, form == 8 || form == 12 ? RV : LV);
    View w1 = inv<Cfg>(x.p); one_each<Cfg>(0, &w1); VP_CHECK(same(w0, w1), "visit.unchanged visitation changes nothing of its own"); vp_cover("post: visited");
    x.destroy();
}
// what the visitor writes is what the variant then holds, and a visitor moving the content out of an rvalue gets it
struct Writer : boost::static_visitor<void> { long x; explicit Writer(long q) : x(q) {} template <class T> void operator()(T& t) const { kind<T>::put(t, x); } };
struct Taker : boost::static_visitor<long> { template <class T> long operator()(T&& t) const { typedef typename std::decay<T>::type U; U u(std::move(t)); return kind<U>::val(u); } };
template <class Cfg> void contract_visit_writes() {
    typedef typename Cfg::V V; Box<V> x; View w0 = any<Cfg>(x.p, "variant"); long q = vp_sym("written");
    if (vp_choice(2, "write / take") == 0) {
        Writer w(q); vp_frame_begin("visitation"); vp_frame_allow(x.p); boost::apply_visitor(w, *x); vp_frame_end();
        View w1 = inv<Cfg>(x.p); VP_CHECK(w1.which == w0.which && w1.v == canon_at<typename Cfg::L>(w0.which, q) && w1.addr == w0.addr, "visit.write what the visitor writes is what the variant holds"); vp_cover("post: written");
    } else {
        Taker t; long r = boost::apply_visitor(t, std::move(*x)); VP_CHECK(r == w0.v, "visit.take a visitor can take the content out of an rvalue"); View w1 = inv<Cfg>(x.p); VP_CHECK(w1.which == w0.which, "visit.take.type the variant still holds the type"); vp_cover("post: taken"); }
    View w2 = inv<Cfg>(x.p); one_each<Cfg>(0, &w2); x.destroy();
}
}
#ifdef VP_BIG
VP_ENTRY(visit, CfgBig25) VP_ENTRY(visit, CfgBig45) VP_ENTRY(visit, CfgBigT) VP_ENTRY(visit_writes, CfgBig45) VP_ENTRY(visit_writes, CfgBigT)
VP_ENTRY(copy_ctor, CfgBigT) VP_ENTRY(value_ctor, CfgBig45)
#else
VP_ENTRY(visit, CfgHostile) VP_ENTRY(visit, CfgTriv) VP_ENTRY(visit, CfgFloat) VP_ENTRY(visit, CfgBackup) VP_ENTRY(visit, CfgFallback) VP_ENTRY(visit, CfgBlank) VP_ENTRY(visit, CfgPod) VP_ENTRY(visit, CfgRec) VP_ENTRY(visit, CfgAlign) VP_ENTRY(visit, CfgAlignBackup) VP_ENTRY(visit, CfgSeq)
VP_ENTRY(visit_results, CfgBackup) VP_ENTRY(visit_results, CfgRec) VP_ENTRY(visit_results, CfgPod)
VP_ENTRY(visit_writes, CfgBackup) VP_ENTRY(visit_writes, CfgFallback) VP_ENTRY(visit_writes, CfgPod) VP_ENTRY(visit_writes, CfgRec) VP_ENTRY(visit_writes, CfgSeq)
#endif
