// Const-qualified bounded types: construction, copying, moving, visitation, get, comparison (such variants are not assignable).
#include "vis.hpp"
#include <type_traits>
namespace vp {
typedef boost::variant<const A, int, const long, const B> CV;
template <> struct kind<const A> : kind<A> {}; template <> struct kind<const B> : kind<B> {}; template <> struct kind<const long> : kind<long> {};
struct CfgConst { typedef TL<A, int, long, B> L; };
inline void cmake(CV* p, int i, long x) { switch (i) { case 0: new (p) CV(kind<A>::mk(x)); break; case 1: new (p) CV(kind<int>::mk(x)); break; case 2: new (p) CV(kind<long>::mk(x)); break; default: new (p) CV(kind<B>::mk(x)); } }
// the class invariant of such a variant, seen from outside
inline View cinv(const CV& v) { View w = raw_view(v); static const int t[4] = { kind<A>::tid, kind<int>::tid, kind<long>::tid, kind<B>::tid };
    VP_CHECK(w.which >= 0 && w.which < 4, "inv.which which() is the position of a bounded type"); VP_CHECK(w.tid == t[w.which], "inv.type visitation reaches the type that which() reports"); VP_CHECK(!v.empty(), "inv.empty empty() is false");
    VP_CHECK(!w.ghost || vp_is_live(w.addr, w.tid), "inv.live the content is alive");
    VP_CHECK(boost::get<const A>(&v) == (w.which == 0 ? w.addr : 0), "get.const get finds const content"); VP_CHECK(boost::get<const long>(&v) == (w.which == 2 ? w.addr : 0), "get.const get finds const content"); VP_CHECK(boost::get<int>(&v) == (w.which == 1 ? w.addr : 0), "get.const get finds the content"); VP_CHECK(boost::get<const B>(&v) == (w.which == 3 ? w.addr : 0), "get.const get finds const content");
    return w; }
struct op_cc0 { CV* x; CV* s; int how; int i; long v; void operator()() { switch (how) { case 0: new (x) CV(static_cast<const CV&>(*s)); break; case 1: new (x) CV(*s); break; case 2: new (x) CV(std::move(*s)); break; default: cmake(x, i, v); } } };
inline void const_construct() {
    Box<CV> x, s; int i = vp_choice(4, "type"); long v = vp_sym("value"); g.armed = false; cmake(s.p, i, v); View s0 = cinv(*s); VP_CHECK(s0.which == i, "construct.type the variant holds the given type");
    static const bool narrow[4] = { false, true, false, false }; VP_CHECK(s0.v == (narrow[i] ? kind<int>::canon(v) : v), "construct.value the variant holds the given value");
    int how = vp_choice(4, "copy / copy of non-const / move / value"); op_cc0 f = { x.p, s.p, how, i, v }; Outcome o = attempt(f); exc_clause(o); View s1 = cinv(*s); VP_CHECK(s1.which == s0.which && (how == 2 || s1.v == s0.v), "construct.source the source is unchanged");
    if (o.k == OK) { vp_cover("post: constructed"); View x1 = cinv(*x); VP_CHECK(same(x1, s0), "construct.copy the copy holds the same type and value"); VP_CHECK(x1.addr != s1.addr, "construct.distinct the contents are distinct"); VP_CHECK(vp_live_total() == x1.ghost + s1.ghost, "construct.one one content each"); x.destroy(); }
    else VP_CHECK(vp_live_total() == s1.ghost, "construct.failed a failed construction leaves nothing");
    s.destroy(); VP_CHECK(vp_live_total() == 0, "destroy.content destruction destroys the content"); }
struct op_cv { CV* v; int cat; long got; void operator()() { log_reset(); RecL r; if (cat == LV) got = boost::apply_visitor(r, *v); else if (cat == CLV) got = boost::apply_visitor(r, static_cast<const CV&>(*v)); else got = boost::apply_visitor(r, std::move(*v)); } };
inline void const_visit() {
    Box<CV> x; int i = vp_choice(4, "type"); long v = vp_sym("value"); g.armed = false; cmake(x.p, i, v); View w0 = cinv(*x); int cat = vp_choice(3, "lvalue / const / rvalue"); cat = cat == 0 ? (int)LV : cat == 1 ? (int)CLV : (int)RV;
    op_cv f = { x.p, cat, 0 }; Outcome o = attempt(f); visited(o, f.got, 1); int want = i == 1 ? cat : cat == RV ? (int)CRV : (int)CLV; arg_is(0, w0, want); vp_cover(o.k == OK ? "post: visited" : "post: visitor threw"); View w1 = cinv(*x); VP_CHECK(same(w0, w1), "visit.unchanged visitation changes nothing of its own"); x.destroy(); }
inline void const_compare() {
    Box<CV> x, y; int i = vp_choice(4, "type"), j = vp_choice(4, "type"); long v = vp_sym("value"), w = vp_sym("value"); g.armed = false; cmake(x.p, i, v); cmake(y.p, j, w); View a = cinv(*x), b = cinv(*y);
    bool eq = *x == *y, lt = *x < *y; if (i != j) { VP_CHECK(!eq && lt == (i < j), "cmp.types variants of different types compare by position"); } else { bool ce, cl; switch (i) { case 0: ce = *boost::get<const A>(x.p) == *boost::get<const A>(y.p); cl = *boost::get<const A>(x.p) < *boost::get<const A>(y.p); break; case 3: ce = *boost::get<const B>(x.p) == *boost::get<const B>(y.p); cl = *boost::get<const B>(x.p) < *boost::get<const B>(y.p); break; default: ce = a.v == b.v; cl = a.v < b.v; }
        VP_CHECK(eq == ce, "cmp.eq equality of contents"); VP_CHECK(lt == cl, "cmp.lt order of contents"); } vp_cover("post: compared"); x.destroy(); y.destroy(); }
}
extern "C" void vc_const_construct() { vp::const_construct(); }
extern "C" void vc_const_visit() { vp::const_visit(); }
extern "C" void vc_const_compare() { vp::const_compare(); }
