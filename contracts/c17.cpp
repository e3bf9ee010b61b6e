// C17: reference content.
#include "inh.hpp"
#include "vis.hpp"
#include <boost/variant/multivisitors.hpp>
#include <boost/functional/hash.hpp>
namespace vp {
// three referents of different types; the variant refers to one of them
struct RefCfg { typedef boost::variant<A&, int&, const B&, R> V; enum { N = 3 }; };
struct Referents { Box<A> a; Box<int> i; Box<B> b; Box<A> a2; long av, bv, a2v; int iv;
    Referents() { av = vp_sym("a"); bv = vp_sym("b"); a2v = vp_sym("a2"); iv = (int)vp_sym("i"); new (a.p) A(vp::val(av)); new (b.p) B(vp::val(bv)); new (a2.p) A(vp::val(a2v)); *i.p = iv; }
    ~Referents() { a.destroy(); b.destroy(); a2.destroy(); }
    void check() { VP_CHECK(kind<A>::val(*a) == av && kind<B>::val(*b) == bv && kind<A>::val(*a2) == a2v && *i.p == iv, "ref.untouched referred objects are changed only through the reference"); VP_CHECK(vp_live_total() == 3, "ref.noobject referred objects are never copied or destroyed"); }
    const void* at(int k) { return k == 0 ? (const void*)a.p : k == 1 ? (const void*)i.p : (const void*)b.p; }
};
typedef RefCfg::V RV_;
struct op_mk { void* p; Referents* r; int k; void operator()() { if (k == 0) new (p) RV_(*r->a); else if (k == 1) new (p) RV_(*r->i); else new (p) RV_(const_cast<const B&>(*r->b)); } };
struct Seen : boost::static_visitor<void> { const void** o; int* t; Seen(const void** p, int* q) : o(p), t(q) {} template <class T> void operator()(T& x) const { *o = &x; *t = kind<typename std::remove_cv<T>::type>::tid; } };
template <class V> void refers(V& v, Referents& r, int k) {
    VP_CHECK(v.which() == k, "ref.which the reference type is held"); VP_CHECK(!v.empty(), "ref.which the variant is not empty"); const void* o = 0; int t = -1; Seen s(&o, &t); boost::apply_visitor(s, v); VP_CHECK(o == r.at(k), "ref.visit visitation yields the referred object");
    VP_CHECK(t == (k == 0 ? (int)kind<A>::tid : k == 1 ? (int)kind<int>::tid : (int)kind<B>::tid), "ref.type visitation yields the referred type");
    VP_CHECK(boost::get<A>(&v) == (k == 0 ? r.a.p : 0), "ref.get get yields the referred object"); VP_CHECK(boost::relaxed_get<int>(&v) == (k == 1 ? r.i.p : 0), "ref.get get yields the referred object"); VP_CHECK(boost::relaxed_get<const B>(&v) == (k == 2 ? r.b.p : 0), "ref.get get yields the referred object");
    if (k == 0) VP_CHECK(&boost::get<A>(v) == r.a.p, "ref.get get yields the referred object");
    int threw = 0; try { boost::get<R>(v); } catch (boost::bad_get&) { threw = 1; } VP_CHECK(threw, "ref.get.bad get of another type throws bad_get");
}
inline void construct() { Referents r; { Box<RV_> x; int k = vp_choice(3, "referent"); op_mk f = { x.p, &r, k }; vp_frame_begin("construction"); vp_frame_allow(x.p); Outcome o = attempt(f); vp_frame_end(); VP_CHECK(o.k == OK, "ref.nothrow binding a reference cannot fail"); VP_CHECK(g.copies == 0 && g.moves == 0 && g.allocs == 0, "ref.nocopy nothing is copied"); refers(*x, r, k); refers(const_cast<const RV_&>(*x), r, k); r.check(); vp_cover("post: bound");
        vp_frame_begin("destruction"); vp_frame_allow(x.p); x.destroy(); vp_frame_end(); } r.check(); }
struct op_cp { void* p; RV_* s; int how; void operator()() { if (how == 0) new (p) RV_(const_cast<const RV_&>(*s)); else if (how == 1) new (p) RV_(*s); else new (p) RV_(std::move(*s)); } };
inline void copy() { Referents r; { Box<RV_> x, y; int k = vp_choice(3, "referent"); op_mk m = { x.p, &r, k }; m(); op_cp f = { y.p, x.p, vp_choice(3, "const copy / copy / move") }; vp_frame_begin("copy"); vp_frame_allow(y.p); Outcome o = attempt(f); vp_frame_end(); VP_CHECK(o.k == OK, "ref.nothrow copying a reference cannot fail"); VP_CHECK(g.copies == 0 && g.moves == 0 && g.allocs == 0, "ref.nocopy nothing is copied"); refers(*x, r, k); refers(*y, r, k); r.check(); vp_cover("post: copied"); if (vp_choice(2, "order")) { x.destroy(); r.check(); refers(*y, r, k); y.destroy(); } else { y.destroy(); r.check(); refers(*x, r, k); x.destroy(); } } r.check(); }
struct Writer : boost::static_visitor<void> { long x; explicit Writer(long q) : x(q) {} void operator()(A& a) const { kind<A>::put(a, x); } void operator()(int& i) const { i = (int)x; } void operator()(const B&) const {} void operator()(R& q) const { kind<R>::put(q, x); } };
inline void write() { Referents r; { Box<RV_> x, y; int k = vp_choice(3, "referent"); op_mk m = { x.p, &r, k }; m(); op_cp c = { y.p, x.p, 0 }; c(); long q = vp_sym("written"); Writer w(q); int how = vp_choice(2, "through visitation / through get"); if (how == 0) boost::apply_visitor(w, *y); else if (k == 0) kind<A>::put(boost::get<A>(*y), q); else if (k == 1) boost::get<int&>(*y) = (int)q;
        if (k == 0) r.av = q; if (k == 1) r.iv = (int)q; r.check(); refers(*x, r, k); refers(*y, r, k); vp_cover("post: written"); long q2 = vp_sym("written directly"); kind<A>::put(*r.a, q2); r.av = q2; if (k == 0) VP_CHECK(kind<A>::val(boost::get<A>(*x)) == q2, "ref.alias changes to the object are visible through the variant"); x.destroy(); y.destroy(); } r.check(); }
// value variants constructed from reference variants copy the referent and do not alias it
struct op_val2 { void* p; const boost::variant<A&>* s; void operator()() { new (p) boost::variant<A>(*s); } };
inline void deref() { Referents r; { typedef boost::variant<A&> VR; typedef boost::variant<A> VA; Box<VR> x; new (x.p) VR(*r.a); Box<VA> y; op_val2 f = { y.p, x.p }; Outcome o = attempt(f); exc_clause(o); if (o.k == OK) { vp_cover("post: dereferenced"); VP_CHECK(boost::get<A>(y.p) != r.a.p && kind<A>::val(boost::get<A>(*y)) == r.av, "ref.value a value variant holds a copy of the referent"); y.destroy(); } r.check(); x.destroy(); } r.check(); }
// ... also from an rvalue (the content is then moved out of the referent, which lives on), and by assignment
struct op_val3 { void* p; boost::variant<A&>* s; int how; void operator()() { typedef boost::variant<int, A> VA; if (how == 0) new (p) VA(*s); else if (how == 1) new (p) VA(std::move(*s)); else if (how == 2) *static_cast<VA*>(p) = const_cast<const boost::variant<A&>&>(*s); else if (how == 3) *static_cast<VA*>(p) = *s; else *static_cast<VA*>(p) = std::move(*s); } };
inline void deref2() { Referents r; { typedef boost::variant<A&> VR; typedef boost::variant<int, A> VA; Box<VR> x; new (x.p) VR(*r.a); Box<VA> y; int how = vp_choice(5, "construct from lvalue / rvalue, assign from const / lvalue / rvalue"), held = how > 1 ? vp_choice(2, "target") : 0; if (how > 1) { if (held) new (y.p) VA(kind<A>::mk(7)); else new (y.p) VA(1); }
        op_val3 f = { y.p, x.p, how }; Outcome o = attempt(f); exc_clause(o); bool rv = how == 1 || how == 4; VP_CHECK(rv || g.moves == 0 || kind<A>::val(*r.a) == r.av, "ref.value an lvalue is not moved from"); VP_CHECK(!rv || o.k != OK || g.copies == 0, "ref.value an rvalue is moved from");
        VP_CHECK(boost::get<A>(x.p) == r.a.p, "ref.visit the source keeps referring to its object"); long v0 = r.av; if (rv) r.av = kind<A>::val(*r.a);
        if (o.k == OK) { vp_cover("post: dereferenced"); VP_CHECK(boost::get<A>(y.p) && boost::get<A>(y.p) != r.a.p && kind<A>::val(boost::get<A>(*y)) == v0, "ref.value a value variant holds the referent's value"); }
        if (o.k == OK || how > 1) y.destroy(); r.check(); x.destroy(); } r.check(); }
// reference to base binds to the derived object itself, also from a reference variant of the derived type
inline void base() { Box<Mul> m; long q = vp_sym("mul"); new (m.p) Mul(vp::val(q)); { typedef boost::variant<Base&, int> VB; typedef boost::variant<Mul&> VM; Box<VB> x; new (x.p) VB(*m); VP_CHECK(boost::get<Base>(x.p) == static_cast<Base*>(m.p), "ref.base a base reference refers to the derived object"); Box<VM> y; new (y.p) VM(*m); Box<VB> z; g.armed = true; new (z.p) VB(*y); g.armed = false; VP_CHECK(boost::get<Base>(z.p) == static_cast<Base*>(m.p), "ref.base a converted reference variant refers to the derived object"); VP_CHECK(vp_live_total() == 1, "ref.noobject nothing is copied"); vp_cover("post: base"); x.destroy(); y.destroy(); z.destroy(); } VP_CHECK(kind<Base>::val(*m) == q, "ref.untouched referred objects are unchanged"); m.destroy(); }
// comparison looks at the referents
inline void compare() { Referents r; { typedef boost::variant<A&, int&> V2; Box<V2> x, y; int k = vp_choice(2, "left"), l = vp_choice(2, "right"), other = vp_choice(2, "same object / another"); if (k == 0) new (x.p) V2(*r.a); else new (x.p) V2(*r.i); if (l == 0) new (y.p) V2(other ? *r.a2 : *r.a); else new (y.p) V2(*r.i); const V2& cx = *x; const V2& cy = *y; vp_frame_begin("comparison");
        bool e = cx == cy, lt = cx < cy; vp_frame_end(); bool ee = k == l && (k == 1 || *r.a == (other ? *r.a2 : *r.a)), el = k < l || (k == l && k == 0 && *r.a < (other ? *r.a2 : *r.a)); VP_CHECK(e == ee, "ref.equal equality compares the referents"); VP_CHECK(lt == el, "ref.less ordering compares the referents"); vp_cover("post: compared"); x.destroy(); y.destroy(); } r.check(); }
// several visitors at once, and the category of the argument
struct CatV : boost::static_visitor<void> { int* c; explicit CatV(int* q) : c(q) {} template <class T> void operator()(T&) const { *c = std::is_const<T>::value; } };
inline void constness() { Referents r; { Box<RV_> x; int k = vp_choice(3, "referent"); op_mk m = { x.p, &r, k }; m(); int c = -1; CatV v(&c); boost::apply_visitor(v, *x); VP_CHECK(c == (k == 2), "ref.const a reference to const is seen as const, others are not"); vp_cover("post: constness"); x.destroy(); } r.check(); }
// reference content next to value content: value content is owned, reference content is not
inline void mixed() { Referents r; { Box<RV_> x, y; long q = vp_sym("owned"); { R t((vp::val(q))); new (x.p) RV_(t); } VP_CHECK(vp_live_total() == 4, "ref.mixed value content is owned"); VP_CHECK(x->which() == 3 && kind<R>::val(boost::get<R>(*x)) == q, "ref.mixed value content is held"); op_cp f = { y.p, x.p, vp_choice(3, "const copy / copy / move") }; Outcome o = attempt(f); exc_clause(o); if (o.k == OK) { vp_cover("post: mixed copied"); VP_CHECK(boost::get<R>(x.p) != boost::get<R>(y.p) && kind<R>::val(boost::get<R>(*y)) == q, "ref.mixed value content is copied"); y.destroy(); } x.destroy(); r.check(); } r.check(); }
// conversion between variants with reference types keeps referring to the same object
typedef boost::variant<A&, int&> CS_; typedef boost::variant<R, int&, A&> CT_; typedef boost::variant<const B&, const int&> KS_; typedef boost::variant<const int&, R, const B&> KT_;
struct op_cv { void* p; CS_* s; int how; void operator()() { if (how == 0) new (p) CT_(const_cast<const CS_&>(*s)); else new (p) CT_(*s); } };
inline void convert() { Referents r; { Box<CS_> x; Box<CT_> y; int k = vp_choice(2, "referent"); if (k == 0) new (x.p) CS_(*r.a); else new (x.p) CS_(*r.i); op_cv f = { y.p, x.p, vp_choice(2, "from const / from non-const") }; vp_frame_begin("conversion"); vp_frame_allow(y.p); Outcome o = attempt(f); vp_frame_end(); VP_CHECK(o.k == OK, "ref.nothrow binding a reference cannot fail"); VP_CHECK(g.copies == 0 && g.moves == 0 && g.allocs == 0, "ref.nocopy nothing is copied");
        VP_CHECK(y->which() == (k == 0 ? 2 : 1), "ref.which the reference type is held"); VP_CHECK(boost::get<A>(y.p) == (k == 0 ? r.a.p : 0) && boost::get<int>(y.p) == (k == 1 ? r.i.p : 0), "ref.convert a converted variant refers to the same object"); const void* q = 0; int t = -1; Seen s(&q, &t); boost::apply_visitor(s, *y); VP_CHECK(q == r.at(k), "ref.visit visitation yields the referred object");
        if (k == 0) { long z = vp_sym("written"); kind<A>::put(boost::get<A>(*y), z); r.av = z; } else { int z = (int)vp_sym("written"); boost::get<int>(*y) = z; r.iv = z; } r.check(); vp_cover("post: converted"); x.destroy(); r.check(); y.destroy(); } r.check(); }
struct op_ck { void* p; KS_* s; int how; void operator()() { if (how == 0) new (p) KT_(const_cast<const KS_&>(*s)); else new (p) KT_(*s); } };
inline void convert_const() { Referents r; { Box<KS_> x; Box<KT_> y; int k = vp_choice(2, "referent"); if (k == 0) new (x.p) KS_(const_cast<const B&>(*r.b)); else new (x.p) KS_(const_cast<const int&>(*r.i)); op_ck f = { y.p, x.p, vp_choice(2, "from const / from non-const") }; vp_frame_begin("conversion"); vp_frame_allow(y.p); Outcome o = attempt(f); vp_frame_end(); VP_CHECK(o.k == OK, "ref.nothrow binding a reference cannot fail"); VP_CHECK(g.copies == 0 && g.moves == 0 && g.allocs == 0, "ref.nocopy nothing is copied");
        VP_CHECK(y->which() == (k == 0 ? 2 : 0), "ref.which the reference type is held"); VP_CHECK(boost::relaxed_get<const B>(y.p) == (k == 0 ? r.b.p : 0) && boost::relaxed_get<const int>(y.p) == (k == 1 ? r.i.p : 0), "ref.convert a converted variant refers to the same object"); vp_cover("post: converted"); x.destroy(); y.destroy(); } r.check(); }
// several variants at once: every operand yields its referred object
struct Seen2 : boost::static_visitor<void> { const void** o; explicit Seen2(const void** q) : o(q) {} template <class T, class U> void operator()(T& x, U& y) const { o[0] = &x; o[1] = &y; } template <class T, class U, class W> void operator()(T& x, U& y, W& z) const { o[0] = &x; o[1] = &y; o[2] = &z; } };
inline void multi() { Referents r; { Box<CS_> x; Box<RV_> y; int k = vp_choice(2, "left"), l = vp_choice(3, "right"), how = vp_choice(3, "two / two const / three"); if (k == 0) new (x.p) CS_(*r.a); else new (x.p) CS_(*r.i); op_mk m = { y.p, &r, l }; m(); const void* o[3] = { 0, 0, 0 }; Seen2 s(o); if (how == 0) boost::apply_visitor(s, *x, *y); else if (how == 1) boost::apply_visitor(s, const_cast<const CS_&>(*x), const_cast<const RV_&>(*y)); else boost::apply_visitor(s, *x, *y, *x);
        VP_CHECK(o[0] == r.at(k) && o[1] == r.at(l) && (how != 2 || o[2] == r.at(k)), "ref.visit visitation yields the referred objects"); vp_cover("post: multi"); x.destroy(); y.destroy(); } r.check(); }
// every spelling of get, type(), hash
inline void gets() { Referents r; { Box<CS_> x; int k = vp_choice(2, "referent"); if (k == 0) new (x.p) CS_(*r.a); else new (x.p) CS_(*r.i); const CS_& c = *x; VP_CHECK(boost::strict_get<A>(&c) == (k == 0 ? r.a.p : 0) && boost::relaxed_get<A>(&c) == (k == 0 ? r.a.p : 0) && boost::get<A>(&c) == (k == 0 ? r.a.p : 0), "ref.get get yields the referred object"); VP_CHECK(&x->type() == (k == 0 ? &typeid(A) : &typeid(int)), "ref.typeid type() is the referred type");
        if (k == 0) { VP_CHECK(&boost::get<A&>(*x) == r.a.p && &boost::strict_get<A>(*x) == r.a.p && &boost::relaxed_get<A>(*x) == r.a.p && &boost::relaxed_get<A&>(*x) == r.a.p && &boost::get<A>(c) == r.a.p, "ref.get get yields the referred object"); } else { VP_CHECK(&boost::get<int&>(*x) == r.i.p && &boost::strict_get<int>(*x) == r.i.p && &boost::relaxed_get<int>(*x) == r.i.p && &boost::get<int>(c) == r.i.p, "ref.get get yields the referred object"); } vp_cover("post: gets"); x.destroy(); } r.check(); }
struct op_h { const boost::variant<A&, int&>* v; std::size_t h; void operator()() { boost::hash<boost::variant<A&, int&> > f; h = f(*v); } };
}
#define E(N) extern "C" void vc_ref_##N() { vp::N(); }
E(construct) E(copy) E(write) E(deref) E(deref2) E(base) E(compare) E(convert) E(convert_const) E(multi) E(gets) E(constness) E(mixed)
