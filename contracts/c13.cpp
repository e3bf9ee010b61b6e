// C13: recursive_wrapper as a value.
#include "ops.hpp"
namespace vp {
template <class T> struct WW { typedef boost::recursive_wrapper<T> W; };
template <class W> long wval(const W& w) { typedef typename W::type T; const T* p = w.get_pointer(); VP_CHECK(p != 0, "wrap.full a wrapper always owns an object"); VP_CHECK(__builtin_addressof(w.get()) == p, "wrap.get get() refers to the owned object"); VP_CHECK(__builtin_addressof(const_cast<W&>(w).get()) == p && const_cast<W&>(w).get_pointer() == p, "wrap.get get() refers to the owned object"); VP_CHECK(vp_is_live(p, kind<T>::tid), "wrap.live the owned object is alive"); return kind<T>::val(*p); }
template <class T> void owners(int wrappers, int others) { VP_CHECK(vp_live_total() == wrappers + others, "wrap.one every wrapper owns exactly one object"); VP_CHECK(vp_heap_total() == wrappers, "wrap.heap every wrapper owns exactly one allocation"); }
template <class W> struct mk_op { void* p; int how; typename W::type* t; W* o; void operator()() { switch (how) { case 0: new (p) W(); break; case 1: new (p) W(const_cast<const typename W::type&>(*t)); break; case 2: new (p) W(std::move(*t)); break; case 3: new (p) W(const_cast<const W&>(*o)); break; default: new (p) W(std::move(*o)); } } };
// any wrapper: fresh or moved-from
template <class W> long any_w(void* p) { typedef typename W::type T; long x = vp_sym("wrapped"); { T t((vp::val(x))); g.armed = false; new (p) W(std::move(t)); } W* w = static_cast<W*>(p); int st = vp_choice(3, "fresh / moved-from / move-assigned-from"); if (st == 1) { W sink(std::move(*w)); } if (st == 2) { T t2((vp::val(vp_sym("other")))); W sink(std::move(t2)); sink = std::move(*w); } return kind<T>::val(w->get()); }
template <class T> void contract_construct() {
    typedef boost::recursive_wrapper<T> W; Box<W> x, o; long ov = any_w<W>(o.p); long tv = vp_sym("value"); T t((vp::val(tv))); int how = vp_choice(5, "default / const value / rvalue value / copy / move");
    mk_op<W> f = { x.p, how, __builtin_addressof(t), o.p }; vp_frame_begin("construction"); vp_frame_allow(x.p); if (how == 2) vp_frame_allow(__builtin_addressof(t)); if (how == 4) vp_frame_allow(o.p); Outcome r = attempt(f); vp_frame_end(); exc_clause(r); int copies = g.copies, moves = g.moves;
    if (how != 2) VP_CHECK(kind<T>::val(t) == tv, "wrap.source the source value is unchanged");
    long ov1 = wval(*o); if (how != 4) VP_CHECK(ov1 == ov, "wrap.source the source is unchanged");
    if (r.k == OK) { vp_cover("post: constructed"); long v = wval(*x); owners<T>(2, 1); VP_CHECK(x->get_pointer() != o->get_pointer() && x->get_pointer() != __builtin_addressof(t), "wrap.deep copies are deep");
        if (how == 0) VP_CHECK(v == defv(kind<T>::tid), "wrap.default default construction"); else if (how <= 2) VP_CHECK(v == tv, "wrap.value the wrapper holds the given value"); else VP_CHECK(v == ov, "wrap.copy the wrapper holds the other's value");
        VP_CHECK(!(how == 2 || how == 4) || copies == 0, "wrap.move rvalues are moved, not copied"); (void)moves; x.destroy(); }
    else { vp_cover("post: construction failed"); }
    owners<T>(1, 1); o.destroy();
}
template <class W> struct as_op { W* x; int how; typename W::type* t; W* o; void operator()() { W* r; switch (how) { case 0: r = &(*x = const_cast<const typename W::type&>(*t)); break; case 1: r = &(*x = std::move(*t)); break; case 2: r = &(*x = const_cast<const W&>(*o)); break; default: r = &(*x = std::move(*o)); } VP_CHECK(r == x, "wrap.ret assignment returns the target"); } };
template <class T> void contract_assign() {
    typedef boost::recursive_wrapper<T> W; Box<W> x, o; long xv = any_w<W>(x.p), ov = any_w<W>(o.p); long tv = vp_sym("value"); T t((vp::val(tv))); int how = vp_choice(4, "const value / rvalue value / copy / move"); int self = how >= 2 ? vp_choice(2, "other / self") : 0; W* src = self ? x.p : o.p;
    as_op<W> f = { x.p, how, __builtin_addressof(t), src }; vp_frame_begin("assignment"); vp_frame_allow(x.p); if (how == 1) vp_frame_allow(__builtin_addressof(t)); if (how == 3) vp_frame_allow(src); Outcome r = attempt(f); vp_frame_end(); exc_clause(r);
    long x1 = wval(*x), o1 = wval(*o); owners<T>(2, 1); VP_CHECK(x->get_pointer() != o->get_pointer(), "wrap.deep wrappers never share an object");
    if (how != 1) VP_CHECK(kind<T>::val(t) == tv, "wrap.source the source value is unchanged"); if (how != 3 || self) VP_CHECK(o1 == ov, "wrap.source the source is unchanged");
    if (r.k == OK) { vp_cover("post: assigned"); if (how <= 1) VP_CHECK(x1 == tv, "wrap.assign the target holds the assigned value"); else if (self) VP_CHECK(how == 3 || x1 == xv, "wrap.assign.self self-assignment keeps the value"); else VP_CHECK(x1 == ov, "wrap.assign the target holds the assigned value"); }
    else vp_cover("post: assignment failed");
    (void)xv; x.destroy(); o.destroy();
}
template <class W> struct sw_op { W* a; W* b; int how; void operator()() { if (how == 0) a->swap(*b); else { using boost::swap; swap(*a, *b); } } };
template <class T> void contract_wswap() {
    typedef boost::recursive_wrapper<T> W; Box<W> a, b; long av = any_w<W>(a.p), bv = any_w<W>(b.p); int self = vp_choice(2, "other / self"); sw_op<W> f = { a.p, self ? a.p : b.p, vp_choice(2, "member / free") };
    Outcome r = attempt(f); VP_CHECK(r.k == OK, "wrap.swap.nothrow swap never throws"); VP_CHECK(g.copies == 0 && g.moves == 0 && g.allocs == 0, "wrap.swap.pure swap neither copies nor allocates"); long a1 = wval(*a), b1 = wval(*b); owners<T>(2, 0);
    if (self) VP_CHECK(a1 == av && b1 == bv, "wrap.swap.self self-swap changes nothing"); else VP_CHECK(a1 == bv && b1 == av, "wrap.swap swap exchanges the values"); vp_cover("post: swapped"); a.destroy(); b.destroy();
}
template <class T> void contract_wdtor() { typedef boost::recursive_wrapper<T> W; Box<W> a; any_w<W>(a.p); g.armed = true; a.destroy(); g.armed = false; owners<T>(0, 0); vp_cover("post: destroyed"); }
template <class T> void contract_write() { typedef boost::recursive_wrapper<T> W; Box<W> a, b; any_w<W>(a.p); long bv = any_w<W>(b.p); long x = vp_sym("written"); kind<T>::put(a->get(), x); VP_CHECK(wval(*a) == x, "wrap.write writes through get() reach the owned object"); VP_CHECK(wval(*b) == bv, "wrap.write.other other wrappers are unaffected"); Box<W> c; new (c.p) W(const_cast<const W&>(*a)); kind<T>::put(c->get(), 1); VP_CHECK(wval(*a) == x, "wrap.deep copies are deep"); a.destroy(); b.destroy(); c.destroy(); vp_cover("post: written"); }
}
#define ENT(T) extern "C" void vc_construct__##T() { vp::contract_construct<vp::T>(); } extern "C" void vc_assign__##T() { vp::contract_assign<vp::T>(); } extern "C" void vc_wswap__##T() { vp::contract_wswap<vp::T>(); } extern "C" void vc_wdtor__##T() { vp::contract_wdtor<vp::T>(); } extern "C" void vc_write__##T() { vp::contract_write<vp::T>(); }
ENT(H0) ENT(A) ENT(B) ENT(C) ENT(D) ENT(E) ENT(N) ENT(O3)
#if __cplusplus >= 201703L
ENT(W)
#endif
// wrappers as content of a variant
#define VENT(CFG) VP_ENTRY(copy_ctor, CFG) VP_ENTRY(move_ctor, CFG) VP_ENTRY(value_ctor, CFG) VP_ENTRY(dtor, CFG) VP_ENTRY(copy_assign, CFG) VP_ENTRY(move_assign, CFG) VP_ENTRY(value_assign, CFG) VP_ENTRY(swap, CFG)
VENT(CfgRec)
