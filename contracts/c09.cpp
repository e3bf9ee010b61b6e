// C09: get.
#include "inh.hpp"
#include <boost/variant/get.hpp>
namespace vp {
struct res { const void* p; };
// F: 0 get, 1 strict_get, 2 relaxed_get
template <int F, class U, class V> struct G;
template <class U, class V> struct G<0, U, V> { static U* p(V* v) { return boost::get<U>(v); } static const U* cp(const V* v) { return boost::get<U>(v); } static U& r(V& v) { return boost::get<U>(v); } static const U& cr(const V& v) { return boost::get<U>(v); } static U&& rr(V&& v) { return boost::get<U>(std::move(v)); } static const U& ccr(const V& v) { return boost::get<const U>(v); } static const U* ccp(const V* v) { return boost::get<const U>(v); } };
template <class U, class V> struct G<1, U, V> { static U* p(V* v) { return boost::strict_get<U>(v); } static const U* cp(const V* v) { return boost::strict_get<U>(v); } static U& r(V& v) { return boost::strict_get<U>(v); } static const U& cr(const V& v) { return boost::strict_get<U>(v); } static U&& rr(V&& v) { return boost::strict_get<U>(std::move(v)); } static const U& ccr(const V& v) { return boost::strict_get<const U>(v); } static const U* ccp(const V* v) { return boost::strict_get<const U>(v); } };
template <class U, class V> struct G<2, U, V> { static U* p(V* v) { return boost::relaxed_get<U>(v); } static const U* cp(const V* v) { return boost::relaxed_get<U>(v); } static U& r(V& v) { return boost::relaxed_get<U>(v); } static const U& cr(const V& v) { return boost::relaxed_get<U>(v); } static U&& rr(V&& v) { return boost::relaxed_get<U>(std::move(v)); } static const U& ccr(const V& v) { return boost::relaxed_get<const U>(v); } static const U* ccp(const V* v) { return boost::relaxed_get<const U>(v); } };
template <int F, class U, class V> struct op_get { V* v; int form; const void* got; void operator()() {
    switch (form) { case 0: got = G<F, U, V>::p(v); break; case 1: got = G<F, U, V>::cp(v); break; case 2: { U& u = G<F, U, V>::r(*v); got = __builtin_addressof(u); break; } case 3: { const U& u = G<F, U, V>::cr(*v); got = __builtin_addressof(u); break; } case 4: { U&& u = G<F, U, V>::rr(std::move(*v)); got = __builtin_addressof(u); break; } case 5: { const U& u = G<F, U, V>::ccr(*v); got = __builtin_addressof(u); break; } default: got = G<F, U, V>::ccp(v); } } };
template <class Cfg, int F, class U> void ask(typename Cfg::V* v, const View& w, bool held) {
    typedef typename Cfg::V V; int form = vp_choice(7, "pointer / const pointer / reference / const reference / rvalue / const type"); bool ptr = form == 0 || form == 1 || form == 6;
    op_get<F, U, V> f = { v, form, 0 }; vp_frame_begin("get"); vp_frame_allow(&f); Outcome o = attempt(f); vp_frame_end();
    if (held) { vp_cover("post: get succeeded"); VP_CHECK(o.k == OK, "get.held get of the held type succeeds"); VP_CHECK(f.got == w.addr, "get.object get yields the content object itself"); }
    else if (ptr) { vp_cover("post: get yielded null"); VP_CHECK(o.k == OK && f.got == 0, "get.null the pointer form yields null when another type is held"); }
    else { vp_cover("post: get threw"); VP_CHECK(o.k == BADGET, "get.bad the reference form throws bad_get when another type is held"); }
    VP_CHECK(g.copies == 0 && g.moves == 0 && g.allocs == 0, "get.pure get neither copies nor moves");
    VP_CHECK((G<F, U, V>::p((V*)0) == 0 && G<F, U, V>::cp((const V*)0) == 0), "get.nullarg a null pointer yields null");
}
template <class Cfg> struct ask_f { typename Cfg::V* v; View w; int f; template <class T, int I> void run() { bool h = w.tid == (int)kind<T>::tid; if (f == 0) ask<Cfg, 0, T>(v, w, h); else if (f == 1) ask<Cfg, 1, T>(v, w, h); else ask<Cfg, 2, T>(v, w, h); } };
template <class Cfg, class L> void finish(Box<typename Cfg::V>& x, const View& w0) { View w1 = inv<Cfg>(x.p); one_each<Cfg>(0, &w1); VP_CHECK(same(w0, w1) && w0.addr == w1.addr, "get.unchanged get changes nothing"); x.destroy(); }
template <class Cfg> void contract_get() {
    typedef typename Cfg::V V; Box<V> x; View w0 = any<Cfg>(x.p, "variant"); VP_CHECK(!w0.ghost || vp_live_in(w0.addr, 16) == 1, "get.live the content is the live object");
    ask_f<Cfg> f = { x.p, w0, vp_choice(3, "get / strict_get / relaxed_get") }; int i = vp_choice((int)Cfg::L::size, "asked type"); dispatch<typename Cfg::L>::go(i, f);
    finish<Cfg, typename Cfg::L>(x, w0);
}
// the reference and rvalue forms, against the contract of the pointer forms (their bodies are not entered)
template <class U, class V> U* get_contract(V* v) { if (!v) return 0; View w = raw_view(*v); return w.tid == (int)kind<U>::tid ? (U*)const_cast<void*>(w.addr) : 0; }
template <class U, class V> const U* cget_contract(const V* v) { return get_contract<U, V>(const_cast<V*>(v)); }
template <class Cfg> struct learn_get { int k; template <class U, int> void run() { typedef typename Cfg::V V; V* v = 0; const V* c = 0; switch (k) { case 0: vp_learn((const void*)&get_contract<U, V>); boost::relaxed_get<U>(v); break; case 1: vp_learn((const void*)&cget_contract<U, V>); boost::relaxed_get<U>(c); break; case 2: vp_learn((const void*)&get_contract<U, V>); boost::strict_get<U>(v); break; default: vp_learn((const void*)&cget_contract<U, V>); boost::strict_get<U>(c); } } };
template <class Cfg> void contract_get_derived() {
    typedef typename Cfg::V V; int i = vp_choice((int)Cfg::L::size, "asked type"); int k = vp_choice(5, "contract of the pointer forms / caller"); if (k < 4) { learn_get<Cfg> f = { k }; dispatch<typename Cfg::L>::go(i, f); return; }
    Box<V> x; View w0 = any<Cfg>(x.p, "variant", 2); ask_f<Cfg> f = { x.p, w0, vp_choice(3, "get / strict_get / relaxed_get") }; vp_contracts(1); dispatch<typename Cfg::L>::go(i, f); vp_contracts(0); vp_cover("post: derived"); x.destroy();
}
// types that are not bounded, though related
struct Loose : Obj<40, 0> {};
template <> struct kind<Loose> { enum { tid = 67 }; };
template <class Cfg> struct loose_f { typename Cfg::V* v; View w; template <class T, int I> void run() { ask<Cfg, 2, T>(v, w, false); } };
template <class Cfg, class NB> void loose() {
    typedef typename Cfg::V V; Box<V> x; View w0 = any<Cfg>(x.p, "variant"); loose_f<Cfg> f = { x.p, w0 }; int i = vp_choice((int)NB::size, "asked type"); dispatch<NB>::go(i, f);
    finish<Cfg, typename Cfg::L>(x, w0);
}
struct CfgDerOnly { typedef TL<Der, Und, Mul> L; typedef boost::variant<Der, Und, Mul> V; static bool rec_at(int) { return false; } enum { fallback = -1, in_place = 0 }; VP_INH_BODY(CfgDerOnly, Der, Mul) };
// the same exception type is what callers catch
struct op_badget { int how; const char* what; void operator()() { what = 0; try { boost::variant<int, char> v('a'); boost::get<int>(v); } catch (std::exception& e) { what = e.what(); } } };
// move-only content can be taken out of an rvalue
inline void take() { typedef CfgMoveOnly Cfg; Box<Cfg::V> x; View w0 = any<Cfg>(x.p, "variant", 1); if (w0.which != 0) { x.destroy(); return; } M0 m(boost::get<M0>(std::move(*x))); VP_CHECK(kind<M0>::val(m) == w0.v, "get.take the content can be moved out of an rvalue"); View w1 = inv<Cfg>(x.p); VP_CHECK(w1.which == 0, "get.take.type the variant keeps its type"); vp_cover("post: taken"); x.destroy(); }
}
#define ENT(CFG) VP_ENTRY(get, CFG)
ENT(CfgBackup) ENT(CfgFallback) ENT(CfgBlank) ENT(CfgPod) ENT(CfgRec) ENT(CfgAlign) ENT(CfgSeq) ENT(CfgInh) ENT(CfgInhRec) ENT(CfgHostile) ENT(CfgTriv) ENT(CfgFloat)
extern "C" void vc_relaxed__inh() { vp::loose<vp::CfgInh, vp::TL<vp::Sec, vp::Unrel, int, vp::Loose> >(); }
extern "C" void vc_relaxed__derived_only() { vp::loose<vp::CfgDerOnly, vp::TL<vp::Base, vp::Sec, vp::DD, long> >(); }
extern "C" void vc_relaxed__pod() { vp::loose<vp::CfgPod, vp::TL<long, unsigned, vp::C, signed char> >(); }
extern "C" void vc_relaxed__rec() { vp::loose<vp::CfgRec, vp::TL<vp::D, int, boost::blank> >(); }
extern "C" void vc_get_take() { vp::take(); }
VP_ENTRY(get_derived, CfgBackup) VP_ENTRY(get_derived, CfgRec) VP_ENTRY(get_derived, CfgPod) VP_ENTRY(get_derived, CfgSeq)
