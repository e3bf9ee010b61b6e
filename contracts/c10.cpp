// C10: polymorphic_get.
#include "inh.hpp"
#include <boost/variant/polymorphic_get.hpp>
#include <type_traits>
namespace vp {
template <int F, class U, class V> struct G;
template <class U, class V> struct G<0, U, V> { static U* p(V* v) { return boost::polymorphic_get<U>(v); } static const U* cp(const V* v) { return boost::polymorphic_get<U>(v); } static U& r(V& v) { return boost::polymorphic_get<U>(v); } static const U& cr(const V& v) { return boost::polymorphic_get<U>(v); } static const U& ccr(const V& v) { return boost::polymorphic_get<const U>(v); } static const U* ncp(V* v) { return boost::polymorphic_get<const U>(v); } };
template <class U, class V> struct G<1, U, V> { static U* p(V* v) { return boost::polymorphic_strict_get<U>(v); } static const U* cp(const V* v) { return boost::polymorphic_strict_get<U>(v); } static U& r(V& v) { return boost::polymorphic_strict_get<U>(v); } static const U& cr(const V& v) { return boost::polymorphic_strict_get<U>(v); } static const U& ccr(const V& v) { return boost::polymorphic_strict_get<const U>(v); } static const U* ncp(V* v) { return boost::polymorphic_strict_get<const U>(v); } };
template <class U, class V> struct G<2, U, V> { static U* p(V* v) { return boost::polymorphic_relaxed_get<U>(v); } static const U* cp(const V* v) { return boost::polymorphic_relaxed_get<U>(v); } static U& r(V& v) { return boost::polymorphic_relaxed_get<U>(v); } static const U& cr(const V& v) { return boost::polymorphic_relaxed_get<U>(v); } static const U& ccr(const V& v) { return boost::polymorphic_relaxed_get<const U>(v); } static const U* ncp(V* v) { return boost::polymorphic_relaxed_get<const U>(v); } };
template <int F, class U, class V> struct op_pget { V* v; int form; const void* got; bool bad; void operator()() { bad = false; try {
    switch (form) { case 0: got = G<F, U, V>::p(v); break; case 1: got = G<F, U, V>::cp(v); break; case 2: { U& u = G<F, U, V>::r(*v); got = __builtin_addressof(u); break; } case 3: { const U& u = G<F, U, V>::cr(*v); got = __builtin_addressof(u); break; } case 4: { const U& u = G<F, U, V>::ccr(*v); got = __builtin_addressof(u); break; } default: got = G<F, U, V>::ncp(v); } } catch (boost::bad_polymorphic_get& e) { boost::bad_get& as = e; (void)as; bad = true; throw; } } };
// the U part of a T, computed by the language
template <class U, class T, bool B = std::is_base_of<U, T>::value> struct part { static const void* at(const void* p) { return static_cast<const U*>(static_cast<const T*>(p)); } enum { has = 1 }; };
template <class U, class T> struct part<U, T, false> { static const void* at(const void*) { return 0; } enum { has = 0 }; };
template <class T> struct part<T, T, false> { static const void* at(const void* p) { return p; } enum { has = 1 }; };
template <class U> struct part_f { const void* p; const void* r; bool has; template <class T, int> void run() { r = part<U, T>::at(p); has = part<U, T>::has; } };
template <class Cfg, int F, class U> void ask(typename Cfg::V* v, const View& w) {
    typedef typename Cfg::V V; part_f<U> e = { w.addr, 0, false }; dispatch<typename Cfg::L>::go(w.which, e);
    int form = vp_choice(6, "pointer / const pointer / reference / const reference / const type"); bool ptr = form == 0 || form == 1 || form == 5;
    op_pget<F, U, V> f = { v, form, 0, false }; vp_frame_begin("polymorphic_get"); vp_frame_allow(&f); Outcome o = attempt(f); vp_frame_end();
    if (e.has) { vp_cover("post: get succeeded"); VP_CHECK(o.k == OK, "pget.held polymorphic_get succeeds when the content is or derives from the type"); VP_CHECK(f.got == e.r, "pget.object polymorphic_get yields that part of the content itself"); }
    else if (ptr) { vp_cover("post: get yielded null"); VP_CHECK(o.k == OK && f.got == 0, "pget.null the pointer form yields null otherwise"); }
    else { vp_cover("post: get threw"); VP_CHECK(o.k == BADGET && f.bad, "pget.bad the reference form throws bad_polymorphic_get otherwise"); }
    VP_CHECK(g.copies == 0 && g.moves == 0 && g.allocs == 0, "pget.pure polymorphic_get neither copies nor moves");
    VP_CHECK((G<F, U, V>::p((V*)0) == 0 && G<F, U, V>::cp((const V*)0) == 0), "pget.nullarg a null pointer yields null");
}
template <class Cfg, int S> struct ask_f { typename Cfg::V* v; View w; int f; template <class T, int I> void run() { if (f == 0) ask<Cfg, S ? 0 : 2, T>(v, w); else if (f == 1) ask<Cfg, S ? 1 : 2, T>(v, w); else ask<Cfg, 2, T>(v, w); } };
template <class Cfg, class Asked, int S> void pget() {
    typedef typename Cfg::V V; Box<V> x; View w0 = any<Cfg>(x.p, "variant"); ask_f<Cfg, S> f = { x.p, w0, S ? vp_choice(3, "polymorphic_get / strict / relaxed") : 2 };
    int i = vp_choice((int)Asked::size, "asked type"); dispatch<Asked>::go(i, f);
    View w1 = inv<Cfg>(x.p); one_each<Cfg>(0, &w1); VP_CHECK(same(w0, w1) && w0.addr == w1.addr, "pget.unchanged polymorphic_get changes nothing"); x.destroy();
}
// const content: a non-const pointer is never handed out
struct CMul : Sec { long k; CMul() : k(3) {} };
inline void const_content() {
    typedef boost::variant<const CMul, int> V; int i = vp_choice(2, "held"); V v; if (i) { V w(7); VP_CHECK(boost::polymorphic_relaxed_get<Sec>(&w) == 0, "pget.null the pointer form yields null otherwise"); VP_CHECK(boost::polymorphic_relaxed_get<const Sec>(&w) == 0, "pget.null the pointer form yields null otherwise"); }
    VP_CHECK(boost::polymorphic_relaxed_get<Sec>(&v) == 0, "pget.const constness of the content is respected");
    const Sec* s = boost::polymorphic_relaxed_get<const Sec>(&v); VP_CHECK(s != 0 && s->s == 11 && vp_inside(s, &v, sizeof(V), sizeof(Sec)), "pget.object polymorphic_get yields that part of the content itself");
    const V& c = v; VP_CHECK(boost::polymorphic_relaxed_get<Sec>(&c) == s, "pget.object polymorphic_get yields that part of the content itself"); vp_cover("post: const content");
}
}
extern "C" void vc_pget__inh() { vp::pget<vp::CfgInh, vp::TL<vp::Base, vp::Der, vp::Und, vp::Mul, vp::DD, vp::Sec>, 1>(); }
extern "C" void vc_pget__inh_rec() { vp::pget<vp::CfgInhRec, vp::TL<vp::Base, vp::Der, vp::Mul, vp::Unrel, vp::Sec>, 1>(); }
extern "C" void vc_pget_relaxed__inh() { vp::pget<vp::CfgInh, vp::TL<vp::Unrel, int, vp::A>, 0>(); }
extern "C" void vc_pget_relaxed__inh_rec() { vp::pget<vp::CfgInhRec, vp::TL<vp::DD, vp::Und, int>, 0>(); }
extern "C" void vc_pget__backup() { vp::pget<vp::CfgBackup, vp::TL<vp::A, vp::B, vp::C, vp::D, vp::E>, 1>(); }
extern "C" void vc_pget__hostile() { vp::pget<vp::CfgHostile, vp::TL<vp::H0, vp::A, vp::H1>, 1>(); }
extern "C" void vc_pget__vir() { vp::pget<vp::CfgVir, vp::TL<vp::Poly, vp::Vir, vp::Vir2, vp::Base, vp::Sec>, 1>(); }
extern "C" void vc_pget__pod() { vp::pget<vp::CfgPod, vp::TL<vp::A, int, vp::B, char, unsigned short>, 1>(); }
extern "C" void vc_pget_relaxed__pod() { vp::pget<vp::CfgPod, vp::TL<long, unsigned, signed char, vp::C>, 0>(); }
extern "C" void vc_pget_const() { vp::const_content(); }
