// C19: visitor_ptr.
#include "inh.hpp"
#include "vis.hpp"
#include <boost/variant/visitor_ptr.hpp>
namespace vp {
struct Call { int n; int tid; const void* addr; long v; long ret; int fid; };
static Call cl;
template <class T> long called(const T& t, int fid) { cl.n++; cl.tid = kind<T>::tid; cl.addr = __builtin_addressof(t); cl.v = kind<T>::val(t); cl.fid = fid; if (g.armed && vp_choice(2, "function throws") == 1) raise(900 + kind<T>::tid); return cl.ret = vp_sym("function result"); }
template <class T> long f_val(T t) { return called<T>(t, 0); }
template <class T> long f_cref(const T& t) { return called<T>(t, 1); }
template <class T> long f_ref(T& t) { return called<T>(t, 2); }
template <class T> void f_void(const T& t) { called<T>(t, 3); }
static long fcells[2];
template <class T> long& f_retref(const T& t) { called<T>(t, 4); return fcells[1]; }
template <class T> long f_cval(const T t) { return called<T>(t, 5); }
template <class V, class T> struct op_fp { V* v; int form; int how; long got; const void* gotp;
    template <class P> void go(P p) { switch (how) { case 0: got = boost::apply_visitor(p, *v); break; case 1: got = boost::apply_visitor(static_cast<const P&>(p), *v); break; default: got = boost::apply_visitor(p, *v); } }
    void operator()() { const V& c = *v; switch (form) {
        case 0: go(boost::visitor_ptr(&f_val<T>)); break;
        case 1: go(boost::visitor_ptr(&f_cref<T>)); break;
        case 2: go(boost::visitor_ptr(&f_ref<T>)); break;
        case 3: { boost::apply_visitor(boost::visitor_ptr(&f_void<T>), *v); got = cl.ret; break; }
        case 4: { long& r = boost::apply_visitor(boost::visitor_ptr(&f_retref<T>), *v); gotp = &r; got = cl.ret; break; }
        case 5: got = boost::apply_visitor(boost::visitor_ptr(&f_cref<T>), c); break;
        case 6: got = boost::apply_visitor(boost::visitor_ptr(&f_val<T>), c); break;
        case 7: got = boost::apply_visitor(boost::visitor_ptr(&f_cref<T>), std::move(*v)); break;
        default: { boost::visitor_ptr_t<const T&, long> p(&f_cref<T>); boost::visitor_ptr_t<const T&, long> q(p); got = q(*dummy(c)); } } }
    struct dm { const T* p; }; static const T* dummy(const V& c) { const T* p = boost::relaxed_get<T>(&c); if (!p) throw boost::bad_visit(); return p; }
};
enum { FORMS = 9 };
template <class Cfg> struct fp_f { typename Cfg::V* v; View w0; template <class T, int I> void run() {
    typedef typename Cfg::V V; bool held = w0.tid == (int)kind<T>::tid; int form = vp_choice(FORMS, "parameter: value / const ref / ref / void / ref result / const variant (ref, value) / rvalue variant / direct"); int how = form <= 2 ? vp_choice(2, "lvalue / const adapter") : 0;
    op_fp<V, T> f = { v, form, how, 0, 0 }; cl.n = 0; cl.ret = 0; Outcome o = attempt(f); bool byval = form == 0 || form == 6;
    if (held) { vp_cover("post: content of that type"); VP_CHECK(o.k == OK || o.k == EX, "fp.held the function is called when the content is of its type"); VP_CHECK(o.faithful && (o.k != OK || g.throws == 0), "fp.exc the function's exception propagates unchanged");
        if (o.k == OK || cl.n) { VP_CHECK(cl.n == 1, "fp.once the function is called exactly once"); VP_CHECK(cl.tid == w0.tid && cl.v == w0.v, "fp.value the function receives the current content"); VP_CHECK(byval || cl.addr == w0.addr, "fp.object a reference parameter receives the content object itself"); }
        if (o.k == OK) { VP_CHECK(f.got == cl.ret, "fp.result the function's result is returned"); VP_CHECK(form != 4 || f.gotp == &fcells[1], "fp.result.ref a reference result is passed through"); } VP_CHECK(byval || (g.copies == 0 && g.moves == 0), "fp.nocopy a reference parameter copies nothing"); VP_CHECK(!byval || o.k != OK || g.copies + g.moves <= 1, "fp.onecopy a value parameter is copied once"); }
    else { vp_cover("post: content of another type"); VP_CHECK(o.k == BADVISIT, "fp.bad_visit bad_visit is thrown when the content is of another type"); VP_CHECK(cl.n == 0, "fp.nocall the function is not called"); VP_CHECK(g.copies == 0 && g.moves == 0, "fp.nocopy nothing is copied"); }
} };
template <class Cfg> void contract_fp() { typedef typename Cfg::V V; Box<V> x; View w0 = any<Cfg>(x.p, "variant"); fp_f<Cfg> f = { x.p, w0 }; int i = vp_choice((int)Cfg::L::size, "function parameter"); dispatch<typename Cfg::L>::go(i, f); View w1 = inv<Cfg>(x.p); one_each<Cfg>(0, &w1); VP_CHECK(same(w0, w1) && w0.addr == w1.addr, "fp.unchanged the variant is unchanged"); x.destroy(); }
// a reference parameter lets the function change the content
template <class T> void f_set(T& t) { kind<T>::put(t, cells[0]); }
template <class Cfg> struct set_f { typename Cfg::V* v; View w0; template <class T, int I> void run() { if (w0.tid != (int)kind<T>::tid) return; cells[0] = vp_sym("written"); boost::apply_visitor(boost::visitor_ptr(&f_set<T>), *v); View w1 = probe<typename Cfg::L>(*v); VP_CHECK(w1.which == w0.which && w1.addr == w0.addr && w1.v == kind<T>::canon(cells[0]), "fp.write writes through a reference parameter reach the content"); vp_cover("post: written"); } };
template <class Cfg> void contract_set() { typedef typename Cfg::V V; Box<V> x; View w0 = any<Cfg>(x.p, "variant"); set_f<Cfg> f = { x.p, w0 }; int i = vp_choice((int)Cfg::L::size, "function parameter"); dispatch<typename Cfg::L>::go(i, f); x.destroy(); }
inline void badvisit() { boost::variant<int, char> v('a'); int k = 0; try { boost::apply_visitor(boost::visitor_ptr(&f_cref<int>), v); } catch (std::exception& e) { k = e.what() != 0; } VP_CHECK(k == 1, "fp.std bad_visit is a std::exception"); vp_cover("post: bad_visit"); }
}
#define E(CFG) VP_ENTRY(fp, CFG) VP_ENTRY(set, CFG)
E(CfgBackup) E(CfgFallback) E(CfgPod) E(CfgRec) E(CfgAlign) E(CfgSeq) E(CfgInh) E(CfgInhRec) VP_ENTRY(fp, CfgBlank) E(CfgOne)
extern "C" void vc_bad_visit() { vp::badvisit(); }
