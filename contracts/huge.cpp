// C01/C07: more bounded types than fit one byte of discriminator (only contracts whose size is linear in the number of types).
#include "cfg.hpp"
#include <boost/mpl/list.hpp>
#include <boost/mpl/push_front.hpp>
namespace vp {
enum { HUGE_N = 134 };
template <int I> struct hobj { typedef Obj<400 + I, ALLT, I % 3 * 8> type; };
template <int I, int E> struct hseq { typedef typename boost::mpl::push_front<typename hseq<I + 1, E>::type, typename hobj<I>::type>::type type; };
template <int E> struct hseq<E, E> { typedef boost::mpl::list<>::type type; };
typedef boost::make_variant_over<hseq<0, HUGE_N>::type>::type HV;
// the positions at which a one-byte discriminator could go wrong
static const int hpos[] = { 0, 1, 64, 126, 127, 128, 129, 133 };
template <class F> void hdispatch(int i, F& f) { switch (i) {
#define HP(I) case I: f.template run<typename hobj<I>::type, I>(); break;
    HP(0) HP(1) HP(64) HP(126) HP(127) HP(128) HP(129) HP(133) default: vp_assume(false); } }
struct HSeen : boost::static_visitor<long> { mutable int calls, tid; mutable const void* at; HSeen() : calls(0), tid(-1), at(0) {} template <class T> long operator()(T& t) const { ++calls; at = &t; tid = kind<typename std::remove_const<T>::type>::tid; return kind<typename std::remove_const<T>::type>::val(t); } };
// the class invariant, seen from outside
inline void hinv(HV* v, int which, long x, int live) {
    VP_CHECK(v->which() == which, "huge.which which() is the position of the held type"); VP_CHECK(!v->empty(), "huge.empty empty() is false");
    HSeen s; long got = boost::apply_visitor(s, *v); VP_CHECK(s.calls == 1 && s.tid == 400 + which, "huge.visit visitation reaches the held type, once"); VP_CHECK(vp_is_live(s.at, 400 + which) && got == x, "huge.value the content is live and has the value");
    HSeen c; got = boost::apply_visitor(c, const_cast<const HV&>(*v)); VP_CHECK(c.calls == 1 && c.at == s.at && got == x, "huge.const const visitation reaches the same object"); VP_CHECK(vp_live_total() == live, "huge.one there is exactly one content object per variant");
}
struct hmake { HV* p; long x; template <class T, int I> void run() { new (p) HV(kind<T>::mk(x)); } };
struct op_hassign { HV* a; HV* b; int how; void operator()() { if (how == 0) *a = const_cast<const HV&>(*b); else *a = std::move(*b); } };
inline void huge_ops() {
    Box<HV> a, b; int k = vp_choice(8, "held type"), i = hpos[k]; long x = vp_sym("value"), y = vp_sym("other value"); { hmake m = { a.p, x }; hdispatch(i, m); } hinv(a.p, i, x, 1);
    int how = vp_choice(4, "destroy / copy construct / copy-assign, maybe failing / assign over it, maybe failing"); 
    if (how == 0) { a.destroy(); VP_CHECK(vp_live_total() == 0, "huge.destroy destruction destroys the content"); return; }
    if (how == 1) { { new (b.p) HV(const_cast<const HV&>(*a)); } hinv(a.p, i, x, 2); hinv(b.p, i, x, 2); a.destroy(); b.destroy(); return; }
    int j = hpos[(k + 1 + vp_choice(7, "other type")) % 8]; { hmake m = { b.p, y }; hdispatch(j, m); } 
    op_hassign f = { how == 2 ? b.p : a.p, how == 2 ? a.p : b.p, vp_choice(2, "copy / move") }; Outcome o = attempt(f);
    if (how == 2) { if (o.k == OK) hinv(b.p, i, x, 2); else hinv(b.p, j, y, 2); if (f.how == 0) hinv(a.p, i, x, 2); else VP_CHECK(a->which() == i, "huge.source a moved-from variant keeps its type"); }
    else { if (o.k == OK) hinv(a.p, j, y, 2); else hinv(a.p, i, x, 2); if (f.how == 0) hinv(b.p, j, y, 2); else VP_CHECK(b->which() == j, "huge.source a moved-from variant keeps its type"); }
    vp_cover(o.k == OK ? "post: assigned" : "post: failed"); a.destroy(); b.destroy(); VP_CHECK(vp_live_total() == 0, "huge.destroy destruction destroys the content");
}
}
extern "C" void vc_huge() { vp::huge_ops(); }
