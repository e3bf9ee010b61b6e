// C16: exceptions and noexcept.
#include "inh.hpp"
#include "big.hpp"
#include <boost/functional/hash.hpp>
#include <functional>
#include <boost/variant/polymorphic_get.hpp>
#include <boost/variant/visitor_ptr.hpp>
namespace vp {
// ---- declared exception specifications agree with the bounded types
template <class T> struct wrapped { enum { value = 0 }; };
template <class T> struct wrapped<boost::recursive_wrapper<T> > { enum { value = 1 }; };
template <class... T> struct all_mc; template <> struct all_mc<> { enum { value = 1 }; };
template <class H, class... T> struct all_mc<H, T...> { enum { value = std::is_nothrow_move_constructible<H>::value && all_mc<T...>::value }; };
template <class... T> struct all_ma; template <> struct all_ma<> { enum { value = 1 }; };
template <class H, class... T> struct all_ma<H, T...> { enum { value = std::is_nothrow_move_assignable<H>::value && all_ma<T...>::value }; };
template <class T0, class... T> void spec_of() {
    typedef boost::variant<T0, T...> V;
    VP_CHECK((noexcept(V(std::declval<V&&>())) == (bool)all_mc<T0, T...>::value), "noexcept.movector move construction is noexcept exactly when all content moves are");
    VP_CHECK((std::is_nothrow_move_constructible<V>::value == (bool)all_mc<T0, T...>::value), "noexcept.movector move construction is noexcept exactly when all content moves are");
    VP_CHECK((noexcept(std::declval<V&>() = std::declval<V&&>()) == (bool)(all_mc<T0, T...>::value && all_ma<T0, T...>::value)), "noexcept.moveassign move assignment is noexcept exactly when all content moves are");
    VP_CHECK((!noexcept(V()) || std::is_nothrow_default_constructible<T0>::value), "noexcept.default default construction is noexcept only if the first type's is");
    VP_CHECK(noexcept(std::declval<const V&>().which()), "noexcept.which which() never throws");
    VP_CHECK(noexcept(std::declval<const V&>().empty()), "noexcept.empty empty() never throws");
    VP_CHECK(std::is_nothrow_destructible<V>::value, "noexcept.dtor destruction never throws");
    vp_cover("post: specifications");
}
typedef Obj<35, MT> OnlyMT; typedef Obj<36, MAT> OnlyMAT; typedef Obj<37, CT | CAT> OnlyCopy;
inline void specs() {
    spec_of<A, B>(); spec_of<X0, X1>(); spec_of<X0, OnlyMT>(); spec_of<OnlyMT, X0>(); spec_of<X0, OnlyMAT, X1>(); spec_of<OnlyMAT>(); spec_of<OnlyCopy, X0>(); spec_of<C, D>(); spec_of<D, E>(); spec_of<int, char>(); spec_of<int, A>(); spec_of<boost::blank, X0, N>();
    spec_of<X0, boost::recursive_wrapper<X1> >(); spec_of<boost::recursive_wrapper<X0> >(); spec_of<M0, int, M1>(); spec_of<X0, X1, X2, OnlyCopy, OnlyMT>(); spec_of<long, X0, X1, X2, OnlyCopy, OnlyMAT>(); spec_of<A>(); spec_of<D>(); spec_of<N, N2>();
}
// configurations for which the declared specification matters at run time
struct NxMT { typedef TL<X0, OnlyMT> L; typedef boost::variant<X0, OnlyMT> V; static bool rec_at(int) { return false; } enum { fallback = 0, in_place = 1 }; static const char* name() { return "NxMT"; } static void fail_into(V*, int) { vp_assume(false); } };
struct NxMAT { typedef TL<X2, OnlyMAT> L; typedef boost::variant<X2, OnlyMAT> V; static bool rec_at(int) { return false; } enum { fallback = 1, in_place = 1 }; static const char* name() { return "NxMAT"; } static void fail_into(V*, int) { vp_assume(false); } };
struct NxRec { typedef TL<X0, X1> L; typedef boost::variant<X0, boost::recursive_wrapper<X1> > V; static bool rec_at(int i) { return i == 1; } enum { fallback = 0, in_place = 1 }; static const char* name() { return "NxRec"; } static void fail_into(V*, int) { vp_assume(false); } };
typedef Obj<38, CT | CAT | DT> OnlyCopyD;
struct NxCopy { typedef TL<OnlyCopyD, OnlyCopy> L; typedef boost::variant<OnlyCopyD, OnlyCopy> V; static bool rec_at(int) { return false; } enum { fallback = 1, in_place = 1 }; static const char* name() { return "NxCopy"; } static void fail_into(V*, int) { vp_assume(false); } };
// the first type is wrapped: default construction allocates
struct NxRec0 { typedef TL<X0, A> L; typedef boost::variant<boost::recursive_wrapper<X0>, A> V; static bool rec_at(int i) { return i == 0; } enum { fallback = -1, in_place = 0 }; static const char* name() { return "NxRec0"; } static void fail_into(V* p, int i) { vp_assume(i == 0); V bomb(kind<A>::mk(1)); g.force = 0; provoke(p, bomb); g.force = -1; } };

// ---- content operators that throw
template <int ID> struct Touchy { long v; explicit Touchy(vp::val q) : v(q.x) {} Touchy() : v(0) {}
    friend bool operator==(const Touchy& a, const Touchy& b) { if (may_fail()) raise(ID); return a.v == b.v; }
    friend bool operator<(const Touchy& a, const Touchy& b) { if (may_fail()) raise(ID); return a.v < b.v; }
    friend std::size_t hash_value(const Touchy& a) { if (may_fail()) raise(ID); return (std::size_t)a.v; } };
template <int ID> struct kind<Touchy<ID> > { enum { tid = ID, ghost = 0, copy_nx = 1, move_nx = 1, def_nx = 1, cassign_nx = 1, massign_nx = 1 }; static Touchy<ID> mk(long x) { return Touchy<ID>(vp::val(x)); } static long canon(long x) { return x; } static long val(const Touchy<ID>& t) { return t.v; } static long def() { return 0; } static void put(Touchy<ID>& t, long x) { t.v = x; } };
struct CfgTouchy { typedef TL<Touchy<80>, Touchy<81> > L; typedef boost::variant<Touchy<80>, boost::recursive_wrapper<Touchy<81> > > V; static bool rec_at(int i) { return i == 1; } enum { fallback = 0, in_place = 1 }; static const char* name() { return "CfgTouchy"; } static void fail_into(V*, int) { vp_assume(false); } };
struct op_rel { const CfgTouchy::V* a; const CfgTouchy::V* b; int op; bool r; void operator()() { switch (op) { case 0: r = *a == *b; break; case 1: r = *a != *b; break; case 2: r = *a < *b; break; case 3: r = *a > *b; break; case 4: r = *a <= *b; break; default: r = *a >= *b; } } };
inline void touchy_rel() {
    typedef CfgTouchy Cfg; Box<Cfg::V> a, b; View a0 = any<Cfg>(a.p, "left", 1), b0 = any<Cfg>(b.p, "right", 1); op_rel f = { a.p, b.p, vp_choice(6, "== != < > <= >="), false }; Outcome o = attempt(f); exc_clause(o); VP_CHECK(o.k != OOM, "exc.kind no foreign exception is thrown");
    if (o.k == EX) vp_cover("post: comparison threw"); View a1 = inv<Cfg>(a.p), b1 = inv<Cfg>(b.p); VP_CHECK(same(a0, a1) && same(b0, b1), "exc.unchanged a throwing comparison changes nothing"); a.destroy(); b.destroy();
}
struct op_hash { const CfgTouchy::V* a; int op; std::size_t r; void operator()() { if (op == 0) { boost::hash<CfgTouchy::V> h; r = h(*a); } else if (op == 1) r = hash_value(*a); else { std::hash<CfgTouchy::V> h; r = h(*a); } } };
inline void touchy_hash() { typedef CfgTouchy Cfg; Box<Cfg::V> a; View a0 = any<Cfg>(a.p, "variant", 1); op_hash f = { a.p, vp_choice(3, "boost::hash / hash_value / std::hash"), 0 }; Outcome o = attempt(f); exc_clause(o); if (o.k == EX) vp_cover("post: hash threw"); View a1 = inv<Cfg>(a.p); VP_CHECK(same(a0, a1), "exc.unchanged a throwing hash changes nothing"); a.destroy(); }
// ---- queries never throw, in any state, even when every content operation and allocation would fail
template <class Cfg> struct op_query { typename Cfg::V* v; int op; const void* sink; void operator()() { typedef typename Cfg::V V; typedef typename at<0, typename Cfg::L>::type T0; const V& c = *v; switch (op) { case 0: sink = &c; (void)c.which(); break; case 1: (void)c.empty(); break; case 2: sink = &c.type(); break; case 3: sink = boost::get<T0>(v); break; case 4: sink = boost::get<T0>(&c); break; case 5: sink = boost::relaxed_get<T0>(v); break; default: { View w = { -1, -1, 0, 0, false }; Probe p(&w); boost::apply_visitor(p, c); sink = w.addr; } } } };
template <class Cfg> void contract_query() {
    typedef typename Cfg::V V; Box<V> x; View w0 = any<Cfg>(x.p, "variant", NSTATES); op_query<Cfg> f = { x.p, vp_choice(7, "which / empty / type / get / const get / relaxed_get / visit"), 0 }; vp_frame_begin("query"); vp_frame_allow(&f); Outcome o = attempt(f); vp_frame_end();
    VP_CHECK(o.k == OK, "query.nothrow queries never throw"); VP_CHECK(g.copies == 0 && g.moves == 0 && g.allocs == 0, "query.pure queries neither copy nor allocate"); View w1 = inv<Cfg>(x.p); VP_CHECK(same(w0, w1), "query.unchanged queries change nothing"); vp_cover("post: queried"); x.destroy();
}
// ---- the documented exceptions are what they are said to be
inline void documented() {
    int k = 0; { boost::variant<int, char> v('a'); try { boost::get<int>(v); } catch (boost::bad_get&) { k = 1; } catch (...) { k = 2; } } VP_CHECK(k == 1, "exc.bad_get a failed reference get throws bad_get");
    k = 0; { boost::variant<int, char> v('a'); try { boost::get<int>(v); } catch (std::exception& e) { k = e.what() != 0; } } VP_CHECK(k == 1, "exc.std bad_get is a std::exception");
    k = 0; { boost::variant<int, char> v('a'); try { boost::polymorphic_get<int>(v); } catch (boost::bad_polymorphic_get&) { k = 1; } catch (...) { k = 2; } } VP_CHECK(k == 1, "exc.bad_pget a failed polymorphic get throws bad_polymorphic_get");
    k = 0; { boost::variant<int, char> v('a'); try { boost::polymorphic_get<int>(v); } catch (boost::bad_get&) { k = 1; } catch (...) { k = 2; } } VP_CHECK(k == 1, "exc.bad_pget bad_polymorphic_get is a bad_get");
    vp_cover("post: documented exceptions");
}
}
extern "C" void vc_noexcept_facts() { vp::specs(); }
extern "C" void vc_touchy_rel() { vp::touchy_rel(); }
extern "C" void vc_touchy_hash() { vp::touchy_hash(); }
extern "C" void vc_documented() { vp::documented(); }
#define Q(CFG) VP_ENTRY(query, CFG)
Q(CfgBackup) Q(CfgFallback) Q(CfgBlank) Q(CfgRec) Q(CfgPod) Q(CfgAlignBackup) Q(CfgSeq) Q(CfgNoAlloc)
#define ALL(CFG) VP_ENTRY(default_ctor, CFG) VP_ENTRY(copy_ctor, CFG) VP_ENTRY(move_ctor, CFG) VP_ENTRY(value_ctor, CFG) VP_ENTRY(dtor, CFG) VP_ENTRY(copy_assign, CFG) VP_ENTRY(move_assign, CFG) VP_ENTRY(self_assign, CFG) VP_ENTRY(value_assign, CFG) VP_ENTRY(swap, CFG) VP_ENTRY(self_swap, CFG)
ALL(NxMT) ALL(NxMAT) ALL(NxRec) ALL(NxRec0) ALL(NxCopy)
