// C20: make_recursive_variant, make_recursive_variant_over, make_variant_over.
#include "ops.hpp"
#include "vis.hpp"
#include <boost/mpl/at.hpp>
#include <boost/mpl/size.hpp>
#include <boost/mpl/list.hpp>
#include <boost/mpl/deque.hpp>
#include <boost/functional/hash.hpp>
#include <vector>
#include <map>
namespace vp {
// an owning link: may hold one T on the heap; copies are deep
template <class T> struct Node {
    T* l;
    explicit Node(T* q) : l(q) {}
    Node(const Node& o) : l(o.l ? new T(*o.l) : 0) {}
    Node(Node&& o) noexcept : l(o.l) { o.l = 0; }
    Node& operator=(const Node& o) { T* n = o.l ? new T(*o.l) : 0; delete l; l = n; return *this; }
    Node& operator=(Node&& o) noexcept { if (this != &o) { delete l; l = o.l; o.l = 0; } return *this; }
    ~Node() { delete l; }
    friend bool operator==(const Node& a, const Node& b) { return a.l && b.l ? *a.l == *b.l : a.l == b.l; }
    friend bool operator<(const Node& a, const Node& b) { return a.l && b.l ? *a.l < *b.l : b.l != 0 && a.l == 0; }
    friend std::size_t hash_value(const Node& a) { return a.l ? hash_value(*a.l) : 0; }
};
// what a link holds: the leaf's value and the depth
template <class V> struct Leaf : boost::static_visitor<void> { long* v; int* n; Leaf(long* a, int* b) : v(a), n(b) {} template <class T> void operator()(const T& t) const { *v = *v * 8 + kind<T>::val(t) * 4 + 3; *n += live_of(t); } };
template <class V> int live_of(const Node<V>& n) { if (!n.l) return 0; long v = 0; int c = 0; Leaf<V> f(&v, &c); boost::apply_visitor(f, *n.l); return c; }
template <class V> struct kind<Node<V> > { typedef Node<V> N_; enum { tid = 90, ghost = 1, copy_nx = 0, move_nx = 1, def_nx = 0, cassign_nx = 0, massign_nx = 1 };
    static N_ mk(long x) { return N_(new V(A(vp::val(x)))); }
    static long canon(long x) { return x * 4 + 3; }
    static long val(const N_& n) { if (!n.l) return -1; long v = 0; int c = 0; Leaf<V> f(&v, &c); boost::apply_visitor(f, *n.l); return v; }
    static long def() { return 0; } static void put(N_& n, long x) { if (n.l) *n.l = A(vp::val(x)); } };
// std::vector of the variant
template <class V> int live_of(const std::vector<V>& n) { int c = 0; for (std::size_t i = 0; i < n.size(); ++i) { long v = 0; Leaf<V> f(&v, &c); boost::apply_visitor(f, n[i]); } return c; }
template <class V> struct kind<std::vector<V> > { typedef std::vector<V> N_; enum { tid = 91, ghost = 1, copy_nx = 0, move_nx = 1, def_nx = 0, cassign_nx = 0, massign_nx = 1 };
    static N_ mk(long x) { N_ r; r.reserve(2); r.emplace_back(A(vp::val(x))); r.emplace_back(A(vp::val(x + 1))); return r; }
    static long canon(long x) { return (x * 4 + 3) * 8 + (x + 1) * 4 + 3; }
    static long val(const N_& n) { long v = 0; int c = 0; Leaf<V> f(&v, &c); for (std::size_t i = 0; i < n.size(); ++i) boost::apply_visitor(f, n[i]); return v; }
    static long def() { return 0; } static void put(N_& n, long x) { n.clear(); } };

// ---- induction over the depth: below the first level a variant is known only by the contract of its operations
enum { IND = 95 };
template <class V> V* ind_new(long x) { void* p = ::operator new(sizeof(V)); vp_born(p, sizeof(V), alignof(V), IND); *static_cast<long*>(p) = x; return static_cast<V*>(p); }
template <class V> long ind_val(const V* p) { return *reinterpret_cast<const long*>(p); }
template <class T> struct INode { // as Node, but what it owns is of any depth
    T* l;
    explicit INode(T* q) : l(q) {}
    INode(const INode& o) : l(o.l ? new T(*o.l) : 0) {}
    INode(INode&& o) noexcept : l(o.l) { o.l = 0; }
    INode& operator=(const INode& o) { T* n = o.l ? new T(*o.l) : 0; delete l; l = n; return *this; }
    INode& operator=(INode&& o) noexcept { if (this != &o) { delete l; l = o.l; o.l = 0; } return *this; }
    ~INode() { delete l; }
    friend bool operator==(const INode& a, const INode& b) { return a.l && b.l ? *a.l == *b.l : a.l == b.l; }
    friend bool operator<(const INode& a, const INode& b) { return a.l && b.l ? *a.l < *b.l : b.l != 0 && a.l == 0; }
};
template <class V> int live_of(const INode<V>& n) { return n.l ? 1 : 0; }
template <class V> struct kind<INode<V> > { typedef INode<V> N_; enum { tid = 94, ghost = 1, copy_nx = 0, move_nx = 1, def_nx = 0, cassign_nx = 0, massign_nx = 1 };
    static N_ mk(long x) { return N_(ind_new<V>(x)); } static long canon(long x) { return x; } static long val(const N_& n) { return n.l ? ind_val(n.l) : -1; } static long def() { return 0; } static void put(N_& n, long x) { if (n.l) *reinterpret_cast<long*>(n.l) = x; } };
// the induction hypothesis: the contracts of the operations on an inner variant; on any other variant the body itself
template <class V> void copy_contract(V* self, const V* src) { if (vp_is_live(src, IND)) { if (may_fail()) raise(IND); vp_born(self, sizeof(V), alignof(V), IND); *reinterpret_cast<long*>(self) = ind_val(src); g.copies++; } else new (self) V(*src); }
template <class V> void dtor_contract(V* self) { if (vp_is_live(self, IND)) vp_die(self, sizeof(V), IND); else self->~V(); }
template <class V> bool eq_contract(const V* a, const V* b) { if (vp_is_live(a, IND)) { vp_use(b, IND); return (vp_uf(1095, ind_val(a), ind_val(b)) & 1) != 0; } return *a == *b; }
template <class V> bool lt_contract(const V* a, const V* b) { if (vp_is_live(a, IND)) { vp_use(b, IND); return (vp_uf(2095, ind_val(a), ind_val(b)) & 1) != 0; } return *a < *b; }
template <class Cfg> bool induction() {   // true: a learning path
    typedef typename Cfg::V V; if (!vp_symbolic()) return true; int k = vp_choice(5, "contract of copy / destruction / == / < / caller"); V* q = static_cast<V*>(vp_box(sizeof(V), alignof(V)));
    switch (k) { case 0: vp_learn((const void*)&copy_contract<V>); new (q) V(const_cast<const V&>(*q)); return true; case 1: vp_learn((const void*)&dtor_contract<V>); q->~V(); return true;
        case 2: vp_learn((const void*)&eq_contract<V>); (void)(const_cast<const V&>(*q) == const_cast<const V&>(*q)); return true; case 3: vp_learn((const void*)&lt_contract<V>); (void)(const_cast<const V&>(*q) < const_cast<const V&>(*q)); return true; default: vp_unbox(q); vp_contracts(1); return false; }
}
// content that mentions the variant but is known only by its contract
template <class T> struct Link : Obj<96, ALLT> { Link() {} explicit Link(val q) : Obj<96, ALLT>(q) {} };
template <class V> struct kind<Link<V> > { typedef Link<V> N_; enum { tid = 96, ghost = 1, copy_nx = 0, move_nx = 0, def_nx = 0, cassign_nx = 0, massign_nx = 0 };
    static N_ mk(long x) { return N_(vp::val(x)); } static long canon(long x) { return x; } static long val(const N_& n) { n.use(); return n.v; } static long def() { return defv(96); } static void put(N_& n, long x) { n.set(x); } };

typedef boost::recursive_variant_ rv_;
#define RCFG(NAME, MAKE, FB, INP, REC, B0, B1, ...) struct NAME { typedef MAKE::type V; typedef TL<__VA_ARGS__> L; static bool rec_at(int i) { return i == REC; } enum { fallback = FB, in_place = INP }; VP_CFG_BODY(NAME, B0, B1) };
typedef boost::make_recursive_variant<A, Node<rv_>, B> MR; typedef MR::type MRV;
RCFG(CfgMR, MR, -1, 0, 1, A, B, A, Node<MRV>, B)
typedef boost::make_recursive_variant<A, N, Node<rv_>, B> MRF; typedef MRF::type MRFV;
RCFG(CfgMRF, MRF, 1, 1, 2, A, B, A, N, Node<MRFV>, B)
typedef boost::make_recursive_variant_over<boost::mpl::vector<A, Node<rv_>, B> > MRO; typedef MRO::type MROV;
RCFG(CfgMRO, MRO, -1, 0, 1, A, B, A, Node<MROV>, B)
typedef boost::make_recursive_variant<A, std::vector<rv_>, B> MRVec; typedef MRVec::type MRVecV;
RCFG(CfgMRVec, MRVec, -1, 0, 1, A, B, A, std::vector<MRVecV>, B)
typedef boost::make_recursive_variant<A, INode<rv_>, B> MRI; typedef MRI::type MRIV;
RCFG(CfgMRI, MRI, -1, 0, 1, A, B, A, INode<MRIV>, B)
typedef boost::make_recursive_variant_over<boost::mpl::vector<A, N, INode<rv_> > > MRIF; typedef MRIF::type MRIFV;
RCFG(CfgMRIF, MRIF, 1, 1, 2, A, A, A, N, INode<MRIFV>)
typedef boost::make_recursive_variant<A, Link<rv_>, B> MRL; typedef MRL::type MRLV;
RCFG(CfgMRL, MRL, -1, 0, 1, A, B, A, Link<MRLV>, B)
typedef boost::make_variant_over<boost::mpl::vector<A, C, N, B> > MO; typedef MO::type MOV;
RCFG(CfgMO, MO, 2, 1, -1, A, B, A, C, N, B)
typedef boost::make_variant_over<boost::mpl::list<A, B, D> > ML; typedef ML::type MLV;
RCFG(CfgML, ML, -1, 0, -1, A, B, A, B, D)
typedef boost::make_variant_over<boost::mpl::vector<A, boost::recursive_wrapper<R>, B> > MOR; typedef MOR::type MORV;
RCFG(CfgMOR, MOR, -1, 0, 1, A, B, A, R, B)

// ---- the bounded types are exactly the specified ones
template <class V, int I, class T> void is_at() { VP_CHECK((std::is_same<typename boost::mpl::at_c<typename V::types, I>::type, T>::value), "types.at the bounded types are the specified ones, in order"); }
template <class V, int I, class... T> struct all_at { static void go() {} };
template <class V, int I, class H, class... T> struct all_at<V, I, H, T...> { static void go() { is_at<V, I, H>(); all_at<V, I + 1, T...>::go(); } };
template <class V, class... T> void exactly() { VP_CHECK((boost::mpl::size<typename V::types>::value == sizeof...(T)), "types.size there are exactly the specified bounded types"); all_at<V, 0, T...>::go(); }
template <class T, class U> struct Two { };
template <class T> struct One { };
template <class T, class U, class W> struct Three { };
template <class T> struct inner; template <class T> struct inner<One<T> > { typedef T type; };
inline void types() {
    { typedef boost::make_recursive_variant<int, std::vector<rv_> >::type V; exactly<V, int, std::vector<V> >(); }
    { typedef boost::make_recursive_variant<int, rv_*, const rv_*, std::pair<rv_, int>, char>::type V; exactly<V, int, V*, const V*, std::pair<V, int>, char>(); }
    { typedef boost::make_recursive_variant<int, Two<rv_, One<rv_> >, One<rv_*> >::type V; exactly<V, int, Two<V, One<V> >, One<V*> >(); }
    { typedef boost::make_recursive_variant<int, rv_ (*)(rv_, int), void (*)(), One<rv_ (*)(const rv_&)> >::type V; exactly<V, int, V (*)(V, int), void (*)(), One<V (*)(const V&)> >(); }
    { typedef boost::make_recursive_variant<A, One<const rv_>, One<rv_&>, Two<int, char> >::type V; exactly<V, A, One<const V>, One<V&>, Two<int, char> >(); }
    { typedef boost::make_recursive_variant_over<boost::mpl::vector<int, One<rv_>, A> >::type V; exactly<V, int, One<V>, A>(); }
    { typedef boost::make_recursive_variant<std::map<int, rv_>, int>::type V; exactly<V, std::map<int, V>, int>(); }
    { typedef boost::make_recursive_variant<int, One<boost::variant<char, rv_*> > >::type V; exactly<V, int, One<boost::variant<char, V*> > >(); }
    { typedef boost::make_variant_over<boost::mpl::vector<int, A, char> >::type V; exactly<V, int, A, char>(); }
    { typedef boost::make_recursive_variant<int, rv_* const, rv_* volatile, rv_* const volatile, volatile rv_*, rv_**>::type V; exactly<V, int, V* const, V* volatile, V* const volatile, volatile V*, V**>(); }
    { typedef boost::make_recursive_variant<int, One<const volatile rv_>, One<volatile rv_>, One<rv_* const>, One<One<One<rv_> > > >::type V; exactly<V, int, One<const volatile V>, One<volatile V>, One<V* const>, One<One<One<V> > > >(); }
    { typedef boost::make_recursive_variant<int, rv_ (*)(), rv_ (*)(rv_, rv_, rv_, rv_), One<int (*)(int, rv_*)> >::type V; exactly<V, int, V (*)(), V (*)(V, V, V, V), One<int (*)(int, V*)> >(); }
    { typedef boost::make_recursive_variant<Three<int, rv_, rv_*>, int, Three<rv_, rv_, rv_>, Three<A, B, C> >::type V; exactly<V, Three<int, V, V*>, int, Three<V, V, V>, Three<A, B, C> >(); }
    { typedef boost::make_recursive_variant<A, std::vector<boost::variant<B, rv_> > >::type V; exactly<V, A, std::vector<boost::variant<B, V> > >(); }
    { typedef boost::make_recursive_variant<A, One<rv_>, B, One<B>, C, D, E, N, R, O3>::type V; exactly<V, A, One<V>, B, One<B>, C, D, E, N, R, O3>(); }
    { typedef boost::make_recursive_variant_over<boost::mpl::list<One<rv_*>, Two<rv_, int>, A, rv_* const> >::type V; exactly<V, One<V*>, Two<V, int>, A, V* const>(); }
    { typedef boost::make_recursive_variant<int, std::vector<rv_> >::type I; typedef boost::make_recursive_variant<A, One<I>, One<rv_> >::type V; exactly<V, A, One<I>, One<V> >(); exactly<I, int, std::vector<I> >(); }
    { typedef boost::make_recursive_variant<A, boost::recursive_wrapper<R>, One<rv_> >::type V; exactly<V, A, R, One<V> >(); }
    { typedef boost::make_variant_over<boost::mpl::list<char, boost::recursive_wrapper<A>, long> >::type V; exactly<V, char, A, long>(); }
    { typedef boost::variant<int, boost::recursive_wrapper<A>, B> V; exactly<V, int, A, B>(); }
    { typedef boost::variant<A> V; exactly<V, A>(); }
    { typedef boost::make_recursive_variant<int, rv_>::type V; exactly<V, int, V>(); }
    { typedef boost::make_recursive_variant<One<rv_>, int>::type V; exactly<V, One<V>, int>(); }
    { typedef boost::make_recursive_variant<int, rv_&>::type V; exactly<V, int, V&>(); }
    { typedef boost::make_recursive_variant<int, One<boost::variant<char, One<rv_> > >, One<boost::variant<int, char> > >::type V; exactly<V, int, One<boost::variant<char, One<V> > >, One<boost::variant<int, char> > >(); }
    { typedef boost::make_variant_over<boost::mpl::vector<char, rv_*> >::type I; typedef boost::make_recursive_variant<int, One<I> >::type V; typedef boost::mpl::at_c<V::types, 1>::type X; exactly<inner<X>::type, char, V*>(); }
    { typedef boost::make_variant_over<boost::mpl::vector<char, long> >::type I; typedef boost::make_recursive_variant<int, One<I>, One<rv_> >::type V; exactly<V, int, One<I>, One<V> >(); }
    { typedef boost::make_recursive_variant<char, One<rv_> >::type I; typedef boost::make_recursive_variant<int, One<I> >::type V; exactly<V, int, One<I> >(); }
    { typedef boost::make_recursive_variant<One<char>, One<signed char>, One<unsigned char>, One<short>, One<unsigned short>, One<int>, One<unsigned>, One<long>, One<unsigned long>, Two<int, int>, Two<int, char>, Two<char, int>, Two<char, char>, A, B, C, D, E, One<rv_>, rv_*>::type V;
      exactly<V, One<char>, One<signed char>, One<unsigned char>, One<short>, One<unsigned short>, One<int>, One<unsigned>, One<long>, One<unsigned long>, Two<int, int>, Two<int, char>, Two<char, int>, Two<char, char>, A, B, C, D, E, One<V>, V*>(); }
    { typedef boost::make_recursive_variant_over<boost::mpl::vector22<One<char>, One<signed char>, One<unsigned char>, One<short>, One<unsigned short>, One<int>, One<unsigned>, One<long>, One<unsigned long>, Two<int, int>, Two<int, char>, Two<char, int>, Two<char, char>, A, B, C, D, E, One<rv_>, rv_*, N, Two<rv_, rv_> > >::type V;
      exactly<V, One<char>, One<signed char>, One<unsigned char>, One<short>, One<unsigned short>, One<int>, One<unsigned>, One<long>, One<unsigned long>, Two<int, int>, Two<int, char>, Two<char, int>, Two<char, char>, A, B, C, D, E, One<V>, V*, N, Two<V, V> >(); }
    vp_cover("post: types");
}
// ---- comparison of recursive content
template <class Cfg> struct eq_f { const typename Cfg::V* a; const typename Cfg::V* b; bool e, l; template <class T, int I> void run() { const T* p = boost::get<T>(a); const T* q = boost::get<T>(b); e = *p == *q; l = *p < *q; } };
template <class Cfg> void contract_cmp() {
    typedef typename Cfg::V V; Box<V> a, b; View a0 = any<Cfg>(a.p, "left", 2), b0 = any<Cfg>(b.p, "right", 2); const V& x = *a; const V& y = *b; vp_frame_begin("comparison"); bool e = x == y, l = x < y, ne = x != y, g_ = x > y, le = x <= y, ge = x >= y; vp_frame_end();
    bool ee = false, el = a0.which < b0.which; if (a0.which == b0.which) { eq_f<Cfg> f = { a.p, b.p, false, false }; dispatch<typename Cfg::L>::go(a0.which, f); ee = f.e; el = f.l; VP_CHECK(e == ee && l == el, "cmp content decides when the types agree"); } else VP_CHECK(e == false && l == el, "cmp the position decides when the types differ");
    VP_CHECK(ne == !e && ge == !l && le == !g_, "cmp.neg the other operators are the negations"); bool m = y < x; VP_CHECK(g_ == m, "cmp.mirror > mirrors <"); View a1 = inv<Cfg>(a.p), b1 = inv<Cfg>(b.p); VP_CHECK(same(a0, a1) && same(b0, b1), "cmp.unchanged comparison changes nothing"); vp_cover("post: compared"); a.destroy(); b.destroy();
}
// ---- visitation: wrappers are invisible
template <class Cfg> void contract_visit() {
    typedef typename Cfg::V V; Box<V> x; View w0 = any<Cfg>(x.p, "variant"); int how = vp_choice(3, "lvalue / const lvalue / rvalue"); log_reset(); RecL r; long got; if (how == 0) got = boost::apply_visitor(r, *x); else if (how == 1) got = boost::apply_visitor(r, const_cast<const V&>(*x)); else got = boost::apply_visitor(r, std::move(*x));
    VP_CHECK(lg.calls == 1 && lg.nargs == 1, "visit.once the visitor is invoked exactly once"); VP_CHECK(got == lg.ret, "visit.result the result is returned"); arg_is(0, w0, how == 0 ? LV : how == 1 ? CLV : RV); View w1 = inv<Cfg>(x.p); VP_CHECK(same(w0, w1), "visit.unchanged visitation changes nothing"); vp_cover("post: visited"); x.destroy();
}
// ---- deep ownership: two levels of recursion
inline void deep() {
    typedef MRV V; typedef Node<V> N_; Box<V> x, y; long q = vp_sym("leaf"), q2 = vp_sym("other"); { N_ in(new V(A(vp::val(q)))); N_ out(new V(in)); new (x.p) V(out); } VP_CHECK(vp_live_total() == 1, "deep.one one leaf is owned");
    { int how = vp_choice(2, "copy / copy-assign"); if (how == 0) new (y.p) V(const_cast<const V&>(*x)); else { new (y.p) V(B(vp::val(1))); *y = const_cast<const V&>(*x); } } VP_CHECK(vp_live_total() == 2, "deep.copy the copy owns its own leaf"); N_& yo = boost::get<N_>(*y); N_& yi = boost::get<N_>(*yo.l); N_& xo = boost::get<N_>(*x); N_& xi = boost::get<N_>(*xo.l); VP_CHECK(&yo != &xo && yo.l != xo.l && yi.l != xi.l, "deep.copy nothing is shared"); VP_CHECK(kind<A>::val(boost::get<A>(*yi.l)) == q, "deep.value the leaf is copied"); *yi.l = A(vp::val(q2)); VP_CHECK(kind<A>::val(boost::get<A>(*xi.l)) == q, "deep.independent changing the copy leaves the original alone");
    bool e = *x == *y; A a1((vp::val(q))), a2((vp::val(q2))); bool ee = a1 == a2; VP_CHECK(e == ee, "deep.equal equality is deep"); int side = vp_choice(2, "order"); if (side) { x.destroy(); VP_CHECK(kind<A>::val(boost::get<A>(*yi.l)) == q2, "deep.destroy destruction leaves the other alone"); y.destroy(); } else { y.destroy(); VP_CHECK(kind<A>::val(boost::get<A>(*xi.l)) == q, "deep.destroy destruction leaves the other alone"); x.destroy(); } VP_CHECK(vp_live_total() == 2, "deep.destroy destruction is deep"); vp_cover("post: deep");
}
struct op_deepcopy { void* p; const MRV* s; void operator()() { new (p) MRV(*s); } };
inline void deep_fail() { typedef MRV V; typedef Node<V> N_; Box<V> x, y; long q = vp_sym("leaf"); { N_ in(new V(A(vp::val(q)))); N_ out(new V(in)); new (x.p) V(std::move(out)); } int h0 = vp_heap_total(); op_deepcopy f = { y.p, x.p }; vp_frame_begin("deep copy"); vp_frame_allow(y.p); Outcome o = attempt(f); vp_frame_end(); exc_clause(o); if (o.k == OK) { vp_cover("post: deep copied"); y.destroy(); } else vp_cover("post: deep copy failed"); VP_CHECK(vp_live_total() == 1 && vp_heap_total() == h0, "deep.fail a failed deep copy leaks nothing"); x.destroy(); }
}
#define ALL(CFG) VP_ENTRY(copy_ctor, CFG) VP_ENTRY(move_ctor, CFG) VP_ENTRY(value_ctor, CFG) VP_ENTRY(dtor, CFG) VP_ENTRY(copy_assign, CFG) VP_ENTRY(move_assign, CFG) VP_ENTRY(self_assign, CFG) VP_ENTRY(value_assign, CFG) VP_ENTRY(swap, CFG) VP_ENTRY(self_swap, CFG) VP_ENTRY(default_ctor, CFG) VP_ENTRY(cmp, CFG) VP_ENTRY(visit, CFG)
#define IND1(NAME, CFG) extern "C" void vc_induction_##NAME##__##CFG() { if (vp::induction<vp::CFG>()) return; vp::contract_##NAME<vp::CFG>(); }
#define INDALL(CFG) IND1(copy_ctor, CFG) IND1(move_ctor, CFG) IND1(value_ctor, CFG) IND1(dtor, CFG) IND1(copy_assign, CFG) IND1(move_assign, CFG) IND1(self_assign, CFG) IND1(value_assign, CFG) IND1(swap, CFG) IND1(self_swap, CFG) IND1(cmp, CFG) IND1(visit, CFG)
#if !defined(VP_PART) || VP_PART == 2
INDALL(CfgMRI) INDALL(CfgMRIF) ALL(CfgMRL)
#endif
#if !defined(VP_PART) || VP_PART == 0
ALL(CfgMR) ALL(CfgMRF) ALL(CfgMRO)
extern "C" void vc_types() { vp::types(); }
extern "C" void vc_deep() { vp::deep(); }
extern "C" void vc_deep_fail() { vp::deep_fail(); }
#endif
#if !defined(VP_PART) || VP_PART == 1
ALL(CfgMRVec) ALL(CfgMO) ALL(CfgML) ALL(CfgMOR)
#endif
