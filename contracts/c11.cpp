// C11: comparison.
#include "ops.hpp"
namespace vp {
template <class T> struct cmp { static bool eq(long a, long b) { return a == b; } static bool lt(long a, long b) { return a < b; } };
template <int ID, unsigned F, unsigned P, unsigned Al> struct cmp<Obj<ID, F, P, Al> > { static bool eq(long a, long b) { return (vp_uf(1000 + ID, a, b) & 1) != 0; } static bool lt(long a, long b) { return (vp_uf(2000 + ID, a, b) & 1) != 0; } };
template <class T> struct fcmp { static bool eq(long a, long b) { return kind<T>::mk(a) == kind<T>::mk(b); } static bool lt(long a, long b) { return kind<T>::mk(a) < kind<T>::mk(b); } };
template <> struct cmp<double> : fcmp<double> {}; template <> struct cmp<float> : fcmp<float> {}; template <> struct cmp<Padded> : fcmp<Padded> {}; template <> struct cmp<Empty> : fcmp<Empty> {}; template <> struct cmp<int*> : fcmp<int*> {};
template <> struct cmp<boost::blank> { static bool eq(long, long) { return true; } static bool lt(long, long) { return false; } };
struct eq_f { long a, b; bool r; template <class T, int> void run() { r = cmp<T>::eq(a, b); } };
struct lt_f { long a, b; bool r; template <class T, int> void run() { r = cmp<T>::lt(a, b); } };
template <class L> bool eqc(int i, long a, long b) { eq_f f = { a, b, false }; dispatch<L>::go(i, f); return f.r; }
template <class L> bool ltc(int i, long a, long b) { lt_f f = { a, b, false }; dispatch<L>::go(i, f); return f.r; }
// content equality is symmetric (the library may compare either way round); nothing is assumed about <
template <class L> bool spec_eq(const View& a, const View& b) { if (a.which != b.which) return false; bool e = eqc<L>(a.which, a.v, b.v); vp_assume(e == eqc<L>(a.which, b.v, a.v)); return e; }
template <class L> bool spec_lt(const View& a, const View& b) { if (a.which != b.which) return a.which < b.which; return ltc<L>(a.which, a.v, b.v); }
template <class V> struct op_cmp { const V* a; const V* b; int op; bool r; void operator()() { switch (op) { case 0: r = *a == *b; break; case 1: r = *a != *b; break; case 2: r = *a < *b; break; case 3: r = *a > *b; break; case 4: r = *a <= *b; break; default: r = *a >= *b; } } };
template <class Cfg> void judge(const typename Cfg::V* a, const typename Cfg::V* b, const View& a0, const View& b0, int op) {
    typedef typename Cfg::L L; op_cmp<typename Cfg::V> f = { a, b, op, false }; vp_frame_begin("comparison"); vp_frame_allow(&f); Outcome o = attempt(f); vp_frame_end();
    VP_CHECK(o.k == OK, "cmp.exc comparison throws nothing of its own");
    switch (op) {
    case 0: VP_CHECK(f.r == spec_eq<L>(a0, b0), "cmp.eq equal iff same type and equal contents"); break;
    case 1: VP_CHECK(f.r == !spec_eq<L>(a0, b0), "cmp.ne != is the negation of =="); break;
    case 2: VP_CHECK(f.r == spec_lt<L>(a0, b0), "cmp.lt < orders by type position, then by content"); break;
    case 3: VP_CHECK(f.r == spec_lt<L>(b0, a0), "cmp.gt > is the mirror image of <"); break;
    case 4: VP_CHECK(f.r == !spec_lt<L>(b0, a0), "cmp.le <= is the negation of >"); break;
    default: VP_CHECK(f.r == !spec_lt<L>(a0, b0), "cmp.ge >= is the negation of <"); }
    VP_CHECK(g.copies == 0 && g.moves == 0 && g.allocs == 0, "cmp.pure comparison neither copies nor moves");
}
template <class Cfg> void contract_compare() {
    typedef typename Cfg::V V; Box<V> a, b; View a0 = any<Cfg>(a.p, "left"), b0 = any<Cfg>(b.p, "right"); judge<Cfg>(a.p, b.p, a0, b0, vp_choice(6, "== != < > <= >="));
    View a1 = inv<Cfg>(a.p), b1 = inv<Cfg>(b.p); one_each<Cfg>(0, &a1, &b1); VP_CHECK(same(a0, a1) && same(b0, b1), "cmp.unchanged comparison changes nothing"); vp_cover(a0.which == b0.which ? "post: same type" : "post: different types");
    a.destroy(); b.destroy();
}
template <class Cfg> void contract_compare_self() {
    typedef typename Cfg::V V; Box<V> a; View a0 = any<Cfg>(a.p, "variant"); judge<Cfg>(a.p, a.p, a0, a0, vp_choice(6, "== != < > <= >=")); vp_cover("post: self"); a.destroy();
}
// the derived operators, against the contracts of == and < (their bodies are not entered)
template <class Cfg> bool eq_contract(const typename Cfg::V* a, const typename Cfg::V* b) { View x = raw_view(*a), y = raw_view(*b); return spec_eq<typename Cfg::L>(x, y); }
template <class Cfg> bool lt_contract(const typename Cfg::V* a, const typename Cfg::V* b) { View x = raw_view(*a), y = raw_view(*b); return spec_lt<typename Cfg::L>(x, y); }
template <class Cfg> void contract_derived() {
    typedef typename Cfg::V V; Box<V> a, b; int k = vp_choice(3, "contract of == / contract of < / caller"); if (k < 2) { new (a.p) V(); const V& x = *a; vp_learn(k == 0 ? (const void*)&eq_contract<Cfg> : (const void*)&lt_contract<Cfg>); k == 0 ? x == x : x < x; a.destroy(); return; }
    View a0 = any<Cfg>(a.p, "left", 2), b0 = any<Cfg>(b.p, "right", 2); static const int ops[4] = { 1, 3, 4, 5 }; vp_contracts(1); judge<Cfg>(a.p, b.p, a0, b0, ops[vp_choice(4, "!= > <= >=")]); vp_contracts(0); vp_cover("post: derived"); a.destroy(); b.destroy();
}
// lemma over the contract: an equivalence / a strict weak ordering whenever the contents' operators are
template <class Cfg> void contract_order() {
    typedef typename Cfg::V V; typedef typename Cfg::L L; Box<V> x, y, z; View a = any<Cfg>(x.p, "a", 2), b = any<Cfg>(y.p, "b", 2), c = any<Cfg>(z.p, "c", 2);
    const V &va = *x, &vb = *y, &vc = *z;
    if (vp_choice(2, "== / <") == 0) {
        if (a.which == b.which) vp_assume(eqc<L>(a.which, a.v, b.v) == eqc<L>(a.which, b.v, a.v));
        vp_assume(eqc<L>(a.which, a.v, a.v));
        if (a.which == b.which && b.which == c.which) vp_assume(!(eqc<L>(a.which, a.v, b.v) && eqc<L>(a.which, b.v, c.v)) || eqc<L>(a.which, a.v, c.v));
        VP_CHECK(va == va, "cmp.lemma.reflexive == is reflexive"); VP_CHECK((va == vb) == (vb == va), "cmp.lemma.symmetric == is symmetric");
        if (va == vb && vb == vc) { vp_cover("lemma: a==b==c"); VP_CHECK(va == vc, "cmp.lemma.transitive == is transitive"); }
    } else {
        vp_assume(!ltc<L>(a.which, a.v, a.v));
        if (a.which == b.which) vp_assume(!(ltc<L>(a.which, a.v, b.v) && ltc<L>(a.which, b.v, a.v)));
        if (a.which == b.which && b.which == c.which) { vp_assume(!(ltc<L>(a.which, a.v, b.v) && ltc<L>(a.which, b.v, c.v)) || ltc<L>(a.which, a.v, c.v));
            bool ab = !ltc<L>(a.which, a.v, b.v) && !ltc<L>(a.which, b.v, a.v), bc = !ltc<L>(a.which, b.v, c.v) && !ltc<L>(a.which, c.v, b.v), ac = !ltc<L>(a.which, a.v, c.v) && !ltc<L>(a.which, c.v, a.v); vp_assume(!(ab && bc) || ac); }
        VP_CHECK(!(va < va), "cmp.lemma.irreflexive < is irreflexive"); VP_CHECK(!(va < vb && vb < va), "cmp.lemma.asymmetric < is asymmetric");
        if (va < vb && vb < vc) { vp_cover("lemma: a<b<c"); VP_CHECK(va < vc, "cmp.lemma.lt < is transitive"); }
        if (!(va < vb) && !(vb < va) && !(vb < vc) && !(vc < vb)) { vp_cover("lemma: a~b~c"); VP_CHECK(!(va < vc) && !(vc < va), "cmp.lemma.incomparable incomparability is transitive"); }
        VP_CHECK((va > vb) == (vb < va) && (va <= vb) == !(vb < va) && (va >= vb) == !(va < vb), "cmp.lemma.derived the other operators derive from <");
    }
    x.destroy(); y.destroy(); z.destroy();
}
}
#define ENT(CFG) VP_ENTRY(compare, CFG) VP_ENTRY(compare_self, CFG)
#ifdef VP_ORDER
VP_ENTRY(order, CfgTwo) VP_ENTRY(order, CfgRec) 
#else
ENT(CfgBackup) ENT(CfgFallback) ENT(CfgBlank0) ENT(CfgPod) ENT(CfgRec) ENT(CfgAlign) ENT(CfgSeq) ENT(CfgTriv) ENT(CfgFloat)
VP_ENTRY(order, CfgTwo)
VP_ENTRY(derived, CfgBackup) VP_ENTRY(derived, CfgFallback) VP_ENTRY(derived, CfgRec) VP_ENTRY(derived, CfgSeq) VP_ENTRY(derived, CfgTriv) VP_ENTRY(derived, CfgFloat)
#endif
