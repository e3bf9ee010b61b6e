// C14: where content is stored.
#include "ops.hpp"
#include "big.hpp"
#include <cstring>
namespace vp {
// the bytes of the content and the discriminator never overlap
template <class Cfg> struct place_f { typename Cfg::V* p; View w; bool fresh;
    template <class T, int I> void run() {
        typedef typename Cfg::V V;
        VP_CHECK(alignof(V) >= alignof(T) || Cfg::rec_at(I), "place.align the variant is at least as aligned as its bounded types");
        VP_CHECK(sizeof(V) > sizeof(T) || Cfg::rec_at(I), "place.size the variant is larger than each bounded type");
        VP_CHECK(vp_aligned(w.addr, alignof(T)), "place.aligned content is aligned for its type");
        bool in = vp_inside(w.addr, p, sizeof(V), 1) != 0;
        if (in) { vp_cover("place: in the object"); VP_CHECK(vp_inside(w.addr, p, sizeof(V), sizeof(T)), "place.inside content lies entirely inside the variant"); }
        else vp_cover("place: on the heap");
        VP_CHECK(in || Cfg::rec_at(I) || (!fresh && !Cfg::in_place && !kind<T>::copy_nx), "place.in content is in place");
        unsigned char save[sizeof(T)]; unsigned char* q = static_cast<unsigned char*>(const_cast<void*>(w.addr));
        std::memcpy(save, q, sizeof(T));
        int all = vp_choice(3, "overwrite with zeros / ones / a pattern"); std::memset(q, all == 0 ? 0 : all == 1 ? 0xFF : 0x5A, sizeof(T));
        VP_CHECK(p->which() == w.which, "place.disjoint writing every byte of the content leaves which() alone");
        VP_CHECK(!p->empty(), "place.disjoint writing every byte of the content leaves the variant non-empty");
        std::memcpy(q, save, sizeof(T));
    } };
template <class Cfg> void place(typename Cfg::V* p, bool fresh) { View w = probe<typename Cfg::L>(*p); place_f<Cfg> f = { p, w, fresh }; dispatch<typename Cfg::L>::go(w.which, f); View w1 = probe<typename Cfg::L>(*p); VP_CHECK(same(w, w1) && w.addr == w1.addr, "place.same content is where it was"); }
// an array of variants: neighbours are never touched
template <class Cfg> void contract_place() {
    typedef typename Cfg::V V; Box<V> x; int st; { g.fmode = 0; any<Cfg>(x.p, "variant", NSTATES); } st = 0; (void)st;
    place<Cfg>(x.p, false); x.destroy();
}
template <class Cfg> struct fresh_f { template <class T, int I> void run() { typedef typename Cfg::V V; Box<V> x; long q = vp_sym("value"); make<Cfg>(x.p, I, q); place<Cfg>(x.p, true);
    Box<V> y; new (y.p) V(std::move(*x)); place<Cfg>(y.p, true); place<Cfg>(x.p, true); y.destroy(); x.destroy(); } };
template <class Cfg> void contract_fresh() { int i = vp_choice((int)Cfg::L::size, "type"); fresh_f<Cfg> f; dispatch<typename Cfg::L>::go(i, f); }
// a type-changing assignment that succeeds, from any state, leaves content in place
template <class Cfg> void contract_inplace() {
    typedef typename Cfg::V V; Box<V> t, s; View t0 = any<Cfg>(t.p, "target", 2), s0 = any<Cfg>(s.p, "source", 2); int how = vp_choice(2, "copy / move");
    Outcome o; if (how == 0) { op_cassign<Cfg> f = { t.p, s.p, 0 }; o = attempt(f); } else { op_massign<Cfg> f = { t.p, s.p }; o = attempt(f); }
    if (o.k == OK && t0.which != s0.which) { vp_cover("post: type changed"); place<Cfg>(t.p, true); } else place<Cfg>(t.p, false);
    place<Cfg>(s.p, false); t.destroy(); s.destroy();
}
// neighbours in an array
template <class Cfg> struct Arr { typename Cfg::V* q; };
template <class Cfg> void contract_array() {
    typedef typename Cfg::V V; Box<V[3]> b; V* q = reinterpret_cast<V*>(b.p); View w0 = any<Cfg>(q, "first", 1), w2 = any<Cfg>(q + 2, "third", 1); View w1 = any<Cfg>(q + 1, "middle", 1); (void)w1;
    int j = vp_choice((int)Cfg::L::size, "new type"); Box<V> s; make<Cfg>(s.p, j, vp_sym("new value")); Outcome o; op_massign<Cfg> f = { q + 1, s.p }; o = attempt(f); (void)o;
    VP_CHECK(same(w0, probe<typename Cfg::L>(q[0])) && same(w2, probe<typename Cfg::L>(q[2])), "place.neighbour neighbouring variants are unaffected"); vp_cover("post: middle assigned");
    s.destroy(); q[0].~V(); q[1].~V(); q[2].~V();
}
// sizes: the discriminator and the largest type, nothing hidden on the heap
}
#define PL(CFG) VP_ENTRY(place, CFG) VP_ENTRY(fresh, CFG)
#define OPS(CFG) VP_ENTRY(inplace, CFG) VP_ENTRY(array, CFG) VP_ENTRY(copy_ctor, CFG) VP_ENTRY(move_ctor, CFG) VP_ENTRY(value_ctor, CFG) VP_ENTRY(copy_assign, CFG) VP_ENTRY(move_assign, CFG) VP_ENTRY(value_assign, CFG) VP_ENTRY(swap, CFG)
PL(CfgBackup) PL(CfgFallback) PL(CfgBlank) PL(CfgBlank0) PL(CfgPod) PL(CfgNothrow) PL(CfgRec) PL(CfgAlign) PL(CfgAlignBackup) PL(CfgSeq) PL(CfgOne) PL(CfgNoAlloc) PL(CfgTiny) PL(CfgWide) PL(CfgBig25)
OPS(CfgAlign) OPS(CfgAlignBackup) OPS(CfgNoAlloc) OPS(CfgNothrow) OPS(CfgFallback) OPS(CfgBlank0) OPS(CfgPod) OPS(CfgBackup) OPS(CfgTiny)
