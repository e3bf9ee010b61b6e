// C12: hashing.
#include "ops.hpp"
#include <boost/functional/hash.hpp>
#include <functional>
namespace vp {
template <class T> struct hs { static std::size_t h(long a) { return boost::hash<T>()((T)a); } };
template <int ID, unsigned F, unsigned P, unsigned Al> struct hs<Obj<ID, F, P, Al> > { static std::size_t h(long a) { return (std::size_t)vp_uf(3000 + ID, a, 0); } };
struct h_f { long a; std::size_t r; template <class T, int> void run() { r = hs<T>::h(a); } };
template <class L> std::size_t hc(int i, long a) { h_f f = { a, 0 }; dispatch<L>::go(i, f); return f.r; }
template <class V> struct op_hash { const V* v; int how; std::size_t r; void operator()() { if (how == 0) { r = hash_value(*v); } else if (how == 1) { boost::hash<V> h; r = h(*v); } else { std::hash<V> h; r = h(*v); } } };
template <class Cfg> std::size_t hash_of(const typename Cfg::V* v, int how) {
    op_hash<typename Cfg::V> f = { v, how, 0 }; vp_frame_begin("hashing"); vp_frame_allow(&f); Outcome o = attempt(f); vp_frame_end(); VP_CHECK(o.k == OK, "hash.exc hashing throws nothing of its own"); VP_CHECK(g.copies == 0 && g.moves == 0 && g.allocs == 0, "hash.pure hashing neither copies nor moves"); return f.r; }
// two variants of any state: same position and same content hash imply same hash, however asked for
template <class Cfg> void contract_hash() {
    typedef typename Cfg::V V; typedef typename Cfg::L L; Box<V> a, b; long x = vp_sym("value"); View a0 = any<Cfg>(a.p, "left", 3, &x); int i = a0.which; View b0 = any<Cfg>(b.p, "right", 3, &x);
    if (b0.which == i) {
        if (a0.ghost) { g.hfix = true; g.hval = vp_sym("content hash"); } else vp_assume(a0.v == b0.v);
        int h1 = vp_choice(3, "hash_value / boost::hash / std::hash"), h2 = vp_choice(3, "hash_value / boost::hash / std::hash");
        std::size_t x1 = hash_of<Cfg>(a.p, h1), y1 = hash_of<Cfg>(b.p, h2); VP_CHECK(x1 == y1, "hash.function the hash is a function of type position and content hash"); vp_cover("post: hashed"); g.hfix = false; }
    View a1 = inv<Cfg>(a.p), b1 = inv<Cfg>(b.p); one_each<Cfg>(0, &a1, &b1); VP_CHECK(same(a0, a1) && same(b0, b1), "hash.unchanged hashing changes nothing");
    a.destroy(); b.destroy();
}
// the content's hash matters, at every position and in every state
template <class Cfg> struct content_f { template <class T, int I> void run() {
    typedef typename Cfg::V V; typedef typename Cfg::L L; std::size_t h[4]; 
    for (int k = 0; k < 4; ++k) { static const long cv[4] = { 3, 2, 3 + (1L << 40), 3 + (1L << 62) }; V v(kind<T>::mk(k + 1)); if (kind<T>::ghost) vp_assume(hc<L>(I, k + 1) == (std::size_t)cv[k]); h[k] = hash_of<Cfg>(&v, vp_choice(3, "hash_value / boost::hash / std::hash")); }
    VP_CHECK(h[0] != h[1] && h[0] != h[2] && h[0] != h[3] && h[1] != h[2] && h[1] != h[3] && h[2] != h[3], "hash.content the hash depends on the content's hash"); vp_cover("post: content"); } };
template <class Cfg> void contract_hash_content() { int i = vp_choice((int)Cfg::L::size, "type"); content_f<Cfg> f; dispatch<typename Cfg::L>::go(i, f); }
// the position matters: same content hash, different positions
template <class Cfg> struct pos_f { std::size_t* h; template <class T, int I> void run() { typename Cfg::V v(kind<T>::mk(9)); if (kind<T>::ghost) vp_assume(hc<typename Cfg::L>(I, 9) == (std::size_t)9); h[I] = hash_of<Cfg>(&v, 0); } };
template <class Cfg> void contract_hash_position() { std::size_t h[8]; pos_f<Cfg> f = { h }; for (int i = 0; i < (int)Cfg::L::size; ++i) dispatch<typename Cfg::L>::go(i, f); bool some = false; for (int i = 1; i < (int)Cfg::L::size; ++i) for (int j = 0; j < i; ++j) some = some || h[i] == h[j]; VP_CHECK(!some, "hash.position the hash depends on the type position"); vp_cover("post: position"); }
// boost::hash and std::hash, against the contract of hash_value (its body is not entered)
static int hash_used; // a body that computes the hash without hash_value is judged by vc_hash alone
template <class Cfg> std::size_t hash_contract(const typename Cfg::V* v) { ++hash_used; View w = raw_view(*v); return (std::size_t)vp_uf(3500, w.which, (long)hc<typename Cfg::L>(w.which, w.v)); }
template <class Cfg> void contract_hash_derived() {
    typedef typename Cfg::V V; Box<V> a; int k = vp_choice(2, "contract of hash_value / caller"); if (k < 1) { new (a.p) V(); vp_learn((const void*)&hash_contract<Cfg>); hash_value(*a); a.destroy(); return; }
    View a0 = any<Cfg>(a.p, "variant"); int how = 1 + vp_choice(2, "boost::hash / std::hash"); hash_used = 0; vp_contracts(1); std::size_t x = hash_of<Cfg>(a.p, how); vp_contracts(0); bool modular = !vp_symbolic() || hash_used == 1; std::size_t y = vp_symbolic() ? hash_contract<Cfg>(a.p) : hash_of<Cfg>(a.p, 0); if (modular) VP_CHECK(x == y, "hash.agree boost::hash and std::hash are hash_value"); vp_cover("post: derived"); (void)a0; a.destroy();
}
struct CfgH { typedef TL<int, long, unsigned, unsigned short> L; typedef boost::variant<int, long, unsigned, unsigned short> V; static bool rec_at(int) { return false; } enum { fallback = 0, in_place = 1 }; static const char* name() { return "CfgH"; } static void fail_into(V*, int) { vp_assume(false); } };
}
#define ENT(CFG) VP_ENTRY(hash, CFG) VP_ENTRY(hash_content, CFG) VP_ENTRY(hash_position, CFG)
ENT(CfgBackup) ENT(CfgFallback) ENT(CfgPod) ENT(CfgRec) ENT(CfgAlign) ENT(CfgSeq) ENT(CfgH) VP_ENTRY(hash, CfgTriv)
VP_ENTRY(hash_derived, CfgBackup) VP_ENTRY(hash_derived, CfgFallback) VP_ENTRY(hash_derived, CfgRec)
