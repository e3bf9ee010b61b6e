// The configurations (sets of bounded types) over which the contracts are discharged.
#ifndef VP_CFG_HPP
#define VP_CFG_HPP
#include "vp.hpp"
#include <boost/mpl/vector.hpp>
#include <boost/mpl/vector/vector30.hpp>
#include <boost/variant/recursive_variant.hpp>
namespace vp {
typedef Obj<0, ALLT> A;                    // everything may throw
typedef Obj<1, ALLT, 24> B;                // everything may throw, bigger
typedef Obj<2, CT | DT | CAT> C;           // moves never throw
typedef Obj<3, DT> D;                      // copies and moves never throw
typedef Obj<4, MT | MAT | DT> E;           // copies never throw, moves may
typedef Obj<5, CT | MT | CAT | MAT> N;     // only the default constructor never throws
typedef Obj<6, CT | CAT, 8> R;             // wrapped recursively
typedef Obj<7, ALLT, 3> O3;                // odd size
#if defined(__cpp_aligned_new)
typedef Obj<8, ALLT, 40, 64> W;            // over-aligned
#else
typedef Obj<8, ALLT, 40, 16> W;            // before C++17 operator new does not serve larger alignments
#endif
typedef Obj<9, CT | MT | CAT | MAT, 8> N2; // another fallback candidate

template <class L> struct has_blank;
template <> struct has_blank<TL<> > { enum { value = 0 }; };
template <class H, class... T> struct has_blank<TL<H, T...> > { enum { value = has_blank<TL<T...> >::value }; };
template <class... T> struct has_blank<TL<boost::blank, T...> > { enum { value = 1 }; };
#define VP_CFG_BODY(NAME, B0, B1) static const char* name() { return #NAME; } \
    static void fail_into(V* p, int i) { fail_assign<V, B0, B1>(p, i, index_of<B0, L>::value); }

// no fallback type: strong recovery by backup
struct CfgBackup { typedef TL<A, B, C, D, E> L; typedef boost::variant<A, B, C, D, E> V; static bool rec_at(int) { return false; } enum { fallback = -1, in_place = 0 }; VP_CFG_BODY(CfgBackup, A, B) };
// two throwing types only (small)
typedef Obj<44, ALLT | SW> W0; typedef Obj<45, ALLT | SW | SWT> W1; typedef Obj<46, ALLT | SW | SWT> W2;
struct CfgSwap { typedef TL<W0, W1, W2> L; typedef boost::variant<W0, W1, boost::recursive_wrapper<W2> > V; static bool rec_at(int i) { return i == 2; } enum { fallback = -1, in_place = 0 }; VP_CFG_BODY(CfgSwap, W0, W1) };
struct CfgTwo { typedef TL<A, B> L; typedef boost::variant<A, B> V; static bool rec_at(int) { return false; } enum { fallback = -1, in_place = 0 }; VP_CFG_BODY(CfgTwo, A, B) };
// a fallback type in the middle; another one after it
struct CfgFallback { typedef TL<A, C, N, B, N2> L; typedef boost::variant<A, C, N, B, N2> V; static bool rec_at(int) { return false; } enum { fallback = 2, in_place = 1 }; VP_CFG_BODY(CfgFallback, A, B) };
// boost::blank, not first
struct CfgBlank { typedef TL<A, N, boost::blank, B> L; typedef boost::variant<A, N, boost::blank, B> V; static bool rec_at(int) { return false; } enum { fallback = 2, in_place = 1 }; VP_CFG_BODY(CfgBlank, A, B) };
// blank first
struct CfgBlank0 { typedef TL<boost::blank, A, int, B> L; typedef boost::variant<boost::blank, A, int, B> V; static bool rec_at(int) { return false; } enum { fallback = 0, in_place = 1 }; VP_CFG_BODY(CfgBlank0, A, B) };
// arithmetic types
struct CfgPod { typedef TL<A, int, B, char, unsigned short> L; typedef boost::variant<A, int, B, char, unsigned short> V; static bool rec_at(int) { return false; } enum { fallback = 1, in_place = 1 }; VP_CFG_BODY(CfgPod, A, B) };
// an arithmetic type first: it is the fallback and what default construction yields
struct CfgInt { typedef TL<long, A, unsigned short> L; typedef boost::variant<long, A, unsigned short> V; static bool rec_at(int) { return false; } enum { fallback = 0, in_place = 1 }; static const char* name() { return "CfgInt"; } static void fail_into(V* p, int i) { vp_assume(i != 1); V bomb(kind<A>::mk(1)); g.force = 0; provoke(p, bomb); g.force = -1; } };
// nothrow content only
typedef Obj<10, 0> X0; typedef Obj<11, 0, 24> X1; typedef Obj<12, DT> X2;
struct CfgNothrow { typedef TL<X0, X1, X2> L; typedef boost::variant<X0, X1, X2> V; static bool rec_at(int) { return false; } enum { fallback = 0, in_place = 1 }; static const char* name() { return "CfgNothrow"; } static void fail_into(V*, int) { vp_assume(false); } };
// recursive_wrapper content
struct CfgRec { typedef TL<A, R, B, C> L; typedef boost::variant<A, boost::recursive_wrapper<R>, B, boost::recursive_wrapper<C> > V; static bool rec_at(int i) { return i == 1 || i == 3; } enum { fallback = -1, in_place = 0 }; VP_CFG_BODY(CfgRec, A, B) };
// over-aligned and odd-sized content
struct CfgAlign { typedef TL<O3, W, char, A> L; typedef boost::variant<O3, W, char, A> V; static bool rec_at(int) { return false; } enum { fallback = 2, in_place = 1 }; VP_CFG_BODY(CfgAlign, A, O3) };
struct CfgAlignBackup { typedef TL<O3, W, A> L; typedef boost::variant<O3, W, A> V; static bool rec_at(int) { return false; } enum { fallback = -1, in_place = 0 }; VP_CFG_BODY(CfgAlignBackup, A, O3) };
// sequence-based
struct CfgSeq { typedef TL<A, C, B, D> L; typedef boost::make_variant_over<boost::mpl::vector<A, C, B, D> >::type V; static bool rec_at(int) { return false; } enum { fallback = -1, in_place = 0 }; VP_CFG_BODY(CfgSeq, A, B) };
// one bounded type only
struct CfgOne { typedef TL<A> L; typedef boost::variant<A> V; static bool rec_at(int) { return false; } enum { fallback = -1, in_place = 0 }; static const char* name() { return "CfgOne"; } static void fail_into(V*, int) { vp_assume(false); } };
// no fallback type, but every copy is nothrow: nothing may ever be allocated.  Moves of E may throw
struct CfgNoAlloc { typedef TL<D, E, X2> L; typedef boost::variant<D, E, X2> V; static bool rec_at(int) { return false; } enum { fallback = -1, in_place = 1 }; static const char* name() { return "CfgNoAlloc"; }
    static void fail_into(V* p, int i) { vp_assume(i != 1); V bomb(kind<E>::mk(1)); g.force = kind<E>::tid; try { if (g.fmode == 2) p->swap(bomb); else *p = std::move(bomb); } VP_CATCH_CONTENT(;) g.force = -1; } };
// single-byte content that may throw: the heap backup pointer is larger and more aligned than the content
typedef Obj<17, ALLT, 255, 1> S0; typedef Obj<18, ALLT, 255, 1> S1;
struct CfgSmall { typedef TL<S0, S1> L; typedef boost::variant<S0, S1> V; static bool rec_at(int) { return false; } enum { fallback = -1, in_place = 0 }; VP_CFG_BODY(CfgSmall, S0, S1) };
// small ones for the two-step histories
struct CfgHBlank { typedef TL<A, boost::blank> L; typedef boost::variant<A, boost::blank> V; static bool rec_at(int) { return false; } enum { fallback = 1, in_place = 1 }; static const char* name() { return "CfgHBlank"; } static void fail_into(V* p, int i) { vp_assume(i == 1); V bomb(kind<A>::mk(1)); g.force = 0; provoke(p, bomb); g.force = -1; } };
struct CfgHRec { typedef TL<A, C> L; typedef boost::variant<A, boost::recursive_wrapper<C> > V; static bool rec_at(int i) { return i == 1; } enum { fallback = -1, in_place = 0 }; VP_CFG_BODY(CfgHRec, A, C) };
// single-byte content; content with assorted alignments, the widest in different positions
struct CfgTiny { typedef TL<char, signed char, boost::blank> L; typedef boost::variant<char, signed char, boost::blank> V; static bool rec_at(int) { return false; } enum { fallback = 2, in_place = 1 }; static const char* name() { return "CfgTiny"; } static void fail_into(V*, int) { vp_assume(false); } };
typedef Obj<15, 0, 1, 16> W16; typedef Obj<16, 0, 100, 32> W32;
struct CfgWide { typedef TL<char, W16, unsigned short, W32, int> L; typedef boost::variant<char, W16, unsigned short, W32, int> V; static bool rec_at(int) { return false; } enum { fallback = 0, in_place = 1 }; static const char* name() { return "CfgWide"; } static void fail_into(V*, int) { vp_assume(false); } };
// floating point (as bit patterns: NaN, infinities and both zeros included), pointers, enumerations, trivially copyable classes with padding, empty classes
template <class T, class I, int TID> struct fp_kind { enum { tid = TID, ghost = 0, copy_nx = 1, move_nx = 1, def_nx = 1, cassign_nx = 1, massign_nx = 1 };
    static T mk(long x) { I i = (I)x; T t; __builtin_memcpy(&t, &i, sizeof t); return t; } static long canon(long x) { return (long)(I)x; } static long val(const T& t) { I i; __builtin_memcpy(&i, &t, sizeof t); return (long)i; } static long def() { return 0; } static void put(T& t, long x) { t = mk(x); } };
template <> struct kind<double> : fp_kind<double, long, 81> {};
template <> struct kind<float> : fp_kind<float, int, 82> {};
static int cell_[2];
template <> struct kind<int*> { enum { tid = 83, ghost = 0, copy_nx = 1, move_nx = 1, def_nx = 1, cassign_nx = 1, massign_nx = 1 };
    static int* mk(long x) { return x & 1 ? &cell_[1] : &cell_[0]; } static long canon(long x) { return x & 1; } static long val(int* const& t) { return t == &cell_[0] ? 0 : t == &cell_[1] ? 1 : t == 0 ? 2 : 3; } static long def() { return 2; } static void put(int*& t, long x) { t = mk(x); } };
enum Enu : unsigned { enu0 };
template <> struct kind<Enu> : pod_kind<Enu, 84> { static Enu mk(long x) { return (Enu)(unsigned)x; } static long canon(long x) { return (long)(unsigned)x; } static long val(const Enu& t) { return (long)(unsigned)t; } static void put(Enu& t, long x) { t = mk(x); } };
struct Padded { char c; long v; short s; };
inline bool operator==(const Padded& a, const Padded& b) { return (vp_uf(1085, a.v, b.v) & 1) != 0; }
inline bool operator<(const Padded& a, const Padded& b) { return (vp_uf(2085, a.v, b.v) & 1) != 0; }
inline std::size_t hash_value(const Padded& a) { if (g.hfix) return (std::size_t)g.hval; return (std::size_t)vp_uf(3085, a.v, 0); }
template <> struct kind<Padded> { enum { tid = 85, ghost = 0, copy_nx = 1, move_nx = 1, def_nx = 1, cassign_nx = 1, massign_nx = 1 };
    static Padded mk(long x) { Padded p; p.c = (char)x; p.v = x; p.s = (short)x; return p; } static long canon(long x) { return x; } static long val(const Padded& t) { VP_CHECK(t.c == (char)t.v && t.s == (short)t.v, "content.intact every byte of the content is intact"); return t.v; } static long def() { return 0; } static void put(Padded& t, long x) { t = mk(x); } };
struct Empty {}; inline bool operator==(const Empty&, const Empty&) { return true; } inline bool operator<(const Empty&, const Empty&) { return false; } inline std::size_t hash_value(const Empty&) { return 7; }
template <> struct kind<Empty> { enum { tid = 86, ghost = 0, copy_nx = 1, move_nx = 1, def_nx = 1, cassign_nx = 1, massign_nx = 1 }; static Empty mk(long) { return Empty(); } static long canon(long) { return 0; } static long val(const Empty&) { return 0; } static long def() { return 0; } static void put(Empty&, long) {} };
#define VP_BOMB_A(NAME, I) static const char* name() { return #NAME; } static void fail_into(V* p, int i) { vp_assume(i != I); V bomb(kind<A>::mk(1)); g.force = 0; provoke(p, bomb); g.force = -1; }
struct CfgTriv { typedef TL<Padded, A, Enu, Empty> L; typedef boost::variant<Padded, A, Enu, Empty> V; static bool rec_at(int) { return false; } enum { fallback = 0, in_place = 1 }; VP_BOMB_A(CfgTriv, 1) };
struct CfgFloat { typedef TL<float, double, A, int*> L; typedef boost::variant<float, double, A, int*> V; static bool rec_at(int) { return false; } enum { fallback = 0, in_place = 1 }; VP_BOMB_A(CfgFloat, 2) };
// content whose unary & and comma mean something else
template <int ID> struct Hostile : Obj<ID, ALLT> { typedef Obj<ID, ALLT> O; Hostile() {} explicit Hostile(val q) : O(q) {}
    template <class U> Hostile(const U&) : O(val(0)) { vp_assert_(false, "content.greedy the content is copied and moved as itself, not converted from something of the library's own"); } template <class U> Hostile& operator=(const U&) { vp_assert_(false, "content.greedy the content is assigned as itself, not from something of the library's own"); return *this; }
    Hostile* operator&() { return 0; } const Hostile* operator&() const { return 0; } template <class T> friend void operator,(const Hostile&, const T&) { vp_assert_(false, "content.comma the content's comma operator is not used"); } };
template <int ID> struct kind<Hostile<ID> > { typedef Obj<ID, ALLT> O; typedef Hostile<ID> T; enum { tid = ID, ghost = 1, copy_nx = 0, move_nx = 0, def_nx = 0, cassign_nx = 0, massign_nx = 0 };
    static T mk(long x) { return T(vp::val(x)); } static long canon(long x) { return kind<O>::canon(x); } static long val(const T& t) { return kind<O>::val(t); } static long def() { return kind<O>::def(); } static void put(T& t, long x) { kind<O>::put(t, x); } };
typedef Hostile<22> H0; typedef Hostile<23> H1;
struct CfgHostile { typedef TL<H0, A, H1> L; typedef boost::variant<H0, A, boost::recursive_wrapper<H1> > V; static bool rec_at(int i) { return i == 2; } enum { fallback = -1, in_place = 0 }; VP_CFG_BODY(CfgHostile, A, H0) };
// move-only
typedef MoveOnly<13, 0> M0; typedef MoveOnly<14, DT> M1;
struct CfgMoveOnly { typedef TL<M0, int, M1> L; typedef boost::variant<M0, int, M1> V; static bool rec_at(int) { return false; } enum { fallback = 0, in_place = 1 }; static const char* name() { return "CfgMoveOnly"; } static void fail_into(V*, int) { vp_assume(false); } };
}
#endif
