// Class hierarchies as content.
#ifndef VP_INH_HPP
#define VP_INH_HPP
#include "ops.hpp"
namespace vp {
typedef Obj<20, ALLT> Base;
struct Sec { long s; Sec() : s(11) {} };
struct Der : Base { Der() {} explicit Der(vp::val q) : Base(q) {} };                       // single inheritance
struct Mul : Sec, Base { long t; Mul() : t(5) {} explicit Mul(vp::val q) : Base(q), t(5) {} };  // Base at an offset
struct DD : Der { long u; DD() : u(6) {} explicit DD(vp::val q) : Der(q), u(6) {} };         // two levels
struct Unrel { long v; explicit Unrel(vp::val q) : v(q.x) {} Unrel() : v(0) {} };            // unrelated
template <class T, int TID> struct der_kind { enum { tid = TID, ghost = 1, copy_nx = 0, move_nx = 0, def_nx = 0, cassign_nx = 0, massign_nx = 0 };
    static T mk(long x) { return T(vp::val(x)); } static long canon(long x) { return x; } static long val(const T& t) { return kind<Base>::val(t); } static long def() { return kind<Base>::def(); } static void put(T& t, long x) { kind<Base>::put(t, x); } };
template <> struct kind<Der> : der_kind<Der, 61> {};
template <> struct kind<Mul> : der_kind<Mul, 62> {};
template <> struct kind<DD> : der_kind<DD, 63> {};
template <> struct kind<Unrel> { enum { tid = 64, ghost = 0, copy_nx = 1, move_nx = 1, def_nx = 1, cassign_nx = 1, massign_nx = 1 }; static Unrel mk(long x) { return Unrel(vp::val(x)); } static long canon(long x) { return x; } static long val(const Unrel& u) { return u.v; } static long def() { return 0; } static void put(Unrel& u, long x) { u.v = x; } };
template <> struct kind<Sec> { enum { tid = 65, ghost = 0, copy_nx = 1, move_nx = 1, def_nx = 1, cassign_nx = 1, massign_nx = 1 }; static Sec mk(long x) { Sec s; s.s = x; return s; } static long canon(long x) { return x; } static long val(const Sec& u) { return u.s; } static long def() { return 11; } static void put(Sec& u, long x) { u.s = x; } };
template <class L, class V> struct InhBase { };
// bring into a failed state by assigning a Base/Der whose copy throws
#define VP_INH_BODY(NAME, B0, B1) static const char* name() { return #NAME; } static void fail_into(V* p, int i) { typedef B0 X0_; typedef B1 X1_; \
    if (i != (int)index_of<X0_, L>::value) { V bomb(kind<X0_>::mk(1)); g.force = 20; provoke(p, bomb); g.force = -1; } else { V bomb(kind<X1_>::mk(1)); g.force = 20; provoke(p, bomb); g.force = -1; } }
// no nothrow default constructor: the backup strategy applies
struct Und { long v; explicit Und(vp::val q) : v(q.x) {} };
template <> struct kind<Und> { enum { tid = 66, ghost = 0, copy_nx = 1, move_nx = 1, def_nx = 0, cassign_nx = 1, massign_nx = 1 }; static Und mk(long x) { return Und(vp::val(x)); } static long canon(long x) { return x; } static long val(const Und& u) { return u.v; } static long def() { return 0; } static void put(Und& u, long x) { u.v = x; } };
struct CfgInh { typedef TL<Base, Der, Und, Mul, DD> L; typedef boost::variant<Base, Der, Und, Mul, DD> V; static bool rec_at(int) { return false; } enum { fallback = -1, in_place = 0 }; VP_INH_BODY(CfgInh, Base, Der) };
// virtual functions and virtual inheritance
struct Poly { long z; Poly() : z(0) {} explicit Poly(vp::val q) : z(q.x) {} Poly(const Poly& o) : z(o.z) {} Poly& operator=(const Poly& o) { z = o.z; return *this; } virtual long id() const { return 1; } virtual ~Poly() {} };
struct Vir : Sec, virtual Poly { long y; Vir() : y(2) {} explicit Vir(vp::val q) : Poly(q), y(2) {} long id() const { return 2; } };
struct Vir2 : Vir { Base b; Vir2() {} explicit Vir2(vp::val q) : Poly(q), Vir(q), b(q) {} long id() const { return 3; } };
template <class T, int TID, int GH> struct poly_kind { enum { tid = TID, ghost = GH, copy_nx = 0, move_nx = 0, def_nx = 0, cassign_nx = 0, massign_nx = 0 };
    static T mk(long x) { return T(vp::val(x)); } static long canon(long x) { return x; } static long val(const T& t) { VP_CHECK(t.id() == TID - 76, "content.intact the dynamic type of the content is its type"); return t.z; } static long def() { return 0; } static void put(T& t, long x) { t.z = x; } };
template <> struct kind<Poly> : poly_kind<Poly, 77, 0> {};
template <> struct kind<Vir> : poly_kind<Vir, 78, 0> {};
template <> struct kind<Vir2> : poly_kind<Vir2, 79, 1> {};
struct CfgVir { typedef TL<Vir, Poly, Vir2, Base> L; typedef boost::variant<Vir, Poly, Vir2, Base> V; static bool rec_at(int) { return false; } enum { fallback = -1, in_place = 0 }; VP_INH_BODY(CfgVir, Base, Vir2) };
struct CfgInhRec { typedef TL<Der, Mul, Unrel, Base> L; typedef boost::variant<boost::recursive_wrapper<Der>, Mul, Unrel, boost::recursive_wrapper<Base> > V; static bool rec_at(int i) { return i == 0 || i == 3; } enum { fallback = 2, in_place = 1 }; VP_INH_BODY(CfgInhRec, Mul, Base) };
}
#endif
