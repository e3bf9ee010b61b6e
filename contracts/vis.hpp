// Recording visitors for the visitation contracts.
#ifndef VP_VIS_HPP
#define VP_VIS_HPP
#include "ops.hpp"
#include <type_traits>
namespace vp {
enum { LV = 0, CLV = 1, RV = 2, CRV = 3 };
struct Arg { int tid, cat; const void* addr; long v; };
struct Log { int calls, nargs; Arg a[5]; long ret; const void* self; int self_const; };
static Log lg;
inline void log_reset() { lg.calls = lg.nargs = 0; lg.self = 0; lg.ret = 0; lg.self_const = -1; }
template <class T> struct cat_of { enum { value = std::is_lvalue_reference<T>::value ? (std::is_const<typename std::remove_reference<T>::type>::value ? CLV : LV) : (std::is_const<typename std::remove_reference<T>::type>::value ? CRV : RV) }; };
template <class T> void log_arg(int i, T&& t) {
    typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type U;
    lg.a[i].tid = kind<U>::tid; lg.a[i].cat = cat_of<T&&>::value; lg.a[i].addr = __builtin_addressof(t); lg.a[i].v = kind<U>::val(t); lg.nargs = i + 1;
}
inline void log_args(int) {}
template <class T, class... R> void log_args(int i, T&& t, R&&... r) { log_arg(i, static_cast<T&&>(t)); log_args(i + 1, static_cast<R&&>(r)...); }
inline long log_call(const void* self, int c) {
    lg.calls++; lg.self = self; lg.self_const = c;
    if (g.armed && vp_choice(2, "visitor throws") == 1) raise(900 + lg.a[0].tid);
    return lg.ret = vp_sym("visitor result");
}
static long cells[3];
// visitor with result_type
struct RecL : boost::static_visitor<long> {
    long mine; RecL() : mine(0) {}
    template <class... T> long operator()(T&&... t) { log_args(0, static_cast<T&&>(t)...); return log_call(this, 0); }
    template <class... T> long operator()(T&&... t) const { log_args(0, static_cast<T&&>(t)...); return log_call(this, 1); }
};
// returns a reference
struct RecRef { typedef long& result_type;
    template <class... T> long& operator()(T&&... t) const { log_args(0, static_cast<T&&>(t)...); log_call(this, 1); return cells[1]; } };
struct RecVoid { typedef void result_type;
    template <class... T> void operator()(T&&... t) const { log_args(0, static_cast<T&&>(t)...); log_call(this, 1); } };
// returns a move-only object
struct RecObj { typedef MoveOnly<13, 0> result_type;
    template <class... T> result_type operator()(T&&... t) const { log_args(0, static_cast<T&&>(t)...); return result_type(val(log_call(this, 1))); } };
// no result_type (deduced, C++14)
struct RecD { long mine; RecD() : mine(0) {}
    template <class... T> long operator()(T&&... t) { log_args(0, static_cast<T&&>(t)...); return log_call(this, 0); }
    template <class... T> long operator()(T&&... t) const { log_args(0, static_cast<T&&>(t)...); return log_call(this, 1); } };
struct RecDRef { template <class... T> long& operator()(T&&... t) const { log_args(0, static_cast<T&&>(t)...); log_call(this, 1); return cells[1]; } };
struct RecDVoid { template <class... T> void operator()(T&&... t) const { log_args(0, static_cast<T&&>(t)...); log_call(this, 1); } };
struct RecDObj { template <class... T> MoveOnly<13, 0> operator()(T&&... t) const { log_args(0, static_cast<T&&>(t)...); return MoveOnly<13, 0>(val(log_call(this, 1))); } };

inline void visited(const Outcome& o, long got, int nargs) {
    VP_CHECK(lg.calls == 1, "visit.once the visitor is invoked exactly once");
    VP_CHECK(lg.nargs == nargs, "visit.args the visitor receives one argument per variant");
    VP_CHECK(o.k == OK || o.k == EX, "visit.exc nothing but the visitor's exception is thrown");
    VP_CHECK(o.faithful, "visit.exc.same the visitor's exception propagates unchanged");
    VP_CHECK(o.k != OK || g.throws == 0, "visit.exc.swallowed no exception is swallowed");
    VP_CHECK(o.k != OK || got == lg.ret, "visit.result the visitor's result is returned");
}
inline void arg_is(int i, const View& w, int cat, bool identity = true) {
    VP_CHECK(lg.a[i].tid == w.tid, "visit.type the visitor receives the held type");
    VP_CHECK(lg.a[i].v == w.v, "visit.value the visitor receives the held value");
    VP_CHECK(!identity || lg.a[i].addr == w.addr, "visit.object the visitor receives the content object itself");
    VP_CHECK(lg.a[i].cat == cat, "visit.category constness and value category follow the variant");
}
} // namespace vp
#endif
