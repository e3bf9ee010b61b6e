// Contract vocabulary: ghost state, nondeterminism, content types known only by their contracts.
//
// The same text is (a) compiled to LLVM IR and verified by engine/lcv over all values, all choices
// and all throw points, and (b) compiled natively with runtime/vp_rt.cpp to replay a counterexample.
#ifndef VP_HPP
#define VP_HPP
#include <cstddef>
#include <new>
#include <utility>
#include <exception>
#include <iosfwd>

extern "C" {
int  vp_choice(int n, const char* what);              // any of 0..n-1
long vp_sym(const char* what);                        // any value
void vp_assume(bool c);                               // precondition
void vp_assert_(bool c, const char* what);            // obligation
void vp_cover(const char* what);                      // reachability witness (vacuity guard)
void vp_born(const void* p, unsigned long size, unsigned long align, int tid);
void vp_die(const void* p, unsigned long size, int tid);
void vp_use(const void* p, int tid);                  // obligation: a live object of that type is at p
int  vp_is_live(const void* p, int tid);
int  vp_live_total(void);                             // number of live content objects anywhere
int  vp_live_in(const void* p, unsigned long size);   // ... located inside [p, p+size)
void* vp_alloc(unsigned long size, unsigned long align);
void vp_free(void* p);
int  vp_heap_total(void);                             // blocks obtained from operator new, not yet released
void* vp_box(unsigned long size, unsigned long align);// exactly-sized storage for an object under contract
void vp_unbox(void* p);
long vp_uf(int f, long a, long b);                    // an arbitrary but fixed function
int  vp_inside(const void* p, const void* base, unsigned long n, unsigned long size);
int  vp_aligned(const void* p, unsigned long align);
void vp_gen(int on);                                  // generating a pre-state (obligations not judged)
void vp_frame_begin(const char* what);                // from here writes must stay inside the frame
void vp_frame_allow(const void* p);
void vp_frame_end(void);
void vp_image(int post, const void* p, unsigned long size, const char* cls);
int  vp_symbolic(void);
void vp_learn(const void* contract);                  // the next library function called is from now on known by this contract
void vp_contracts(int on);                            // calls of such functions are replaced by their contracts
void* vp_opaque(void);                                // an object of which nothing is known
}
#define VP_CHECK(c, what) vp_assert_(static_cast<bool>(c), what)

namespace vp {

struct ex { int site; long payload; };                // what content operations throw
struct Ghost {
    bool armed;          // content operations and allocations may fail
    bool oom;            // allocations may fail
    int  force;          // copy construction of this content type must fail (used to reach a state)
    int  throws, ooms, copies, moves, defaults, allocs;
    long last;
    int  fmode;          // how a failing operation is provoked while generating a state
    bool hfix; long hval; // when set, every content hash equals hval (contents of different values with equal hashes)
};
static Ghost g = { false, true, -1, 0, 0, 0, 0, 0, 0, 0, 0, false, 0 };

extern "C" void vp_reset(void) { g.armed = false; g.oom = true; g.force = -1; g.fmode = 0; g.hfix = false; }
inline void reset() { g.throws = g.ooms = g.copies = g.moves = g.defaults = g.allocs = 0; g.last = 0; }
inline void raise(int site);   // throws an exception of a kind that depends on the site (see below)
inline bool may_fail() { return g.armed && vp_choice(2, "content operation throws") == 1; }

enum { CT = 1, MT = 2, DT = 4, CAT = 8, MAT = 16, ALLT = 31, SW = 32, SWT = 64, NOTHROW = 0 };   // SW: a swap of its own, SWT: which may throw
struct val { long x; explicit val(long q) : x(q) {} };
inline long defv(int id) { return 70000 + id; }

template <unsigned P> struct Body { long v; unsigned char pad[P]; void set(long x) { v = x; pad[P - 1] = (unsigned char)x; } bool ok() const { return pad[P - 1] == (unsigned char)v; } };
template <> struct Body<255> { unsigned char v; void set(long x) { v = (unsigned char)x; } bool ok() const { return true; } };   // one byte in all
template <> struct Body<0> { long v; void set(long x) { v = x; } bool ok() const { return true; } };

// A bounded type known only by its contract: copies are equal, moved-from values are arbitrary,
// operations flagged throwing may throw at any time, assignment that throws leaves any value.
template <int ID, unsigned F, unsigned PAD = 0, unsigned AL = 8>
struct alignas(AL) Obj : Body<PAD> {
    void use() const { vp_use(this, ID); }
    void born() { vp_born(this, sizeof(Obj), alignof(Obj), ID); }
    Obj() noexcept(!(F & DT)) { if ((F & DT) && may_fail()) raise(ID); born(); this->set(defv(ID)); g.defaults++; }
    explicit Obj(val q) noexcept { born(); this->set(q.x); }
    Obj(const Obj& o) noexcept(!(F & CT)) : Body<PAD>() { o.use(); if (F & CT) { if (g.force == ID || may_fail()) raise(ID); } born(); this->set(o.v); g.copies++; }
    Obj(Obj&& o) noexcept(!(F & MT)) : Body<PAD>() { o.use(); if (F & MT) { if (g.force == ID) raise(ID); if (may_fail()) { o.set(vp_sym("torn")); raise(ID); } } born(); this->set(o.v); o.set(vp_sym("moved-from")); g.moves++; }
    Obj& operator=(const Obj& o) noexcept(!(F & CAT)) { use(); o.use(); if ((F & CAT) && may_fail()) { if (this != &o) this->set(vp_sym("torn")); raise(ID); } this->set(o.v); g.copies++; return *this; }
    Obj& operator=(Obj&& o) noexcept(!(F & MAT)) { use(); o.use(); if ((F & MAT) && may_fail()) { this->set(vp_sym("torn")); o.set(vp_sym("torn")); raise(ID); } if (this != &o) { this->set(o.v); o.set(vp_sym("moved-from")); } g.moves++; return *this; }
    ~Obj() { use(); vp_die(this, sizeof(Obj), ID); }
    friend bool operator==(const Obj& a, const Obj& b) { a.use(); b.use(); return (vp_uf(1000 + ID, a.v, b.v) & 1) != 0; }
    friend bool operator<(const Obj& a, const Obj& b) { a.use(); b.use(); return (vp_uf(2000 + ID, a.v, b.v) & 1) != 0; }
    friend std::size_t hash_value(const Obj& a) { a.use(); if (g.hfix) return (std::size_t)g.hval; return (std::size_t)vp_uf(3000 + ID, a.v, 0); }
};
// content with a swap of its own, found by argument-dependent lookup
template <int ID, unsigned F, unsigned P, unsigned AL> typename std::enable_if<(F & SW) != 0>::type swap(Obj<ID, F, P, AL>& a, Obj<ID, F, P, AL>& b) noexcept(!(F & SWT)) { a.use(); b.use(); if ((F & SWT) && may_fail()) { a.set(vp_sym("torn")); b.set(vp_sym("torn")); raise(ID); } long t = a.v; a.set(b.v); b.set(t); }
// move-only content
template <int ID, unsigned F>
struct MoveOnly : Body<0> {
    void use() const { vp_use(this, ID); }
    void born() { vp_born(this, sizeof(MoveOnly), alignof(MoveOnly), ID); }
    MoveOnly() noexcept(!(F & DT)) { if ((F & DT) && may_fail()) raise(ID); born(); this->set(defv(ID)); g.defaults++; }
    explicit MoveOnly(val q) noexcept { born(); this->set(q.x); }
    MoveOnly(MoveOnly&& o) noexcept(!(F & MT)) { o.use(); if ((F & MT) && may_fail()) { o.set(vp_sym("torn")); raise(ID); } born(); this->set(o.v); o.set(vp_sym("moved-from")); g.moves++; }
    MoveOnly& operator=(MoveOnly&& o) noexcept(!(F & MAT)) { use(); o.use(); if ((F & MAT) && may_fail()) { this->set(vp_sym("torn")); raise(ID); } if (this != &o) { this->set(o.v); o.set(vp_sym("moved-from")); } g.moves++; return *this; }
    MoveOnly(const MoveOnly&) = delete; MoveOnly& operator=(const MoveOnly&) = delete;
    ~MoveOnly() { use(); vp_die(this, sizeof(MoveOnly), ID); }
};
} // namespace vp

// memory: allocation may fail while armed
inline void* vp_new(std::size_t n, std::size_t al) { if (vp::g.armed && vp::g.oom && vp_choice(2, "out of memory") == 1) { vp::g.ooms++; throw std::bad_alloc(); } vp::g.allocs++; return vp_alloc(n, al); }
void* operator new(std::size_t n) { return vp_new(n, 16); }
void* operator new[](std::size_t n) { return vp_new(n, 16); }
void operator delete(void* p) noexcept { vp_free(p); }
void operator delete[](void* p) noexcept { vp_free(p); }
void operator delete(void* p, std::size_t) noexcept { vp_free(p); }
void operator delete[](void* p, std::size_t) noexcept { vp_free(p); }
#if defined(__cpp_aligned_new)
void* operator new(std::size_t n, std::align_val_t a) { return vp_new(n, (std::size_t)a); }
void operator delete(void* p, std::align_val_t) noexcept { vp_free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { vp_free(p); }
#endif

#include <boost/variant.hpp>
#include <boost/variant/get.hpp>
#include <boost/blank.hpp>

namespace vp {

// what content and visitors throw: an unrelated class, a std::exception, a std::bad_alloc, a boost::bad_get - all of them must pass through unharmed
struct ex_std : std::exception { long payload; explicit ex_std(long p) : payload(p) {} };
struct ex_mem : std::bad_alloc { long payload; explicit ex_mem(long p) : payload(p) {} };
struct ex_get : boost::bad_get { long payload; explicit ex_get(long p) : payload(p) {} };
__attribute__((noinline)) inline void raise(int site) { long p = vp_sym("exception"); g.throws++; g.last = p; switch (site & 3) { case 0: { ex e; e.site = site; e.payload = p; throw e; } case 1: throw ex_std(p); case 2: throw ex_mem(p); default: throw ex_get(p); } }
#define VP_CATCH_CONTENT(BODY) catch (vp::ex& e) { (void)e; BODY } catch (vp::ex_std& e) { (void)e; BODY } catch (vp::ex_mem& e) { (void)e; BODY } catch (vp::ex_get& e) { (void)e; BODY }

// ---- kinds: how the contract sees a bounded type
template <class T> struct kind;
template <int ID, unsigned F, unsigned P, unsigned A> struct kind<Obj<ID, F, P, A> > {
    typedef Obj<ID, F, P, A> T; enum { tid = ID, ghost = 1, copy_nx = !(F & CT), move_nx = !(F & MT), def_nx = !(F & DT), cassign_nx = !(F & CAT), massign_nx = !(F & MAT) };
    static T mk(long x) { return T(vp::val(x)); } static long canon(long x) { return P == 255 ? (long)(unsigned char)x : x; }
    static long val(const T& t) { t.use(); VP_CHECK(t.ok(), "content.intact every byte of the content is intact"); return t.v; } static long def() { return canon(defv(ID)); }
    static void put(T& t, long x) { t.use(); t.set(x); } };
template <int ID, unsigned F> struct kind<MoveOnly<ID, F> > {
    typedef MoveOnly<ID, F> T; enum { tid = ID, ghost = 1, copy_nx = 1, move_nx = !(F & MT), def_nx = !(F & DT), cassign_nx = 1, massign_nx = !(F & MAT) };
    static T mk(long x) { return T(vp::val(x)); } static long canon(long x) { return x; }
    static long val(const T& t) { t.use(); return t.v; } static long def() { return defv(ID); }
    static void put(T& t, long x) { t.use(); t.set(x); } };
template <class T, int TID> struct pod_kind { enum { tid = TID, ghost = 0, copy_nx = 1, move_nx = 1, def_nx = 1, cassign_nx = 1, massign_nx = 1 };
    static T mk(long x) { return (T)x; } static long canon(long x) { return (long)(T)x; } static long val(const T& t) { return (long)t; } static long def() { return 0; } static void put(T& t, long x) { t = (T)x; } };
template <> struct kind<int> : pod_kind<int, 51> {};
template <> struct kind<long> : pod_kind<long, 52> {};
template <> struct kind<char> : pod_kind<char, 53> {};
template <> struct kind<unsigned short> : pod_kind<unsigned short, 54> {};
template <> struct kind<unsigned> : pod_kind<unsigned, 55> {};
template <> struct kind<signed char> : pod_kind<signed char, 56> {};
template <> struct kind<boost::blank> { enum { tid = 50, ghost = 0, copy_nx = 1, move_nx = 1, def_nx = 1, cassign_nx = 1, massign_nx = 1 }; static boost::blank mk(long) { return boost::blank(); } static long canon(long) { return 0; } static long val(const boost::blank&) { return 0; } static long def() { return 0; } static void put(boost::blank&, long) {} };

// ---- type lists
template <class... T> struct TL { enum { size = sizeof...(T) }; };
template <int I, class L> struct at;
template <class H, class... R> struct at<0, TL<H, R...> > { typedef H type; };
template <int I, class H, class... R> struct at<I, TL<H, R...> > : at<I - 1, TL<R...> > {};
template <class U, class L> struct index_of;
template <class U, class... R> struct index_of<U, TL<U, R...> > { enum { value = 0 }; };
template <class U, class H, class... R> struct index_of<U, TL<H, R...> > { enum { value = 1 + index_of<U, TL<R...> >::value }; };
// call f.template operator()<T>() for the I-th type
template <class L, int I = 0, bool End = (I == L::size)> struct dispatch {
    template <class F> static void go(int i, F& f) { if (i == I) f.template run<typename at<I, L>::type, I>(); else dispatch<L, I + 1>::go(i, f); } };
template <class L, int I> struct dispatch<L, I, true> { template <class F> static void go(int, F&) { VP_CHECK(false, "which.range which() is the position of a bounded type"); } };
struct tid_f { int r; template <class T, int> void run() { r = kind<T>::tid; } };
template <class L> int tid_at(int i) { tid_f f = { -1 }; dispatch<L>::go(i, f); return f.r; }
struct ghost_f { bool r; template <class T, int> void run() { r = kind<T>::ghost; } };
template <class L> bool ghost_at(int i) { ghost_f f = { false }; dispatch<L>::go(i, f); return f.r; }
struct def_f { long r; template <class T, int> void run() { r = kind<T>::def(); } };
template <class L> long def_at(int i) { def_f f = { 0 }; dispatch<L>::go(i, f); return f.r; }
struct canon_f { long x, r; template <class T, int> void run() { r = kind<T>::canon(x); } };
template <class L> long canon_at(int i, long x) { canon_f f = { x, 0 }; dispatch<L>::go(i, f); return f.r; }
#define VP_NX(NAME) struct NAME##_f { bool r; template <class T, int> void run() { r = kind<T>::NAME; } }; template <class L> bool NAME##_at(int i) { NAME##_f f = { false }; dispatch<L>::go(i, f); return f.r; }
VP_NX(copy_nx) VP_NX(move_nx) VP_NX(def_nx) VP_NX(cassign_nx) VP_NX(massign_nx)

// ---- the abstract view of a variant, obtained through its public interface
struct View { int which; int tid; long v; const void* addr; int ghost; };   // ghost: content objects owned
template <class T> int live_of(const T&) { return kind<T>::ghost; }
struct Probe : boost::static_visitor<void> { View* o; explicit Probe(View* p) : o(p) {}
    template <class T> void operator()(const T& t) const { o->tid = kind<T>::tid; o->v = kind<T>::val(t); o->addr = __builtin_addressof(t); o->ghost = live_of(t); } };
// get finds the visited object under its own type, and nothing under any other
template <class V> struct agree_f { const V* v; const View* w; template <class T, int I> void run() { const T* p = boost::strict_get<T>(v); VP_CHECK(w->tid == (int)kind<T>::tid ? p == w->addr : p == 0, "inv.get get agrees with visitation"); } };
template <class L, int I = 0, bool End = (I == L::size)> struct agree_all { template <class F> static void go(F& f) { f.template run<typename at<I, L>::type, I>(); agree_all<L, I + 1>::go(f); } };
template <class L, int I> struct agree_all<L, I, true> { template <class F> static void go(F&) {} };
template <class L, class V> View probe(const V& v) {
    View w = { -1, -1, 0, 0, false }; w.which = v.which();
    VP_CHECK(w.which >= 0 && w.which < (int)L::size, "inv.which which() is the position of a bounded type");
    Probe p(&w); boost::apply_visitor(p, v);
    VP_CHECK(w.tid == tid_at<L>(w.which), "inv.type visitation reaches the type that which() reports");
    VP_CHECK(!v.empty(), "inv.empty empty() is false");
    agree_f<V> f = { &v, &w }; agree_all<L>::go(f);
    return w;
}
template <class V> View raw_view(const V& v) { View w = { -1, -1, 0, 0, false }; w.which = v.which(); Probe p(&w); boost::apply_visitor(p, v); return w; }
inline bool same(const View& a, const View& b) { return a.which == b.which && a.tid == b.tid && a.v == b.v; }

// ---- storage for objects under contract
template <class V> struct Box { V* p; Box() : p(static_cast<V*>(vp_box(sizeof(V), alignof(V)))) {} ~Box() { vp_unbox(p); }
    V& operator*() { return *p; } V* operator->() { return p; } void destroy() { p->~V(); }
private: Box(const Box&); Box& operator=(const Box&); };

// ---- outcome of an operation
enum { OK = 0, EX = 1, OOM = 2, BADGET = 3, BADVISIT = 4, OTHER = 5 };
struct Outcome { int k; bool faithful; };
template <class F> Outcome attempt(F& f, bool armed = true) {
    Outcome o = { OK, true }; reset(); g.armed = armed;
    try { f(); g.armed = false; }
    VP_CATCH_CONTENT(g.armed = false; o.k = EX; o.faithful = g.throws >= 1 && e.payload == g.last;)
    catch (std::bad_alloc&) { g.armed = false; o.k = OOM; o.faithful = g.ooms >= 1; }
    catch (boost::bad_get&) { g.armed = false; o.k = BADGET; }
    catch (boost::bad_visit&) { g.armed = false; o.k = BADVISIT; }
    catch (...) { g.armed = false; o.k = OTHER; o.faithful = false; }
    return o;
}

// ---- arbitrary variants: every state a variant can be in between operations, value arbitrary
template <class V> struct make_f { void* p; long x; template <class T, int> void run() { new (p) V(kind<T>::mk(x)); } };
template <class Cfg> void make(void* p, int i, long x) { make_f<typename Cfg::V> f = { p, x }; dispatch<typename Cfg::L>::go(i, f); }
enum { FRESH = 0, FAILED = 1, MOVED = 2, FAILED_MOVE = 3, FAILED_SWAP = 4, MOVE_ASSIGNED = 5, REVIVED = 6, NSTATES = 7 };
inline const char* state_name(int st) { return st == FRESH ? "pre: constructed" : st == FAILED ? "pre: after a failed copy assignment" : st == MOVED ? "pre: moved-from" : st == FAILED_MOVE ? "pre: after a failed move assignment" : st == FAILED_SWAP ? "pre: after a failed swap" : st == MOVE_ASSIGNED ? "pre: move-assigned from" : "pre: assigned to after a failure"; }
#ifdef VP_STRICT
#define VP_GEN(X)            // this property also answers for the operations that establish the pre-state
#else
#define VP_GEN(X) vp_gen(X)  // a pre-state that cannot be established is another property's violation
#endif
template <class Cfg> View any(typename Cfg::V* p, const char* who, int states = 3, const long* given = 0) {
    typedef typename Cfg::V V; typedef typename Cfg::L L;
    int i = vp_choice((int)L::size, who);
    long x = given ? *given : vp_sym(who);
    int st = vp_choice(states, "state");
    VP_GEN(1);
    make<Cfg>(p, i, x);
    if (st == FAILED || st == FAILED_MOVE || st == FAILED_SWAP || st == REVIVED) { g.fmode = st == FAILED_MOVE ? 1 : st == FAILED_SWAP ? 2 : 0; Cfg::fail_into(p, i); g.fmode = 0; }
    if (st == MOVED) { V sink(std::move(*p)); }
    if (st == MOVE_ASSIGNED) { Box<V> b; make<Cfg>(b.p, 0, 3); *b = std::move(*p); b.destroy(); }
    if (st == REVIVED) { Box<V> b; make<Cfg>(b.p, ((int)L::size - 1 + i) % (int)L::size, x); *p = std::move(*b); b.destroy(); }
    View w = probe<L>(*p);
    vp_image(0, p, sizeof(V), Cfg::name());
    VP_GEN(0);
    vp_cover(state_name(st));
    return w;
}
template <class Cfg> void close(typename Cfg::V* p) { vp_image(1, p, sizeof(typename Cfg::V), Cfg::name()); }
// bring *p into the state left behind by an assignment that failed (bomb type: both moves and copies throw)
template <class V> void provoke(V* p, V& bomb) { try { if (g.fmode == 0) *p = static_cast<const V&>(bomb); else if (g.fmode == 1) *p = std::move(bomb); else p->swap(bomb); } VP_CATCH_CONTENT(;) }
template <class V, class B0, class B1> void fail_assign(V* p, int i, int b0) {
    if (i != b0) { V bomb(kind<B0>::mk(1)); g.force = kind<B0>::tid; provoke(p, bomb); g.force = -1; }
    else { V bomb(kind<B1>::mk(1)); g.force = kind<B1>::tid; provoke(p, bomb); g.force = -1; }
}
} // namespace vp
#endif
