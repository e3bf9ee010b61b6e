// C18: type() and stream output.
#include <iosfwd>
#include <typeinfo>
namespace vp { struct ch { char c; }; struct tr {}; struct Ev { int tid; const void* addr; long v; long width; long flags; const void* os; }; }
// an output stream over a character type of our own: every insertion and every change of its state is recorded
namespace std {
template <> class basic_ostream<vp::ch, vp::tr> { public:
    typedef vp::ch char_type; typedef vp::tr traits_type; typedef long streamsize_t;
    long w, fl, prec; int n; int touched; vp::Ev ev[4]; bool ok;
    basic_ostream() : w(0), fl(0), prec(6), n(0), touched(0), ok(true) {}
    void rec(int tid, const void* a, long v) { if (n < 4) { ev[n].tid = tid; ev[n].addr = a; ev[n].v = v; ev[n].width = w; ev[n].flags = fl; ev[n].os = this; } n++; }
    long width() const { return w; } long width(long x) { long o = w; w = x; touched++; return o; }
    long precision() const { return prec; } long precision(long x) { long o = prec; prec = x; touched++; return o; }
    long flags() const { return fl; } long flags(long x) { long o = fl; fl = x; touched++; return o; } long setf(long x) { return flags(fl | x); } void unsetf(long x) { flags(fl & ~x); }
    bool good() const { return ok; } bool fail() const { return !ok; } bool bad() const { return !ok; } bool eof() const { return false; } explicit operator bool() const { return ok; } bool operator!() const { return !ok; }
    void setstate(int) { touched++; } void clear(int = 0) { touched++; } int rdstate() const { return ok ? 0 : 4; }
    basic_ostream& flush() { touched++; return *this; } basic_ostream& put(vp::ch) { rec(-2, 0, 0); return *this; } basic_ostream& write(const vp::ch*, long) { rec(-3, 0, 0); return *this; }
private: basic_ostream(const basic_ostream&); basic_ostream& operator=(const basic_ostream&);
};
}
namespace vp {
typedef std::basic_ostream<ch, tr> OS;
bool may_fail(); void raise(int);
template <int ID, unsigned F, unsigned P, unsigned AL> struct Obj;
template <int ID, unsigned F, unsigned P, unsigned AL> OS& operator<<(OS& o, const Obj<ID, F, P, AL>& x);
inline OS& operator<<(OS& o, const int& x) { o.rec(51, &x, x); return o; }
inline OS& operator<<(OS& o, const long& x) { o.rec(52, &x, x); return o; }
inline OS& operator<<(OS& o, const char& x) { o.rec(53, &x, x); return o; }
inline OS& operator<<(OS& o, const unsigned short& x) { o.rec(54, &x, x); return o; }
inline OS& operator<<(OS& o, const char* x) { o.rec(-4, x, 0); return o; }
inline OS& operator<<(OS& o, const bool& x) { o.rec(-5, &x, x); return o; }
}
#include "inh.hpp"
namespace vp {
template <int ID, unsigned F, unsigned P, unsigned AL> OS& operator<<(OS& o, const Obj<ID, F, P, AL>& x) { x.use(); if (may_fail()) raise(ID); o.rec(ID, &x, x.v); return o; }
template <class V> struct op_out { OS* o; const V* v; void operator()() { OS& r = (*o << *v); VP_CHECK(&r == o, "out.ret the given stream is returned"); } };
template <class Cfg> void contract_out() {
    typedef typename Cfg::V V; Box<V> x; View w0 = any<Cfg>(x.p, "variant", NSTATES); OS o; o.w = vp_sym("width"); o.fl = vp_sym("flags"); o.prec = vp_sym("precision"); long w = o.w, fl = o.fl, pr = o.prec; bool blank = w0.tid == (int)kind<boost::blank>::tid;
    op_out<V> f = { &o, x.p }; vp_frame_begin("output"); vp_frame_allow(&o); Outcome r = attempt(f); vp_frame_end(); exc_clause(r); VP_CHECK(r.k != OOM, "exc.kind no foreign exception is thrown");
    if (r.k == OK) { vp_cover("post: written"); VP_CHECK(o.n == (blank ? 0 : 1), "out.once exactly one value is written"); if (!blank) { VP_CHECK(o.ev[0].tid == w0.tid, "out.type the held type is written"); VP_CHECK(o.ev[0].v == w0.v, "out.value the held value is written"); VP_CHECK(o.ev[0].width == w && o.ev[0].flags == fl && o.ev[0].os == &o, "out.format the content sees the given stream with its formatting"); } }
    else { vp_cover("post: output threw"); VP_CHECK(o.n == 0, "out.once nothing else is written"); }
    VP_CHECK(o.touched == 0 && o.w == w && o.fl == fl && o.prec == pr, "out.state the stream's own state is not changed by the variant"); VP_CHECK(g.copies == 0 && g.moves == 0 && g.allocs == 0, "out.pure output neither copies nor allocates");
    View w1 = inv<Cfg>(x.p); one_each<Cfg>(0, &w1); VP_CHECK(same(w0, w1) && w0.addr == w1.addr, "out.unchanged output changes nothing"); x.destroy();
}
// a variant inside a variant, and chained insertion
typedef boost::variant<A, int> In_;
inline void nested() { typedef boost::variant<B, In_, boost::recursive_wrapper<R> > V; Box<V> x; int k = vp_choice(4, "content"); long q = vp_sym("value"); if (k == 0) new (x.p) V(B(vp::val(q))); else if (k == 1) new (x.p) V(In_(A(vp::val(q)))); else if (k == 2) new (x.p) V(In_((int)q)); else new (x.p) V(R(vp::val(q)));
    OS o; o << *x << 7L << *x; int tid = k == 0 ? 1 : k == 1 ? 0 : k == 2 ? 51 : 6; long v = k == 2 ? (long)(int)q : q; VP_CHECK(o.n == 3 && o.ev[0].tid == tid && o.ev[0].v == v && o.ev[1].tid == 52 && o.ev[1].v == 7 && o.ev[2].tid == tid && o.ev[2].v == v, "out.nested nested content is written once per insertion, in order"); vp_cover("post: nested"); x.destroy(); }
inline void refout() { typedef boost::variant<A&, int> V; Box<A> a; long q = vp_sym("value"); new (a.p) A(vp::val(q)); Box<V> x; new (x.p) V(*a); OS o; o << const_cast<const V&>(*x); VP_CHECK(o.n == 1 && o.ev[0].tid == 0 && o.ev[0].addr == a.p && o.ev[0].v == q, "out.ref reference content is written"); VP_CHECK(&x->type() == &typeid(A), "type.ref type() of reference content is the referred type"); vp_cover("post: ref"); x.destroy(); a.destroy(); }
// type()
template <class Cfg> struct type_f { const typename Cfg::V* v; const std::type_info* t; bool match, unique; template <class T, int I> void run() { match = t == &typeid(T); } };
template <class Cfg> struct op_type { const typename Cfg::V* v; const std::type_info* t; void operator()() { const std::type_info& r = v->type(); t = &r; } };
template <class Cfg> void contract_type() {
    typedef typename Cfg::V V; typedef typename Cfg::L L; Box<V> x; View w0 = any<Cfg>(x.p, "variant", NSTATES); op_type<Cfg> f = { x.p, 0 }; vp_frame_begin("type()"); vp_frame_allow(&f); Outcome o = attempt(f); vp_frame_end(); VP_CHECK(o.k == OK, "type.nothrow type() does not throw");
    type_f<Cfg> q = { x.p, f.t, false, true }; dispatch<L>::go(w0.which, q); VP_CHECK(q.match, "type.held type() is the identity of the held type"); for (int i = 0; i < (int)L::size; ++i) if (i != w0.which) { type_f<Cfg> z = { x.p, f.t, false, true }; dispatch<L>::go(i, z); VP_CHECK(!z.match, "type.other type() differs from the other types"); }
    VP_CHECK(g.copies == 0 && g.moves == 0 && g.allocs == 0, "type.pure type() neither copies nor allocates"); View w1 = inv<Cfg>(x.p); VP_CHECK(same(w0, w1) && w0.addr == w1.addr, "type.unchanged type() changes nothing"); vp_cover("post: type"); x.destroy();
}
// class hierarchies: the static, not a base, type; polymorphic content too
struct PolyT { long v; explicit PolyT(vp::val q) : v(q.x) {} virtual ~PolyT() {} }; struct PolyTD : PolyT { explicit PolyTD(vp::val q) : PolyT(q) {} };
inline void poly() { typedef boost::variant<PolyT, PolyTD, int> V; Box<V> x; int k = vp_choice(3, "content"); if (k == 0) new (x.p) V(PolyT(vp::val(1))); else if (k == 1) new (x.p) V(PolyTD(vp::val(1))); else new (x.p) V(3); VP_CHECK(&x->type() == (k == 0 ? &typeid(PolyT) : k == 1 ? &typeid(PolyTD) : &typeid(int)), "type.held type() is the identity of the held type"); vp_cover("post: poly"); x.destroy(); }
inline void polyref() { typedef boost::variant<PolyT&, int> V; Box<PolyTD> d; new (d.p) PolyTD(vp::val(1)); Box<V> x; int k = vp_choice(2, "content"); int i = 4; if (k == 0) new (x.p) V(static_cast<PolyT&>(*d)); else new (x.p) V(i); VP_CHECK(&x->type() == (k == 0 ? &typeid(PolyT) : &typeid(int)), "type.held type() is the identity of the held bounded type, not of the object's dynamic type"); x.destroy(); d.destroy(); vp_cover("post: type"); }
inline void compound() { typedef boost::variant<PolyT*, const PolyT*, PolyT**, int (*)(), int> V; Box<V> x; int k = vp_choice(5, "content"); switch (k) { case 0: new (x.p) V((PolyT*)0); break; case 1: new (x.p) V((const PolyT*)0); break; case 2: new (x.p) V((PolyT**)0); break; case 3: new (x.p) V((int (*)())0); break; default: new (x.p) V(1); }
    const std::type_info* t = &x->type(); VP_CHECK(t == (k == 0 ? &typeid(PolyT*) : k == 1 ? &typeid(const PolyT*) : k == 2 ? &typeid(PolyT**) : k == 3 ? &typeid(int (*)()) : &typeid(int)), "type.held type() is the identity of the held type"); x.destroy(); vp_cover("post: type"); }
}
#define T2(CFG) VP_ENTRY(out, CFG) VP_ENTRY(type, CFG)
T2(CfgBackup) T2(CfgFallback) T2(CfgBlank) T2(CfgBlank0) T2(CfgPod) T2(CfgRec) T2(CfgAlign) T2(CfgAlignBackup) T2(CfgSeq) T2(CfgNothrow) T2(CfgOne)
VP_ENTRY(type, CfgInh) VP_ENTRY(type, CfgInhRec)
extern "C" void vc_out_nested() { vp::nested(); }
extern "C" void vc_out_ref() { vp::refout(); }
extern "C" void vc_type_poly() { vp::poly(); }
extern "C" void vc_type_polyref() { vp::polyref(); }
extern "C" void vc_type_compound() { vp::compound(); }
