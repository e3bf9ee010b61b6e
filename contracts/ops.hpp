// Contracts of the special members and modifiers of variant.  P selects the clauses judged.
#ifndef VP_OPS_HPP
#define VP_OPS_HPP
#include "cfg.hpp"
#ifndef VP_STATES
#define VP_STATES 3
#endif
namespace vp {

enum { P_INV = 1, P_POST = 2, P_FAIL = 4, P_EXC = 8, P_PLACE = 16 };

// ---- clauses shared by the contracts
template <class Cfg> View inv(typename Cfg::V* p) { View w = probe<typename Cfg::L>(*p); close<Cfg>(p); return w; }
// exactly one content object per variant
template <class Cfg> void one_each(int base, const View* a, const View* b = 0) {
    int n = base + (a ? a->ghost : 0) + (b ? b->ghost : 0);
    VP_CHECK(vp_live_total() == n, "inv.one every variant owns exactly one content object");
}
// no memory is allocated when a fallback exists, or when the types involved cannot throw on copy
template <class Cfg> void alloc_clause(int allocs, int a, int b) {
    VP_CHECK(!Cfg::in_place || allocs == 0 || Cfg::rec_at(a) || Cfg::rec_at(b), "place.alloc no memory is allocated");
    if (copy_nx_at<typename Cfg::L>(a) && copy_nx_at<typename Cfg::L>(b) && !Cfg::rec_at(a) && !Cfg::rec_at(b)) VP_CHECK(allocs == 0, "place.alloc.nothrow no memory is allocated when both types are nothrow copyable");
}
inline void exc_clause(const Outcome& o) {
    VP_CHECK(o.k == OK || o.k == EX || o.k == OOM, "exc.kind no foreign exception is thrown");
    VP_CHECK(o.faithful, "exc.same the exception that reaches the caller is the one that was thrown");
    VP_CHECK(o.k != OK || (g.throws == 0 && g.ooms == 0), "exc.swallowed no exception is swallowed");
}
template <class Cfg> bool in_object(typename Cfg::V* p, const View& w, unsigned long size = 1) { return vp_inside(w.addr, p, sizeof(typename Cfg::V), size) != 0; }
struct is_rec_f { bool r; template <class T, int> void run() { r = false; } };

// after a failed assignment from a source of which-type s (old target view: o; now: n)
template <class Cfg> void failed_target(const View& o, const View& n, int s) {
    typedef typename Cfg::L L;
    if (o.which == s) { VP_CHECK(n.which == o.which, "fail.sametype a failed same-type assignment keeps the target's type"); return; }
    bool kept = same(o, n);
    if ((int)Cfg::fallback < 0) VP_CHECK(kept, "fail.keep a failed assignment leaves the target's type and value unchanged");
    else {
        bool fb = def_nx_at<L>(n.which) && n.v == def_at<L>(n.which);
        VP_CHECK(kept || fb, "fail.fallback after a failed assignment the target is unchanged or default-constructed nothrow");
        if (has_blank<L>::value) VP_CHECK(kept || n.tid == kind<boost::blank>::tid, "fail.blank boost::blank is the preferred fallback");
    }
}

// ---- construction
template <class Cfg> struct op_default { void* p; void operator()() { new (p) typename Cfg::V(); } };
template <class Cfg> void contract_default_ctor() {
    typedef typename Cfg::V V; Box<V> x; op_default<Cfg> f = { x.p };
    Outcome o = attempt(f); exc_clause(o);
    if (o.k == OK) { vp_cover("post: default constructed"); View w = inv<Cfg>(x.p); one_each<Cfg>(0, &w); VP_CHECK(w.which == 0, "ctor.default.type default construction selects the first bounded type"); VP_CHECK(w.v == def_at<typename Cfg::L>(0), "ctor.default.value the content is value-initialised"); VP_CHECK(Cfg::rec_at(0) || in_object<Cfg>(x.p, w), "place.ctor constructed content is in place"); x.destroy(); }
    VP_CHECK(vp_live_total() == 0, "ctor.default.leak nothing is left behind");
}
template <class Cfg> struct op_copy { void* p; typename Cfg::V* s; int how; void operator()() { typedef typename Cfg::V V; if (how == 0) new (p) V(const_cast<const V&>(*s)); else if (how == 1) new (p) V(*s); else new (p) V(static_cast<const V&&>(*s)); } };
template <class Cfg> void contract_copy_ctor() {
    typedef typename Cfg::V V; Box<V> s, x; View w0 = any<Cfg>(s.p, "source", NSTATES);
    op_copy<Cfg> f = { x.p, s.p, vp_choice(3, "const lvalue / lvalue / const rvalue") }; vp_frame_begin("copy construction"); vp_frame_allow(x.p);
    Outcome o = attempt(f); vp_frame_end(); exc_clause(o); int allocs = g.allocs;
    View ws = inv<Cfg>(s.p); VP_CHECK(same(w0, ws), "ctor.copy.source copying leaves the source unchanged");
    if (o.k == OK) { vp_cover("post: copied"); View w = inv<Cfg>(x.p); one_each<Cfg>(0, &w, &ws); VP_CHECK(same(w0, w), "ctor.copy.value the copy holds the same type and value"); VP_CHECK(Cfg::rec_at(w.which) || in_object<Cfg>(x.p, w), "place.ctor constructed content is in place"); VP_CHECK(Cfg::rec_at(w.which) || allocs == 0, "place.alloc no memory is allocated"); x.destroy(); }
    else { vp_cover("post: copy failed"); one_each<Cfg>(0, &ws); }
    s.destroy();
}
template <class Cfg> struct op_move { void* p; typename Cfg::V* s; void operator()() { new (p) typename Cfg::V(std::move(*s)); } };
template <class Cfg> void contract_move_ctor() {
    typedef typename Cfg::V V; typedef typename Cfg::L L; Box<V> s, x; View w0 = any<Cfg>(s.p, "source", NSTATES);
    op_move<Cfg> f = { x.p, s.p }; vp_frame_begin("move construction"); vp_frame_allow(x.p); vp_frame_allow(s.p);
    Outcome o = attempt(f); vp_frame_end(); exc_clause(o);
    int copies = g.copies, allocs = g.allocs;
    View ws = inv<Cfg>(s.p); VP_CHECK(ws.which == w0.which, "ctor.move.source a moved-from variant keeps holding the same type");
    if (o.k == OK) { vp_cover("post: moved"); View w = inv<Cfg>(x.p); one_each<Cfg>(0, &w, &ws); VP_CHECK(same(w0, w), "ctor.move.value the new variant holds the moved type and value"); VP_CHECK(copies == 0, "ctor.move.nocopy content is moved, not copied"); VP_CHECK(Cfg::rec_at(w.which) || in_object<Cfg>(x.p, w), "place.ctor constructed content is in place"); VP_CHECK(Cfg::rec_at(w.which) || allocs == 0, "place.alloc no memory is allocated"); x.destroy(); }
    else { vp_cover("post: move failed"); one_each<Cfg>(0, &ws); }
    s.destroy();
}
// from a value of a bounded type: const lvalue, lvalue, rvalue
template <class V, class T> struct op_val { void* p; T* t; int how; void operator()() { if (how == 0) new (p) V(const_cast<const T&>(*t)); else if (how == 1) new (p) V(*t); else if (how == 2) new (p) V(std::move(*t)); else new (p) V(static_cast<const T&&>(*t)); } };
template <class Cfg> struct value_ctor_f {
    template <class T, int I> void run() {
        typedef typename Cfg::V V; Box<V> x; long q = vp_sym("value"); T t(kind<T>::mk(q)); int base = vp_live_total() - live_of(t); int how = vp_choice(4, "const lvalue / lvalue / rvalue / const rvalue");
        op_val<V, T> f = { x.p, __builtin_addressof(t), how }; Outcome o = attempt(f); exc_clause(o); base += live_of(t); int copies = g.copies, allocs = g.allocs;
        if (how != 2) VP_CHECK(kind<T>::val(t) == kind<T>::canon(q), "ctor.value.source the source value is unchanged");
        if (o.k == OK) { vp_cover("post: value constructed"); View w = inv<Cfg>(x.p); one_each<Cfg>(base, &w); VP_CHECK(w.which == I && w.v == kind<T>::canon(q), "ctor.value the variant holds the given type and value"); VP_CHECK(how != 2 || copies == 0, "ctor.value.nocopy an rvalue is moved, not copied"); VP_CHECK(Cfg::rec_at(I) || in_object<Cfg>(x.p, w), "place.ctor constructed content is in place"); VP_CHECK(Cfg::rec_at(I) || allocs == 0, "place.alloc no memory is allocated"); x.destroy(); }
        VP_CHECK(vp_live_total() == base, "ctor.value.leak nothing is left behind");
    } };
template <class Cfg> void contract_value_ctor() { int i = vp_choice((int)Cfg::L::size, "type"); value_ctor_f<Cfg> f; dispatch<typename Cfg::L>::go(i, f); }
// destruction
template <class Cfg> void contract_dtor() {
    typedef typename Cfg::V V; Box<V> x; View w = any<Cfg>(x.p, "variant", NSTATES); one_each<Cfg>(0, &w); reset(); g.armed = true; x.destroy(); g.armed = false;
    VP_CHECK(vp_live_total() == 0 && vp_heap_total() == 0, "dtor destruction destroys the content and releases its memory"); vp_cover("post: destroyed");
}

// ---- assignment
template <class Cfg> struct op_cassign { typename Cfg::V* p; typename Cfg::V* s; int how; void operator()() { typedef typename Cfg::V V; V& r = how == 0 ? (*p = const_cast<const V&>(*s)) : how == 1 ? (*p = *s) : (*p = static_cast<const V&&>(*s)); VP_CHECK(&r == p, "assign.ret assignment returns the target"); } };
template <class Cfg> struct op_massign { typename Cfg::V* p; typename Cfg::V* s; void operator()() { typename Cfg::V& r = (*p = std::move(*s)); VP_CHECK(&r == p, "assign.ret assignment returns the target"); } };
template <class Cfg> void after_assign(typename Cfg::V* p, const Outcome& o, const View& t0, const View& s0, const View& t1, bool type_change) {
    typedef typename Cfg::L L;
    if (o.k == OK) { vp_cover("post: assigned"); VP_CHECK(same(s0, t1), "assign.value the target holds the source's type and value");
        if (type_change) VP_CHECK(Cfg::rec_at(t1.which) || in_object<Cfg>(p, t1), "place.assign content is in place after a type-changing assignment"); }
    else { vp_cover("post: assignment failed"); failed_target<Cfg>(t0, t1, s0.which); }
    VP_CHECK(!Cfg::in_place || (Cfg::rec_at(t1.which) || in_object<Cfg>(p, t1)), "place.always content is always in place when a fallback exists");
}
template <class Cfg> void contract_copy_assign() {
    typedef typename Cfg::V V; Box<V> t, s; View t0 = any<Cfg>(t.p, "target", VP_STATES), s0 = any<Cfg>(s.p, "source", VP_STATES); int h0 = vp_heap_total();
    op_cassign<Cfg> f = { t.p, s.p, vp_choice(3, "const lvalue / lvalue / const rvalue") }; vp_frame_begin("copy assignment"); vp_frame_allow(t.p); Outcome o = attempt(f); vp_frame_end(); exc_clause(o); int allocs = g.allocs;
    View s1 = inv<Cfg>(s.p), t1 = inv<Cfg>(t.p); one_each<Cfg>(0, &t1, &s1);
    VP_CHECK(same(s0, s1), "assign.copy.source the source is unchanged");
    alloc_clause<Cfg>(allocs, t0.which, s0.which); (void)h0;
    after_assign<Cfg>(t.p, o, t0, s0, t1, t0.which != s0.which);
    t.destroy(); s.destroy();
}
template <class Cfg> void contract_move_assign() {
    typedef typename Cfg::V V; typedef typename Cfg::L L; Box<V> t, s; View t0 = any<Cfg>(t.p, "target", VP_STATES), s0 = any<Cfg>(s.p, "source", VP_STATES);
    op_massign<Cfg> f = { t.p, s.p }; vp_frame_begin("move assignment"); vp_frame_allow(t.p); vp_frame_allow(s.p); Outcome o = attempt(f); vp_frame_end(); exc_clause(o); int allocs = g.allocs, copies = g.copies;
    View s1 = inv<Cfg>(s.p), t1 = inv<Cfg>(t.p); one_each<Cfg>(0, &t1, &s1);
    VP_CHECK(s1.which == s0.which, "assign.move.source the moved-from source keeps holding its type");
    alloc_clause<Cfg>(allocs, t0.which, s0.which);
    if (move_nx_at<L>(s0.which) && massign_nx_at<L>(s0.which) && !Cfg::rec_at(s0.which)) VP_CHECK(copies == 0, "assign.move.nocopy moving content whose move cannot throw performs no copy");
    after_assign<Cfg>(t.p, o, t0, s0, t1, t0.which != s0.which);
    t.destroy(); s.destroy();
}
template <class Cfg> void contract_self_assign() {
    typedef typename Cfg::V V; Box<V> t; View t0 = any<Cfg>(t.p, "target", NSTATES); int how = vp_choice(2, "copy / move");
    Outcome o; if (how == 0) { op_cassign<Cfg> f = { t.p, t.p, vp_choice(2, "const lvalue / lvalue") }; o = attempt(f); } else { op_massign<Cfg> f = { t.p, t.p }; o = attempt(f); }
    exc_clause(o); View t1 = inv<Cfg>(t.p); one_each<Cfg>(0, &t1);
    VP_CHECK(t1.which == t0.which, "assign.self.type self-assignment keeps the type");
    if (how == 0 && o.k == OK) { vp_cover("post: self-assigned"); VP_CHECK(t1.v == t0.v, "assign.self.value self-assignment keeps the value"); }
    t.destroy();
}
// value assignment
template <class V, class T> struct op_vassign { V* p; T* t; int how; void operator()() { V* r = 0; if (how == 0) r = &(*p = const_cast<const T&>(*t)); else if (how == 1) r = &(*p = *t); else if (how == 2) r = &(*p = std::move(*t)); else r = &(*p = static_cast<const T&&>(*t)); VP_CHECK(r == p, "assign.ret assignment returns the target"); } };
template <class Cfg> struct value_assign_f { typename Cfg::V* p; View t0;
    template <class T, int I> void run() {
        typedef typename Cfg::V V; typedef typename Cfg::L L; long q = vp_sym("value"); T t(kind<T>::mk(q)); int how = vp_choice(4, "const lvalue / lvalue / rvalue / const rvalue"); op_vassign<V, T> f = { p, __builtin_addressof(t), how }; vp_frame_begin("value assignment"); vp_frame_allow(p); if (how == 2) vp_frame_allow(__builtin_addressof(t)); Outcome o = attempt(f); vp_frame_end(); exc_clause(o); int allocs = g.allocs, copies = g.copies;
        if (how != 2) VP_CHECK(kind<T>::val(t) == kind<T>::canon(q), "assign.value.source the assigned value is unchanged");
        View t1 = inv<Cfg>(p); one_each<Cfg>(live_of(t), &t1); View s0 = { I, kind<T>::tid, kind<T>::canon(q), 0, false };
        alloc_clause<Cfg>(allocs, t0.which, I);
        if (how == 2 && kind<T>::move_nx && kind<T>::massign_nx && !Cfg::rec_at(I)) VP_CHECK(copies == 0, "assign.move.nocopy moving content whose move cannot throw performs no copy");
        after_assign<Cfg>(p, o, t0, s0, t1, t0.which != I);
    } };
template <class Cfg> void contract_value_assign() {
    typedef typename Cfg::V V; Box<V> t; View t0 = any<Cfg>(t.p, "target", NSTATES); int i = vp_choice((int)Cfg::L::size, "type");
    value_assign_f<Cfg> f = { t.p, t0 }; dispatch<typename Cfg::L>::go(i, f); t.destroy();
}
// assigning a variant its own content
template <class Cfg> struct alias_assign_f { typename Cfg::V* p; View t0;
    template <class T, int I> void run() { typedef typename Cfg::V V; T* c = boost::strict_get<T>(p); VP_CHECK(c != 0, "inv.get get agrees with visitation"); int how = vp_choice(4, "const lvalue / lvalue / rvalue / const rvalue"); op_vassign<V, T> f = { p, c, how }; Outcome o = attempt(f); exc_clause(o);
        View t1 = inv<Cfg>(p); one_each<Cfg>(0, &t1); VP_CHECK(t1.which == t0.which, "assign.alias.type assigning a variant its own content keeps the type"); if (o.k == OK && how != 2) { vp_cover("post: own content assigned"); VP_CHECK(t1.v == t0.v, "assign.alias.value assigning a variant its own content keeps the value"); } } };
template <class Cfg> void contract_alias_assign() { typedef typename Cfg::V V; Box<V> t; View t0 = any<Cfg>(t.p, "target", VP_STATES); alias_assign_f<Cfg> f = { t.p, t0 }; dispatch<typename Cfg::L>::go(t0.which, f); t.destroy(); }
// ---- swap
template <class Cfg> struct op_swap { typename Cfg::V* a; typename Cfg::V* b; int how; void operator()() { using boost::swap; if (how == 0) a->swap(*b); else boost::swap(*a, *b); } };
template <class Cfg> void contract_swap() {
    typedef typename Cfg::V V; typedef typename Cfg::L L; Box<V> a, b; View a0 = any<Cfg>(a.p, "left", VP_STATES), b0 = any<Cfg>(b.p, "right", VP_STATES); int how = vp_choice(2, "member / free");
    op_swap<Cfg> f = { a.p, b.p, how }; vp_frame_begin("swap"); vp_frame_allow(a.p); vp_frame_allow(b.p); Outcome o = attempt(f); vp_frame_end(); exc_clause(o); int allocs = g.allocs;
    View a1 = inv<Cfg>(a.p), b1 = inv<Cfg>(b.p); one_each<Cfg>(0, &a1, &b1);
    alloc_clause<Cfg>(allocs, a0.which, b0.which);
    if (o.k == OK) { vp_cover("post: swapped"); VP_CHECK(same(a1, b0) && same(b1, a0), "swap.exchange swap exchanges types and values"); }
    else { vp_cover("post: swap failed"); if (a0.which == b0.which) VP_CHECK(a1.which == a0.which && b1.which == b0.which, "swap.failed a failed same-type swap keeps both types"); }
    a.destroy(); b.destroy();
}
template <class Cfg> void contract_self_swap() {
    typedef typename Cfg::V V; Box<V> a; View a0 = any<Cfg>(a.p, "variant", NSTATES); int how = vp_choice(2, "member / free");
    op_swap<Cfg> f = { a.p, a.p, how }; Outcome o = attempt(f); exc_clause(o); View a1 = inv<Cfg>(a.p); one_each<Cfg>(0, &a1);
    VP_CHECK(a1.which == a0.which, "swap.self.type swapping a variant with itself keeps its type");
    if (o.k == OK) { vp_cover("post: self-swapped"); VP_CHECK(a1.v == a0.v, "swap.self.value swapping a variant with itself keeps its value"); }
    a.destroy();
}
// ---- move-only content: value construction and assignment from rvalues
template <class V, class T> struct op_valm { void* p; T* t; void operator()() { new (p) V(std::move(*t)); } };
template <class Cfg> struct value_ctor_m_f { template <class T, int I> void run() {
    typedef typename Cfg::V V; Box<V> x; long q = vp_sym("value"); T t(kind<T>::mk(q)); int base = vp_live_total(); op_valm<V, T> f = { x.p, __builtin_addressof(t) }; Outcome o = attempt(f); exc_clause(o);
    if (o.k == OK) { vp_cover("post: value constructed"); View w = inv<Cfg>(x.p); one_each<Cfg>(base, &w); VP_CHECK(w.which == I && w.v == kind<T>::canon(q), "ctor.value the variant holds the given type and value"); VP_CHECK(in_object<Cfg>(x.p, w), "place.ctor constructed content is in place"); x.destroy(); }
    VP_CHECK(vp_live_total() == base, "ctor.value.leak nothing is left behind"); } };
template <class Cfg> void contract_value_ctor_m() { int i = vp_choice((int)Cfg::L::size, "type"); value_ctor_m_f<Cfg> f; dispatch<typename Cfg::L>::go(i, f); }
template <class V, class T> struct op_vassignm { V* p; T* t; void operator()() { V& r = (*p = std::move(*t)); VP_CHECK(&r == p, "assign.ret assignment returns the target"); } };
template <class Cfg> struct value_assign_m_f { typename Cfg::V* p; View t0; template <class T, int I> void run() {
    typedef typename Cfg::V V; long q = vp_sym("value"); T t(kind<T>::mk(q)); int base = live_of(t); op_vassignm<V, T> f = { p, __builtin_addressof(t) }; Outcome o = attempt(f); exc_clause(o);
    View t1 = inv<Cfg>(p); one_each<Cfg>(base, &t1); View s0 = { I, kind<T>::tid, kind<T>::canon(q), 0, false }; after_assign<Cfg>(p, o, t0, s0, t1, t0.which != I); } };
template <class Cfg> void contract_value_assign_m() { typedef typename Cfg::V V; Box<V> t; View t0 = any<Cfg>(t.p, "target"); int i = vp_choice((int)Cfg::L::size, "type"); value_assign_m_f<Cfg> f = { t.p, t0 }; dispatch<typename Cfg::L>::go(i, f); t.destroy(); }
template <class Cfg> void contract_self_move_assign() { typedef typename Cfg::V V; Box<V> t; View t0 = any<Cfg>(t.p, "target"); op_massign<Cfg> f = { t.p, t.p }; Outcome o = attempt(f); exc_clause(o); View t1 = inv<Cfg>(t.p); one_each<Cfg>(0, &t1); VP_CHECK(t1.which == t0.which, "assign.self.type self-assignment keeps the type"); t.destroy(); }

// ---- histories: two arbitrary operations in a row on two arbitrary variants, then every observer
enum { H_COPY = 0, H_MOVE = 1, H_SWAP = 2, H_VALUE = 3, H_SELF = 4, H_RECON = 5, H_N = 6 };
template <class Cfg> struct op_step { typename Cfg::V* a; typename Cfg::V* b; int op; int type; long x;
    struct val_f { typename Cfg::V* a; long x; template <class T, int I> void run() { *a = kind<T>::mk(x); } };
    void operator()() { typedef typename Cfg::V V;
        switch (op) { case H_COPY: *a = static_cast<const V&>(*b); break; case H_MOVE: *a = std::move(*b); break; case H_SWAP: a->swap(*b); break;
            case H_VALUE: { val_f f = { a, x }; dispatch<typename Cfg::L>::go(type, f); break; } case H_SELF: *a = static_cast<const V&>(*a); break;
            default: { V c(static_cast<const V&>(*a)); V d(std::move(c)); *b = std::move(d); } } } };
template <class Cfg> void step(typename Cfg::V* a, typename Cfg::V* b, int op) {
    typedef typename Cfg::L L; View a0 = probe<L>(*a), b0 = probe<L>(*b); op_step<Cfg> f = { a, b, op, 0, 0 };
    if (op == H_VALUE) { f.type = vp_choice((int)L::size, "assigned type"); f.x = vp_sym("assigned value"); }
    Outcome o = attempt(f); exc_clause(o); View a1 = inv<Cfg>(a), b1 = inv<Cfg>(b); one_each<Cfg>(0, &a1, &b1);
    switch (op) {
    case H_COPY: VP_CHECK(same(b0, b1), "assign.copy.source the source is unchanged"); if (o.k == OK) VP_CHECK(same(a1, b0), "assign.value the target holds the source's type and value"); else failed_target<Cfg>(a0, a1, b0.which); break;
    case H_MOVE: if (a != b) { VP_CHECK(b1.which == b0.which, "assign.move.source the moved-from source keeps holding its type"); if (o.k == OK) VP_CHECK(same(a1, b0), "assign.value the target holds the source's type and value"); else failed_target<Cfg>(a0, a1, b0.which); } break;
    case H_SWAP: if (o.k == OK) VP_CHECK(same(a1, b0) && same(b1, a0), "swap.exchange swap exchanges types and values"); break;
    case H_VALUE: VP_CHECK(same(b0, b1), "frame.other other variants are unaffected"); if (o.k == OK) VP_CHECK(a1.which == f.type && a1.v == canon_at<L>(f.type, f.x), "assign.value the target holds the assigned type and value"); else failed_target<Cfg>(a0, a1, f.type); break;
    case H_SELF: VP_CHECK(same(b0, b1) && a1.which == a0.which && (o.k != OK || a1.v == a0.v), "assign.self self-assignment keeps the value"); break;
    default: VP_CHECK(same(a0, a1), "assign.copy.source the source is unchanged"); if (o.k == OK) VP_CHECK(same(b1, a0), "assign.value the target holds the source's type and value"); else failed_target<Cfg>(b0, b1, a0.which); }
}
template <class Cfg, int OP1> void history(int states) {
    typedef typename Cfg::V V; Box<V> a, b; any<Cfg>(a.p, "left", states); any<Cfg>(b.p, "right", states);
    step<Cfg>(a.p, b.p, OP1); int flip = vp_choice(2, "same / exchanged roles"); int op2 = vp_choice(H_N, "second operation"); step<Cfg>(flip ? b.p : a.p, flip ? a.p : b.p, op2); vp_cover("post: two operations");
    if (vp_choice(2, "order of destruction")) { b.destroy(); VP_CHECK(vp_live_in(b.p, sizeof(V)) == 0, "dtor destruction destroys the content"); inv<Cfg>(a.p); a.destroy(); } else { a.destroy(); inv<Cfg>(b.p); b.destroy(); }
    VP_CHECK(vp_live_total() == 0 && vp_heap_total() == 0, "dtor nothing is left behind");
}
} // namespace vp
#define VP_ENTRY(NAME, CFG) extern "C" void vc_##NAME##__##CFG() { vp::contract_##NAME<vp::CFG>(); }
#define VP_HIST1(CFG, N, S) extern "C" void vc_history##N##__##CFG() { vp::history<vp::CFG, N>(S); }
#define VP_HISTORY(CFG, S) VP_HIST1(CFG, 0, S) VP_HIST1(CFG, 1, S) VP_HIST1(CFG, 2, S) VP_HIST1(CFG, 3, S) VP_HIST1(CFG, 4, S) VP_HIST1(CFG, 5, S)
#endif
