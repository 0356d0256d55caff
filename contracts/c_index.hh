// single bit access: operator[], get, set, set_x, set_z, x_set, z_set; declared ranges of both directions
#pragma once
#include "vp.hh"
#include <utility>
namespace vp {
// position of index idx in a vector declared [hi:lo]: the right bound is the least significant bit
template <int hi, int lo> int64_t pos(int64_t idx) { return hi >= lo ? idx - lo : lo - idx; }
template <unsigned N> bool in(int64_t p) { return p >= 0 && p < (int64_t)N; }
template <unsigned N> bool at(U<N> x, int64_t p) { return (bool)((x >> (unsigned)p) & 1); }
template <unsigned N> U<N> with(U<N> x, int64_t p, bool v) {
    U<N> m = (U<N>)((U<N>)1 << (unsigned)p);
    return v ? (U<N>)(x | m) : (U<N>)(x & ~m);
}
template <int hi, int lo, bool sg> using LT = ::logic::logic<hi, lo, sg>;
template <int hi, int lo, bool sg> using BT = ::logic::bit<hi, lo, sg>;

inline int symint(const char *n) {
    uint32_t x = (uint32_t)sym<32>(n);
    return (int)x;
}
template <class R> void bit1(const R &r, bool v, bool m, const char *what) {
    static_assert(W<R> == 1);
    vp_assert((bool)val(r) == v, what);
    if constexpr (R::is_4state) vp_assert((bool)xz(r) == m, what);
    vp_assert(ok(r), "the result representation is canonical");
}
// out of range reads: x for four-state, 0 for two-state
template <class A> void want(const A &a, int64_t p, bool &v, bool &m) {
    constexpr unsigned N = W<A>;
    if (in<N>(p)) { v = at<N>(val(a), p); m = A::is_4state && at<N>(xz(a), p); }
    else { v = false; m = A::is_4state; }
}
template <template <int, int, bool> class K, int hi, int lo, bool sg> void h_index() {
    using A = K<hi, lo, sg>;
    VP_IN(A, a);
    int i = symint("i");
    bool v, m;
    want(a, pos<hi, lo>(i), v, m);
    auto r = a[i];
    bit1(r, v, m, "indexing yields the bit at that position of the declared range, x (0 for two-state) outside of it");
    VP_FRAME(a);
}
template <template <int, int, bool> class K, int hi, int lo, bool sg, size_t... I> void get_all(const K<hi, lo, sg> &a, std::index_sequence<I...>) {
    auto one = [&]<int i>() {
        bool v, m;
        want(a, i, v, m);
        bit1(a.template get<i>(), v, m, "get<i> yields bit i");
    };
    (one.template operator()<(int)I>(), ...);
}
template <template <int, int, bool> class K, int hi, bool sg> void h_get() {
    using A = K<hi, 0, sg>;
    VP_IN(A, a);
    get_all<K, hi, 0, sg>(a, std::make_index_sequence<W<A>>{});
    VP_FRAME(a);
}
// a vector as an index
template <template <int, int, bool> class K, int hi, int lo, bool sg, class B> void h_getv() {
    using A = K<hi, lo, sg>;
    VP_IN(A, a); VP_IN(B, n);
    constexpr unsigned M = W<B> + 34;
    // the exact index, compared with the declared range without any wrap-around
    S<M> i = B::is_signed && W<B> > 1 ? (S<M>)(S<W<B> < 2 ? 2 : W<B>>)(U<W<B> < 2 ? 2 : W<B>>)val(n) : (S<M>)(U<M>)val(n);
    S<M> p = hi >= lo ? i - (S<M>)lo : (S<M>)lo - i;
    bool inside = p >= (S<M>)0 && p < (S<M>)W<A> && xz(n) == 0;
    bool v = false, m = A::is_4state;
    if (inside) { v = at<W<A>>(val(a), (int64_t)p); m = at<W<A>>(xz(a), (int64_t)p); }
    auto r = a.get(n);
    if constexpr (A::is_4state) bit1(r, v, m, "indexing with a vector yields the bit at that index, x for an unknown or out of range index");
    else vp_assert((bool)r == v, "indexing with a vector yields the bit at that index, 0 for an out of range index");
    VP_FRAME(a); VP_FRAME(n);
}
template <class A> void isset(const A &a, const A &a0, int64_t p, bool v, bool m, const char *what) {
    constexpr unsigned N = W<A>;
    if (in<N>(p)) {
        vp_assert(val(a) == with<N>(val(a0), p, v), what);
        if constexpr (A::is_4state) vp_assert(xz(a) == with<N>(xz(a0), p, m), what);
    } else {
        vp_assert(val(a) == val(a0) && xz(a) == xz(a0), "writing a bit outside of the declared range changes nothing");
    }
    vp_assert(ok(a), "the result representation is canonical");
}
template <template <int, int, bool> class K, int hi, int lo, bool sg> void h_set() {
    using A = K<hi, lo, sg>;
    VP_IN(A, a);
    int i = symint("i");
    bool v = (bool)sym<1>("v");
    int64_t p = pos<hi, lo>(i);
    A s = a;
    s.set(i, v);
    isset(s, a, p, v, false, "set writes the bit at the index and nothing else");
    if constexpr (!A::is_4state) {
        ::logic::bit<0> w;
        w.value = v;
        s = a;
        s.set(i, w);
        isset(s, a, p, v, false, "set writes the bit at the index and nothing else");
    } else {
        ::logic::logic<0> w;
        bool m = (bool)sym<1>("m");
        w.value.value = v;
        w.xz_mask.value = m;
        s = a;
        s.set(i, w);
        isset(s, a, p, v, m, "set writes the four-state bit at the index and nothing else");
    }
}
template <template <int, int, bool> class K, int hi, int lo, bool sg> void h_setx() {
    using A = K<hi, lo, sg>;
    VP_IN(A, a);
    int i = symint("i");
    int64_t p = pos<hi, lo>(i);
    A s = a;
    s.set_x(i);
    isset(s, a, p, false, true, "set_x makes the bit x and changes nothing else");
    s = a;
    s.set_z(i);
    isset(s, a, p, true, true, "set_z makes the bit z and changes nothing else");
    bool x = false, z = false;
    if (in<W<A>>(p)) { bool m = at<W<A>>(xz(a), p), v = at<W<A>>(val(a), p); x = m && !v; z = m && v; }
    vp_assert(a.x_set(i) == x, "x_set tells whether the bit is x");
    vp_assert(a.z_set(i) == z, "z_set tells whether the bit is z");
    VP_FRAME(a);
}
// constant indices: every one of the declared range
template <template <int, int, bool> class K, int hi, int lo, bool sg, size_t... I> void set_all(const K<hi, lo, sg> &a, bool v, std::index_sequence<I...>) {
    using A = K<hi, lo, sg>;
    auto one = [&]<int i>() {
        int64_t p = pos<hi, lo>(i);
        if constexpr (requires { a.template get<i>(); }) {
            bool gv, gm;
            want(a, p, gv, gm);
            bit1(a.template get<i>(), gv, gm, "get<i> yields bit i");
        }
        A s = a;
        s.template set<i>(v);
        isset(s, a, p, v, false, "set<i> writes bit i and nothing else");
        s = a;
        s.template set<i, true>();
        isset(s, a, p, true, false, "set<i, v> writes bit i and nothing else");
        s = a;
        s.template set<i, false>();
        isset(s, a, p, false, false, "set<i, v> writes bit i and nothing else");
        if constexpr (!A::is_4state) {
            s = a;
            s.template set<i>(bit<0>(v));
            isset(s, a, p, v, false, "set<i> writes the two-state bit at i and nothing else");
        }
        if constexpr (A::is_4state) {
            s = a;
            s.template set_x<i>();
            isset(s, a, p, false, true, "set_x<i> makes bit i x and changes nothing else");
            s = a;
            s.template set_z<i>();
            isset(s, a, p, true, true, "set_z<i> makes bit i z and changes nothing else");
            bool m = at<W<A>>(xz(a), p), b = at<W<A>>(val(a), p);
            vp_assert(a.template x_set<i>() == (m && !b) && a.template z_set<i>() == (m && b), "x_set<i> and z_set<i> tell whether bit i is x or z");
        }
    };
    (one.template operator()<(hi < lo ? hi : lo) + (int)I>(), ...);
}
template <template <int, int, bool> class K, int hi, int lo, bool sg> void h_sett() {
    using A = K<hi, lo, sg>;
    VP_IN(A, a);
    bool v = (bool)sym<1>("v");
    set_all<K, hi, lo, sg>(a, v, std::make_index_sequence<W<A>>{});
    VP_FRAME(a);
}
}  // namespace vp
