// packed arrays: elements and element slices are parts of the flat vector; whole-array operators
#pragma once
#include "c_compare.hh"
#include "c_update.hh"
namespace vp {
template <class T, int hi, int lo> using PA = ::logic::packed_array<T, hi, lo>;
template <class T, int hi, int lo> struct ArrOf {
    using T_ = T;
    static constexpr unsigned E = T::size, n = (hi < lo ? lo - hi : hi - lo) + 1;
    // position of the least significant bit of element i
    static constexpr int64_t at(int64_t i) { return (hi >= lo ? i - lo : lo - i) * (int64_t)E; }
};
// every value of an index type, each value in the declared bounds on its own, then the others at once; f(index, in the bounds)
template <int hi, int lo, class I, class F> void indices(I &n, F f) {
    constexpr int mn = hi < lo ? hi : lo, mx = hi < lo ? lo : hi;
    constexpr unsigned M = W<I>;
    U<M> v = sym<M>("n"), m = 0;
    if constexpr (I::is_4state) m = sym<M>("n.xz");
    constexpr unsigned X = (M > 64 ? M : 64) + 2;
    S<X> s = (S<X>)ext<X, I>(v);
    bool inside = m == 0 && s >= mn && s <= mx;
    if (vp_symbolic()) {
        for (int k = mn; k <= mx; k++) {
            U<M> c = (U<M>)(S<X>)k;
            if ((S<X>)ext<X, I>(c) != k) continue;
            put(n, c, (U<M>)0);
            f((int64_t)k, true);
        }
        if (!inside) {
            put(n, v, m);
            f((int64_t)0, false);
        }
    } else {
        // an arbitrary value is rarely an index: fold most of them into the bounds
        if ((v & 7) != 7) { v = (U<M>)(S<X>)(mn + (int)((uint64_t)v >> 3) % (mx - mn + 1)); s = (S<X>)ext<X, I>(v); inside = s >= mn && s <= mx; m = inside ? 0 : m; }
        put(n, v, m);
        f(inside ? (int64_t)s : (int64_t)0, inside);
    }
}
// a[n] for every index value n
template <class T, int hi, int lo, class I> void h_elem() {
    using A = PA<T, hi, lo>;
    constexpr unsigned E = T::size;
    static_assert(A::size == E * ArrOf<T, hi, lo>::n);
    VP_IN(A, a);
    I n;
    indices<hi, lo>(n, [&](int64_t i, bool inside) {
        const I k = n;
        auto r = a[n];
        using R = decltype(r);
        vp_assert(W<R> == E && R::is_4state == T::is_4state, "an element has the element width and state count");
        if constexpr (W<R> == E) {
            U<E> v = 0, m = T::is_4state ? ones<E> : (U<E>)0;
            if (inside) {
                v = window<E, W<A>>(val(a), ArrOf<T, hi, lo>::at(i), false);
                m = window<E, W<A>>(xz(a), ArrOf<T, hi, lo>::at(i), false);
            }
            vp_assert(val(r) == v, "reading an element yields exactly its part of the flat vector, 0 outside of the bounds or for an unknown index");
            vp_assert(xz(r) == m, "reading an element yields x and z of exactly its part of the flat vector, x outside of the bounds or for an unknown index");
            vp_assert(ok(r), "the result representation is canonical");
        }
        vp_assert(same(n, k), "frame: the index is unchanged");
    });
    VP_FRAME(a);
}
// a.update(n, o) for every index value n
template <class T, int hi, int lo, class I, class O> void h_eupdate() {
    using A = PA<T, hi, lo>;
    constexpr unsigned E = T::size;
    VP_IN(A, a); VP_IN(O, o);
    I n;
    indices<hi, lo>(n, [&](int64_t i, bool inside) {
        A u = a;
        u.update(n, o);
        if (inside) patched<E>(u, a, ArrOf<T, hi, lo>::at(i), o);
        else vp_assert(same(u, a), "writing outside of the bounds or with an unknown index changes nothing");
    });
    VP_FRAME(a); VP_FRAME(o);
}
// constant element slices
template <class T, int hi, int lo, int x, int y> void h_aslice() {
    using A = PA<T, hi, lo>;
    using D = ArrOf<T, hi, lo>;
    constexpr int64_t p = D::at(x) < D::at(y) ? D::at(x) : D::at(y);
    constexpr unsigned N = D::E * ((x < y ? y - x : x - y) + 1);
    VP_IN(A, a);
    auto r = a.template slice_array<x, y>();
    using R = decltype(r);
    vp_assert(W<R> == N && !R::is_signed && R::is_4state == T::is_4state, "an element slice has the width of its elements and is unsigned");
    if constexpr (W<R> == N) {
        vp_assert(val(r) == (U<N>)(val(a) >> p), "an element slice holds exactly the selected elements in order");
        vp_assert(xz(r) == (U<N>)(xz(a) >> p), "an element slice keeps x and z of exactly the selected elements");
        vp_assert(ok(r), "the result representation is canonical");
    }
    VP_FRAME(a);
}
template <class T, int hi, int lo, int x, int y, class O> void h_aupdate() {
    using A = PA<T, hi, lo>;
    using D = ArrOf<T, hi, lo>;
    constexpr int64_t p = D::at(x) < D::at(y) ? D::at(x) : D::at(y);
    constexpr unsigned N = D::E * ((x < y ? y - x : x - y) + 1);
    VP_IN(A, a); VP_IN(O, o);
    A u = a;
    u.template update<x, y>(o);
    patched<N>(u, a, p, o);
    VP_FRAME(a); VP_FRAME(o);
}
// operators on the whole array act on the flat vector
template <class T, int hi, int lo, class B> void h_whole() {
    using A = PA<T, hi, lo>;
    constexpr unsigned N = W<A>, M = MX<A, B>;
    A d;
    vp_assert(val(d) == 0 && xz(d) == (T::is_4state ? ones<N> : (U<N>)0), "an array without initializer is all x (0 for two-state)");
    VP_IN(A, a); VP_IN(B, b);
    U<M> av = ext<M, A>(val(a)), am = ext<M, A>(xz(a)), bv = ext<M, B>(val(b)), bm = ext<M, B>(xz(b));
    auto r = a & b;
    U<M> one = (av & ~am) & (bv & ~bm), zero = (~av & ~am) | (~bv & ~bm);
    vp_assert(W<decltype(r)> == M && val(r) == one && xz(r) == (U<M>)~(one | zero), "& on the whole array");
    auto s = a + b;
    vp_assert(W<decltype(s)> == M, "width of a sum");
    known_or_x(s, (U<M>)(av + bv), anyx(a, b));
    auto x = ~a;
    vp_assert(val(x) == (U<N>)(~val(a) & ~xz(a)) && xz(x) == xz(a), "~ on the whole array");
    Cmp<A, B> c(a, b);
    tri(a == b, c.t(c.eq), "== on the whole array");
    tri(a < b, c.t(c.lt), "< on the whole array");
    auto o = a.r_or();
    if constexpr (T::is_4state) vp_assert((bool)val(o) == ((val(a) & ~xz(a)) != 0) && (bool)xz(o) == ((val(a) & ~xz(a)) == 0 && xz(a) != 0), "reduction of the whole array");
    else vp_assert((bool)o == (val(a) != 0), "reduction of the whole array");
    VP_FRAME(a); VP_FRAME(b);
    // copies
    A e = a;
    vp_assert(same(e, a), "a copy has the same elements");
    d = a;
    vp_assert(same(d, a), "assignment copies every element");
}
// from an integer
template <class T, int hi, int lo, class V> void h_afrom() {
    using A = PA<T, hi, lo>;
    constexpr unsigned N = W<A>;
    V v;
    if constexpr (std::is_same_v<V, bool>) v = (bool)sym<1>("v");
    else { U<sizeof(V) * 8> y = sym<sizeof(V) * 8>("v"); v = (V)y; }
    A a(v);
    vp_assert(val(a) == (U<N>)(S<(N > 64 ? N : 64) + 2>)v && xz(a) == 0, "an array from an integer holds its value");
    vp_assert(ok(a), "the result representation is canonical");
}
}  // namespace vp
