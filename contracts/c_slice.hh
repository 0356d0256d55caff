// part selects: slice<a,b>(), slice<w>(a, b), slice<w, up>(base)
#pragma once
#include "c_index.hh"
namespace vp {
// K declared [hi:lo] with hi >= lo; the slice [max(a,b):min(a,b)] starts at position min(a,b)-lo
template <template <int, int, bool> class K, int hi, int lo, bool sg, int a_, int b_> void h_slice() {
    using A = K<hi, lo, sg>;
    constexpr int mn = a_ < b_ ? a_ : b_, mx = a_ < b_ ? b_ : a_;
    constexpr unsigned p = mn - lo, T = mx - mn + 1;
    VP_IN(A, a);
    auto r = a.template slice<a_, b_>();
    using R = decltype(r);
    vp_assert(W<R> == T && !R::is_signed && R::is_4state == A::is_4state, "a slice has the selected width and is unsigned");
    if constexpr (W<R> == T) {
        vp_assert(val(r) == (U<T>)(val(a) >> p), "a slice holds exactly the selected bits");
        if constexpr (R::is_4state) vp_assert(xz(r) == (U<T>)(xz(a) >> p), "a slice keeps x and z of exactly the selected bits");
        vp_assert(ok(r), "the result representation is canonical");
    }
    VP_FRAME(a);
}
// bits start .. start+T-1 of x, `out` for positions outside of it
template <unsigned T, unsigned N> U<T> window(U<N> x, int64_t start, bool out) {
    if (start <= -(int64_t)T || start >= (int64_t)N) return out ? ones<T> : (U<T>)0;
    constexpr unsigned M = N + 2 * T;
    U<M> e = (U<M>)x << T;
    if (out) e |= ((U<M>)ones<T> << (N + T)) | (U<M>)ones<T>;
    return (U<T>)(e >> (unsigned)(start + (int64_t)T));
}
template <class R, class A, unsigned T> void iswin(const R &r, const A &a, int64_t start) {
    vp_assert(W<R> == T && !R::is_signed && R::is_4state == A::is_4state, "a slice has the selected width and is unsigned");
    if constexpr (W<R> == T) {
        vp_assert(val(r) == window<T, W<A>>(val(a), start, false), "a slice holds exactly the selected bits, 0 outside of the declared range");
        if constexpr (R::is_4state) vp_assert(xz(r) == window<T, W<A>>(xz(a), start, true), "a slice keeps x and z of exactly the selected bits and is x outside of the declared range");
        vp_assert(ok(r), "the result representation is canonical");
    }
}
// position of the least significant selected bit
template <int hi, int lo> int64_t low(int64_t a, int64_t b) {
    int64_t p = pos<hi, lo>(a), q = pos<hi, lo>(b);
    return p < q ? p : q;
}
// a case split over the start index: every start for which the slice touches the declared range, a few
// beyond on both sides, and all the other ones (about 2^29 away) at once
template <int hi, int lo, unsigned T, class F> void starts(F f) {
    constexpr int mn = (hi < lo ? hi : lo) - (int)T - 1, mx = (hi < lo ? lo : hi) + (int)T + 1;
    int d = (int)(unsigned)sym<29>("start");
    bool up = (bool)sym<1>("above");
    if (vp_symbolic()) {
        for (int k = mn; k <= mx; k++) f(k);
        if (up) f(mx + 1 + d);
        else f(mn - 1 - d);
    } else {
        f(d % 3 ? mn + d % (mx - mn + 1) : up ? mx + 1 + d : mn - 1 - d);
    }
}
template <template <int, int, bool> class K, int hi, int lo, bool sg, unsigned T> void h_rslice() {
    using A = K<hi, lo, sg>;
    VP_IN(A, a);
    starts<hi, lo, T>([&](int s) {
        int e = s + (int)(T - 1);
        iswin<decltype(a.template slice<T>(e, s)), A, T>(a.template slice<T>(e, s), a, low<hi, lo>(s, e));
        iswin<decltype(a.template slice<T>(e, s)), A, T>(a.template slice<T>(s, e), a, low<hi, lo>(s, e));
    });
    VP_FRAME(a);
}
// the values of an index type B as starts; n is set to each of them
template <int hi, int lo, unsigned T, class B, class F> void bases(B &n, F f) {
    constexpr int mn = (hi < lo ? hi : lo) - (int)T - 1, mx = (hi < lo ? lo : hi) + (int)T + 1;
    constexpr unsigned M = W<B>;
    U<M> v = sym<M>("n");
    int64_t s = (int64_t)(uint64_t)ext<64, B>(v);
    vp_assume(s > -(1 << 30) && s < (1 << 30));
    if (vp_symbolic()) {
        for (int64_t k = mn; k <= mx; k++) {
            U<M> c = (U<M>)(uint64_t)k;
            if ((int64_t)(uint64_t)ext<64, B>(c) != k) continue;
            put(n, c, (U<M>)0);
            f(k);
        }
        if (s < mn || s > mx) {
            put(n, v, (U<M>)0);
            f(s);
        }
    } else {
        put(n, v, (U<M>)0);
        f(s);
    }
}
template <template <int, int, bool> class K, int hi, int lo, bool sg, unsigned T, class B> void h_islice() {
    using A = K<hi, lo, sg>;
    VP_IN(A, a);
    B n;
    bases<hi, lo, T, B>(n, [&](int64_t s) {
        auto u = a.template slice<T, true>(n);
        iswin<decltype(u), A, T>(u, a, low<hi, lo>(s, s + (int)(T - 1)));
        auto d = a.template slice<T, false>(n);
        iswin<decltype(d), A, T>(d, a, low<hi, lo>(s, s - (int)(T - 1)));
    });
    VP_FRAME(a);
}
}  // namespace vp
