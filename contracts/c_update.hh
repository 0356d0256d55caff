// part updates: update<a,b>(v), update(a, b, v), slice_ref
#pragma once
#include "c_slice.hh"
namespace vp {
// x with bits start .. start+T-1 replaced by v; positions outside of x are ignored
template <unsigned T, unsigned N> U<N> patch(U<N> x, int64_t start, U<T> v) {
    if (start <= -(int64_t)T || start >= (int64_t)N) return x;
    constexpr unsigned M = N + 2 * T;
    U<M> e = (U<M>)x << T;
    unsigned k = (unsigned)(start + (int64_t)T);
    e = (e & ~((U<M>)ones<T> << k)) | ((U<M>)v << k);
    return (U<N>)(e >> T);
}
template <unsigned T, class A, class O> void patched(const A &a, const A &a0, int64_t start, const O &o) {
    // a narrower operand is filled up with 0
    vp_assert(val(a) == patch<T, W<A>>(val(a0), start, (U<T>)val(o)), "an update writes the operand into exactly the selected bits");
    if constexpr (A::is_4state) vp_assert(xz(a) == patch<T, W<A>>(xz(a0), start, (U<T>)xz(o)), "an update writes x and z of the operand into exactly the selected bits");
    vp_assert(ok(a), "the result representation is canonical");
}
template <template <int, int, bool> class K, int hi, int lo, bool sg, int a_, int b_, class O> void h_update() {
    using A = K<hi, lo, sg>;
    constexpr int mn = a_ < b_ ? a_ : b_, mx = a_ < b_ ? b_ : a_;
    constexpr unsigned T = mx - mn + 1;
    VP_IN(A, a); VP_IN(O, o);
    A s = a;
    s.template update<a_, b_>(o);
    patched<T>(s, a, low<hi, lo>(mn, mx), o);
    s = a;
    s.template slice_ref<a_, b_>() = o;
    patched<T>(s, a, low<hi, lo>(mn, mx), o);
    VP_FRAME(a); VP_FRAME(o);
}
template <template <int, int, bool> class K, int hi, int lo, bool sg, unsigned T, class O> void h_rupdate() {
    using A = K<hi, lo, sg>;
    VP_IN(A, a); VP_IN(O, o);
    starts<hi, lo, T>([&](int s) {
        int e = s + (int)(T - 1);
        A u = a;
        u.update(e, s, o);
        patched<T>(u, a, low<hi, lo>(s, e), o);
        u = a;
        u.slice_ref(s, e) = o;
        patched<T>(u, a, low<hi, lo>(s, e), o);
    });
    VP_FRAME(a); VP_FRAME(o);
}
template <template <int, int, bool> class K, int hi, int lo, bool sg, unsigned T, class O, class B> void h_iupdate() {
    using A = K<hi, lo, sg>;
    VP_IN(A, a); VP_IN(O, o);
    B n;
    bases<hi, lo, T, B>(n, [&](int64_t s) {
        A u = a;
        u.template slice_ref<T, true>(n) = o;
        patched<T>(u, a, low<hi, lo>(s, s + (int)(T - 1)), o);
        u = a;
        u.template slice_ref<T, false>(n) = o;
        patched<T>(u, a, low<hi, lo>(s, s - (int)(T - 1)), o);
    });
    VP_FRAME(a); VP_FRAME(o);
}
}  // namespace vp
