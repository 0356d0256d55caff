// concatenation and unpacking
#pragma once
#include "vp.hh"
namespace vp {
template <class... P> inline constexpr unsigned SUM = (0u + ... + W<P>);
// the operands from most to least significant
template <unsigned M, class... P> U<M> join(const P &...p) {
    U<M> r = 0;
    unsigned at = M;
    auto one = [&]<class Q>(const Q &q) {
        at -= W<Q>;
        r |= (U<M>)val(q) << at;
    };
    (one(p), ...);
    return r;
}
template <unsigned M, class... P> U<M> joinx(const P &...p) {
    U<M> r = 0;
    unsigned at = M;
    auto one = [&]<class Q>(const Q &q) {
        at -= W<Q>;
        r |= (U<M>)xz(q) << at;
    };
    (one(p), ...);
    return r;
}
template <class R, class... P> void cat(const R &r, const P &...p) {
    constexpr unsigned M = SUM<P...>;
    vp_assert(W<R> == M, "a concatenation is as wide as its operands together");
    vp_assert(!R::is_signed, "a concatenation is unsigned");
    if constexpr (W<R> == M) {
        vp_assert(val(r) == join<M>(p...), "a concatenation holds every operand at its place");
        if constexpr (R::is_4state) vp_assert(xz(r) == joinx<M>(p...), "a concatenation holds x and z of every operand at its place");
        vp_assert(ok(r), "the result representation is canonical");
    }
}
template <class A, class B> void h_cat2() {
    VP_IN(A, a); VP_IN(B, b);
    cat(a.concat(b), a, b);
    cat(::logic::concat(a, b), a, b);
    VP_FRAME(a); VP_FRAME(b);
}
template <class A, class B, class C> void h_cat3() {
    VP_IN(A, a); VP_IN(B, b); VP_IN(C, c);
    cat(a.concat(b, c), a, b, c);
    cat(::logic::concat(a, b, c), a, b, c);
    VP_FRAME(a); VP_FRAME(b); VP_FRAME(c);
}
template <class A, class B, class C, class D> void h_cat4() {
    VP_IN(A, a); VP_IN(B, b); VP_IN(C, c); VP_IN(D, d);
    cat(a.concat(b, c, d), a, b, c, d);
    VP_FRAME(a); VP_FRAME(b); VP_FRAME(c); VP_FRAME(d);
}
template <class A, class P> void part(const A &a, const P &p, unsigned at) {
    vp_assert(val(p) == (U<W<P>>)(val(a) >> at), "unpacking assigns every target its own part");
    if constexpr (P::is_4state) vp_assert(xz(p) == (A::is_4state ? (U<W<P>>)(xz(a) >> at) : (U<W<P>>)0), "unpacking assigns every target x and z of its own part");
    vp_assert(ok(p), "the target's representation is canonical");
}
// A is at least as wide as the targets; the last target gets the least significant bits
template <class A, class P, class Q> void h_unpack2() {
    VP_IN(A, a); VP_IN(P, p); VP_IN(Q, q);
    a.unpack(p, q);
    part(a, q, 0);
    part(a, p, W<Q>);
    VP_FRAME(a);
}
template <class A, class P, class Q, class R> void h_unpack3() {
    VP_IN(A, a); VP_IN(P, p); VP_IN(Q, q); VP_IN(R, r);
    a.unpack(p, q, r);
    part(a, r, 0);
    part(a, q, W<R>);
    part(a, p, W<R> + W<Q>);
    VP_FRAME(a);
}
template <class A, class P> void h_unpack1() {
    VP_IN(A, a); VP_IN(P, p);
    a.unpack(p);
    part(a, p, 0);
    VP_FRAME(a);
}
template <class A, class B> void h_catun() {
    VP_IN(A, a); VP_IN(B, b);
    A p; B q;
    a.concat(b).unpack(p, q);
    vp_assert(same(p, a) && same(q, b), "unpacking a concatenation restores the operands");
    VP_FRAME(a); VP_FRAME(b);
}
}  // namespace vp
