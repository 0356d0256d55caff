// four-state bitwise operators: & | ^ ~ and their assignment forms
#pragma once
#include "vp.hh"
namespace vp {
template <class A, class B>
inline constexpr unsigned MX = W<A> > W<B> ? W<A> : W<B>;
// the unknown mask is widened like the value: an unknown sign bit is replicated
template <unsigned M, class A>
U<M> extm(U<W<A>> x) { return ext<M, A>(x); }

struct OpAnd {
    template <class A, class B> static auto ap(const A &a, const B &b) { return a & b; }
    template <class A, class B> static auto &as(A &a, const B &b) { return a &= b; }
    template <unsigned M> static U<M> one(U<M> a1, U<M> a0, U<M> b1, U<M> b0) { return a1 & b1; }
    template <unsigned M> static U<M> zero(U<M> a1, U<M> a0, U<M> b1, U<M> b0) { return a0 | b0; }
};
struct OpOr {
    template <class A, class B> static auto ap(const A &a, const B &b) { return a | b; }
    template <class A, class B> static auto &as(A &a, const B &b) { return a |= b; }
    template <unsigned M> static U<M> one(U<M> a1, U<M> a0, U<M> b1, U<M> b0) { return a1 | b1; }
    template <unsigned M> static U<M> zero(U<M> a1, U<M> a0, U<M> b1, U<M> b0) { return a0 & b0; }
};
struct OpXor {
    template <class A, class B> static auto ap(const A &a, const B &b) { return a ^ b; }
    template <class A, class B> static auto &as(A &a, const B &b) { return a ^= b; }
    template <unsigned M> static U<M> one(U<M> a1, U<M> a0, U<M> b1, U<M> b0) { return (a1 & b0) | (a0 & b1); }
    template <unsigned M> static U<M> zero(U<M> a1, U<M> a0, U<M> b1, U<M> b0) { return (a1 & b1) | (a0 & b0); }
};
template <class A, class B, class R>
void shape(const R &) {
    vp_assert(W<R> == MX<A, B>, "result width is the larger operand width");
    vp_assert(R::is_signed == (A::is_signed && B::is_signed), "result is signed iff both operands are signed");
}
template <class Op, class A, class B>
void h_bin() {
    VP_IN(A, a); VP_IN(B, b);
    auto r = Op::ap(a, b);
    constexpr unsigned M = MX<A, B>;
    shape<A, B>(r);
    U<M> av = ext<M, A>(val(a)), am = extm<M, A>(xz(a)), bv = ext<M, B>(val(b)), bm = extm<M, B>(xz(b));
    U<M> a1 = av & ~am, a0 = ~av & ~am, b1 = bv & ~bm, b0 = ~bv & ~bm;
    U<M> one = Op::template one<M>(a1, a0, b1, b0), zero = Op::template zero<M>(a1, a0, b1, b0);
    vp_assert(val(r) == one, "every result bit is 1 exactly where the truth table says 1 (x elsewhere is encoded with value 0)");
    vp_assert(xz(r) == (U<M>)~(one | zero), "every result bit is x exactly where the truth table says neither 0 nor 1");
    vp_assert(ok(r), "the result representation is canonical");
    VP_FRAME(a); VP_FRAME(b);
}
template <class Op, class A, class B>
void h_asg() {
    VP_IN(A, a); VP_IN(B, b);
    auto &r = Op::as(a, b);
    constexpr unsigned M = MX<A, B>, N = W<A>;
    U<M> av = ext<M, A>(val(a_0)), am = extm<M, A>(xz(a_0)), bv = ext<M, B>(val(b)), bm = extm<M, B>(xz(b));
    U<M> a1 = av & ~am, a0 = ~av & ~am, b1 = bv & ~bm, b0 = ~bv & ~bm;
    U<M> one = Op::template one<M>(a1, a0, b1, b0), zero = Op::template zero<M>(a1, a0, b1, b0);
    vp_assert((const void *)&r == (const void *)&a, "assignment returns the object itself");
    vp_assert(val(a) == (U<N>)one, "assignment stores the truth table result cut to the width");
    vp_assert(xz(a) == (U<N>)~(one | zero), "assignment stores x exactly where the truth table says neither 0 nor 1");
    vp_assert(ok(a), "the result representation is canonical");
    VP_FRAME(b);
}
template <class A>
void h_not() {
    VP_IN(A, a);
    auto r = ~a;
    constexpr unsigned N = W<A>;
    vp_assert(W<decltype(r)> == N, "negation keeps the width");
    vp_assert(val(r) == (U<N>)(~val(a) & ~xz(a)), "every known bit is inverted, x/z has value 0");
    vp_assert(xz(r) == xz(a), "negation of x/z is x, of 0/1 is known");
    vp_assert(ok(r), "the result representation is canonical");
    VP_FRAME(a);
}
}  // namespace vp
