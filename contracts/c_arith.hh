// addition, subtraction, negation, increment, decrement
#pragma once
#include "c_bitwise.hh"
namespace vp {
template <class A, class B> bool anyx(const A &a, const B &b) { return xz(a) != 0 || xz(b) != 0; }
// a result of a known operation, or all x when an operand bit is unknown
template <class R> void known_or_x(const R &r, U<W<R>> v, bool unknown) {
    constexpr unsigned N = W<R>;
    if constexpr (R::is_4state) {
        vp_assert(xz(r) == (unknown ? ones<N> : (U<N>)0), "every result bit is x if an operand bit is unknown, otherwise every result bit is known");
        vp_assert(val(r) == (unknown ? (U<N>)0 : v), "the result is the exact result modulo 2 to the width (x is encoded with value 0)");
    } else {
        vp_assert(val(r) == v, "the result is the exact result modulo 2 to the width");
    }
    vp_assert(ok(r), "the result representation is canonical");
}
struct OpAdd {
    template <class A, class B> static auto ap(const A &a, const B &b) { return a + b; }
    template <unsigned M> static U<M> f(U<M> a, U<M> b) { return a + b; }
};
struct OpSub {
    template <class A, class B> static auto ap(const A &a, const B &b) { return a - b; }
    template <unsigned M> static U<M> f(U<M> a, U<M> b) { return a - b; }
};
template <class Op, class A, class B> void h_ar() {
    VP_IN(A, a); VP_IN(B, b);
    auto r = Op::ap(a, b);
    constexpr unsigned M = MX<A, B>;
    shape<A, B>(r);
    known_or_x(r, Op::template f<M>(ext<M, A>(val(a)), ext<M, B>(val(b))), anyx(a, b));
    VP_FRAME(a); VP_FRAME(b);
}
template <class A> void h_neg() {
    VP_IN(A, a);
    constexpr unsigned N = W<A>;
    auto r = -a;
    vp_assert(W<decltype(r)> == N && decltype(r)::is_signed == A::is_signed, "unary minus keeps width and signedness");
    known_or_x(r, (U<N>)((U<N>)0 - val(a)), xz(a) != 0);
    auto p = +a;
    vp_assert(W<decltype(p)> == N && decltype(p)::is_signed == A::is_signed, "unary plus keeps width and signedness");
    known_or_x(p, val(a), xz(a) != 0);
    VP_FRAME(a);
}
template <class A> void h_negate() {
    VP_IN(A, a);
    const A &c = a;
    auto r = c.negate();
    known_or_x(r, (U<W<A>>)((U<W<A>>)0 - val(a)), false);
    VP_FRAME(a);
    a.negate();
    known_or_x(a, (U<W<A>>)((U<W<A>>)0 - val(a_0)), false);
}
template <class A> void h_inc() {
    VP_IN(A, a);
    constexpr unsigned N = W<A>;
    bool u = xz(a) != 0;
    A i = a;
    auto &r = ++i;
    vp_assert((const void *)&r == (const void *)&i, "++ returns the object itself");
    known_or_x(i, (U<N>)(val(a) + (U<N>)1), u);
    A j = a;
    auto o = j++;
    known_or_x(j, (U<N>)(val(a) + (U<N>)1), u);
    vp_assert(val(o) == val(a) && xz(o) == xz(a) && W<decltype(o)> == N && ok(o), "postfix ++ returns the old value");
    VP_FRAME(a);
}
template <class A> void h_dec() {
    VP_IN(A, a);
    constexpr unsigned N = W<A>;
    bool u = xz(a) != 0;
    A i = a;
    auto &r = --i;
    vp_assert((const void *)&r == (const void *)&i, "-- returns the object itself");
    known_or_x(i, (U<N>)(val(a) - (U<N>)1), u);
    A j = a;
    auto o = j--;
    known_or_x(j, (U<N>)(val(a) - (U<N>)1), u);
    vp_assert(val(o) == val(a) && xz(o) == xz(a) && W<decltype(o)> == N && ok(o), "postfix -- returns the old value");
    VP_FRAME(a);
}
}  // namespace vp
