// relational operators, logical equality, case equality (match)
#pragma once
#include "c_arith.hh"
#include "c_reduce.hh"
namespace vp {
template <class A, class B> struct Cmp {
    static constexpr unsigned M = MX<A, B>;
    bool eq, lt, u;
    Cmp(const A &a, const B &b) {
        U<M> x = ext<M, A>(val(a)), y = ext<M, B>(val(b));
        eq = x == y;
        if constexpr (A::is_signed && B::is_signed) lt = (S<M>)x < (S<M>)y;
        else lt = x < y;
        u = anyx(a, b);
    }
    Tri t(bool v) const { return {!u && v, !u && !v}; }
};
template <class A, class B> void h_cmp() {
    VP_IN(A, a); VP_IN(B, b);
    Cmp<A, B> c(a, b);
    tri(a == b, c.t(c.eq), "== is x if an operand bit is unknown, else whether the extended values are equal");
    tri(a != b, c.t(!c.eq), "!= is x if an operand bit is unknown, else whether the extended values differ");
    tri(a < b, c.t(c.lt), "< orders the extended values, signed only if both operands are signed, x if an operand bit is unknown");
    tri(a > b, c.t(!c.lt && !c.eq), "> orders the extended values, signed only if both operands are signed, x if an operand bit is unknown");
    tri(a <= b, c.t(c.lt || c.eq), "<= orders the extended values, signed only if both operands are signed, x if an operand bit is unknown");
    tri(a >= b, c.t(!c.lt), ">= orders the extended values, signed only if both operands are signed, x if an operand bit is unknown");
    VP_FRAME(a); VP_FRAME(b);
}
// a two-state vector on the left, a four-state one on the right: unknown is false
template <class A, class B> void h_cmpb() {
    VP_IN(A, a); VP_IN(B, b);
    Cmp<A, B> c(a, b);
    vp_assert((a < b) == (!c.u && c.lt), "two-state < four-state orders the extended values, false if an operand bit is unknown");
    vp_assert((a > b) == (!c.u && !c.lt && !c.eq), "two-state > four-state orders the extended values, false if an operand bit is unknown");
    vp_assert((a <= b) == (!c.u && (c.lt || c.eq)), "two-state <= four-state orders the extended values, false if an operand bit is unknown");
    vp_assert((a >= b) == (!c.u && !c.lt), "two-state >= four-state orders the extended values, false if an operand bit is unknown");
    VP_FRAME(a); VP_FRAME(b);
}
template <class A, class B> void h_match() {
    VP_IN(A, a); VP_IN(B, b);
    constexpr unsigned M = MX<A, B>;
    bool m = ext<M, A>(val(a)) == ext<M, B>(val(b)) && extm<M, A>(xz(a)) == extm<M, B>(xz(b));
    vp_assert(a.match(b) == m, "match is exact: every bit, including x and z, has to be the same");
    vp_assert(a.nmatch(b) == !m, "nmatch is the negation of match");
    VP_FRAME(a); VP_FRAME(b);
}
}  // namespace vp
