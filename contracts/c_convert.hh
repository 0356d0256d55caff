// construction, assignment, extension, conversion
#pragma once
#include "vp.hh"
#include <type_traits>
namespace vp {
// the C++ integer v as an M bit number: extended by its own signedness, or cut
template <unsigned M, class T> U<M> num(T v) {
    if constexpr (std::is_same_v<T, bool>) return (U<M>)(v ? 1u : 0u);
    else if constexpr (std::is_signed_v<T>) return (U<M>)(S<(M > 64 ? M : 64)>)v;
    else return (U<M>)v;
}
template <class T> T symnum(const char *n) {
    if constexpr (std::is_same_v<T, bool>) return (bool)sym<1>(n);
    else return (T)sym<sizeof(T) * 8>(n);
}
template <class A> void holds(const A &a, U<W<A>> v, U<W<A>> m, const char *what) {
    vp_assert(val(a) == v, what);
    if constexpr (A::is_4state) vp_assert(xz(a) == m, what);
    vp_assert(ok(a), "the representation is canonical");
}
template <class A> void h_default() {
    A a;
    holds(a, (U<W<A>>)0, ones<W<A>>, "a new vector is all x (all 0 for two-state)");
}
template <class A, class T> void h_fromint() {
    T v = symnum<T>("v");
    constexpr unsigned N = W<A>;
    if constexpr (N > 1 || std::is_same_v<T, bool>) {
        A a(v);
        holds(a, num<N>(v), (U<N>)0, "a vector made from an integer is the integer modulo 2 to the width");
    }
    VP_IN(A, b);
    auto &r = (b = v);
    vp_assert((const void *)&r == (const void *)&b, "assignment returns the object itself");
    holds(b, num<N>(v), (U<N>)0, "assigning an integer stores it modulo 2 to the width");
}
// two-state values and masks of x/z are extended alike
template <class A, class B> void h_assign() {
    VP_IN(A, a); VP_IN(B, b);
    constexpr unsigned N = W<A>;
    auto &r = (a = b);
    vp_assert((const void *)&r == (const void *)&a, "assignment returns the object itself");
    holds(a, ext<N, B>(val(b)), ext<N, B>(xz(b)), "assignment extends by the signedness of the source or cuts");
    VP_FRAME(b);
}
template <class A, class B> void h_construct() {
    VP_IN(B, b);
    constexpr unsigned N = W<A>;
    A a(b);
    holds(a, ext<N, B>(val(b)), ext<N, B>(xz(b)), "construction extends by the signedness of the source or cuts");
    VP_FRAME(b);
}
template <class A, unsigned M> void h_extend() {
    VP_IN(A, a);
    auto r = a.template extend<M>();
    using R = decltype(r);
    vp_assert(W<R> == M && R::is_signed == A::is_signed && R::is_4state == A::is_4state, "extension has the requested width and keeps the signedness");
    if constexpr (W<R> == M) {
        holds(r, ext<M, A>(val(a)), ext<M, A>(xz(a)), "extension replicates the sign bit of a signed vector (x and z as well), otherwise 0");
        if constexpr (M > W<A>) {
            VP_IN(A, b);
            b = r;
            holds(b, val(a), xz(a), "going through a wider vector restores the value");
        }
    }
    VP_FRAME(a);
}
template <class A> void h_signs() {
    VP_IN(A, a);
    constexpr unsigned N = W<A>;
    if constexpr (N > 1) {
        auto s = a.to_signed();
        vp_assert(W<decltype(s)> == N && decltype(s)::is_signed, "to_signed keeps the width");
        holds(s, val(a), xz(a), "to_signed keeps every bit");
    }
    auto u = a.to_unsigned();
    vp_assert(W<decltype(u)> == N && !decltype(u)::is_signed, "to_unsigned keeps the width");
    holds(u, val(a), xz(a), "to_unsigned keeps every bit");
    A c(a);
    holds(c, val(a), xz(a), "a copy has the same bits");
    vp_assert(a.to_uint64() == (xz(a) != 0 ? (uint64_t)0 : (uint64_t)ext<64, A>(val(a))), "to_uint64 is the value modulo 2^64, 0 with x or z");
    if constexpr (N <= 64) {
        auto n = a.to_num();
        vp_assert(std::is_signed_v<decltype(n)> == (A::is_signed && N > 1), "to_num has the signedness of the vector");
        vp_assert(num<64>(n) == (xz(a) != 0 ? (U<64>)0 : ext<64, A>(val(a))), "to_num is the value, 0 with x or z");
    }
    VP_FRAME(a);
}
// two-state to four-state
template <class A, class B> void h_lift() {
    VP_IN(B, b);
    A a(b);
    holds(a, val(b), (U<W<A>>)0, "a four-state vector made from a two-state one has the same bits, all known");
    VP_FRAME(b);
}
// a native vector from a big number
template <class A, unsigned M, bool sg> void h_frombn() {
    U<M> x = sym<M>("x");
    big_num<M, sg> n;
    storen(n, x);
    A a(n);
    holds(a, (U<W<A>>)x, (U<W<A>>)0, "a vector made from a big number is the number modulo 2 to the width");
    vp_assert(rawn(n) == x, "frame: the big number is unchanged");
}
inline void h_literals() {
    using namespace ::logic::literals;
    unsigned long long v = (uint64_t)sym<64>("v");
    auto a = ::logic::literals::operator""_logic(v);
    vp_assert(W<decltype(a)> == 32 && decltype(a)::is_signed, "a literal is 32 bit signed");
    holds(a, (U<32>)v, (U<32>)0, "a literal is the number");
    auto b = ::logic::literals::operator""_logic64(v);
    vp_assert(W<decltype(b)> == 64 && decltype(b)::is_signed, "a 64 bit literal is 64 bit signed");
    holds(b, (U<64>)v, (U<64>)0, "a literal is the number");
    auto c = ::logic::literals::operator""_bit(v);
    vp_assert(W<decltype(c)> == 32 && decltype(c)::is_signed, "a literal is 32 bit signed");
    holds(c, (U<32>)v, (U<32>)0, "a literal is the number");
    auto d = ::logic::literals::operator""_bit64(v);
    vp_assert(W<decltype(d)> == 64 && decltype(d)::is_signed, "a 64 bit literal is 64 bit signed");
    holds(d, (U<64>)v, (U<64>)0, "a literal is the number");
}
}  // namespace vp
