// multiplication
#pragma once
#include "c_arith.hh"
namespace vp {
// x * y, in N bits.  In the proof of big_num::operator* it is uninterpreted: only l_limbs (lemmas.lean) is known about it.
template <bool open, unsigned N> struct NatMul {
    static U<N> product(U<N> x, U<N> y) {
        if constexpr (open) return x * y;
        U<2 * N> a = ((U<2 * N>)x << N) | y;
        U<N> z = 0;
        vp_uf("product", &a, 2 * N, &z, N);
        return z;
    }
    // the sum over i, j of x_i * y_j * 2^(64 * (i + j)), x_i and y_j being the 64-bit limbs of x and y
    static U<N> limbs(U<N> x, U<N> y) {
        constexpr unsigned s = (N + 63) / 64;
        U<N> z = 0;
        for (unsigned i = 0; i < s; i++)
            for (unsigned j = 0; i + j < s; j++) {
                U<128> c = (U<128>)(uint64_t)(x >> (64 * i)) * (U<128>)(uint64_t)(y >> (64 * j));
                z += (U<N>)c << (64 * (i + j));
            }
        return z;
    }
    static bool l_limbs(U<N> x, U<N> y) { return product(x, y) == limbs(x, y); }
};
template <uint64_t N, bool A, bool B> big_num<N, (A && B)> bn_add(const big_num<N, A> *a, const big_num<N, B> &b) {
    big_num<N, (A && B)> r;
    storen(r, (U<N>)(rawn(*a) + rawn(b)));
    return r;
}
template <uint64_t N, bool A, bool B> big_num<N, (A && B)> bn_mul(const big_num<N, A> *a, const big_num<N, B> &b) {
    big_num<N, (A && B)> r;
    storen(r, (U<N>)(rawn(*a) * rawn(b)));
    return r;
}
template <uint64_t N, bool A, bool B> void use_add() {
    using X = big_num<N, A>;
    using R = big_num<N, (A && B)>;
    using Op = R (X::*)(const big_num<N, B> &) const;
    VP_USE_MEMBER(Op, &X::template operator+<B>, (&bn_add<N, A, B>));
}
template <uint64_t N, bool A, bool B> void use_mul() {
    using X = big_num<N, A>;
    using R = big_num<N, (A && B)>;
    using Op = R (X::*)(const big_num<N, B> &) const;
    VP_USE_MEMBER(Op, &X::template operator*<B>, (&bn_mul<N, A, B>));
}
// the contract of +, proved
template <uint64_t N, bool A, bool B> void h_bnadd() {
    U<N> x = sym<N>("a"), y = sym<N>("b");
    big_num<N, A> a;
    big_num<N, B> b;
    storen(a, x); storen(b, y);
    auto r = a + b;
    vp_assert(std::is_same_v<decltype(r), big_num<N, (A && B)>> && rawn(r) == (U<N>)(x + y) && wfn(r), "+ is exact modulo 2 to the width");
    vp_assert(rawn(a) == x && rawn(b) == y, "frame: the operands are unchanged");
}
// multiplication of two numbers of the same width
template <uint64_t N, bool A, bool B> void h_bnmul() {
    U<N> x = sym<N>("a"), y = sym<N>("b");
    if (!vp_symbolic()) { x >>= (unsigned)(sym<16>("na") % N); y >>= (unsigned)(sym<16>("nb") % N); }
    big_num<N, A> a;
    big_num<N, B> b;
    storen(a, x); storen(b, y);
    use_add<N, false, false>(); use_add<N, true, false>(); use_add<N, false, true>(); use_add<N, true, true>();
    auto r = a * b;
    vp_unuse();
    using L = NatMul<false, N>;
    if (vp_symbolic()) {
        vp_assume(L::l_limbs(x, y));
        vp_assert(rawn(r) == L::product(x, y), "* is exact modulo 2 to the width");
    } else {
        vp_assert(rawn(r) == (U<N>)(x * y), "* is exact modulo 2 to the width");
    }
    vp_assert(wfn(r), "the result representation is canonical");
    vp_assert(rawn(a) == x && rawn(b) == y, "frame: the operands are unchanged");
}
template <class A, class B> void h_mul() {
    VP_IN(A, a); VP_IN(B, b);
    constexpr unsigned M = MX<A, B>;
    if constexpr (M > 64) {
        use_mul<M, false, false>(); use_mul<M, true, false>(); use_mul<M, false, true>(); use_mul<M, true, true>();
    }
    auto r = a * b;
    vp_unuse();
    shape<A, B>(r);
    known_or_x(r, (U<M>)(ext<M, A>(val(a)) * ext<M, B>(val(b))), anyx(a, b));
    VP_FRAME(a); VP_FRAME(b);
}
}  // namespace vp
