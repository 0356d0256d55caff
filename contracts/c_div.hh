// division and remainder
#pragma once
#include "c_shift.hh"
#include "c_compare.hh"
namespace vp {
// ---- the mathematics of the long division, as functions on natural numbers.  In the proof they are uninterpreted: only the lemmas
// below are known about them.  Every lemma is proved, for all widths, in lemmas.lean (with the definitions in `else`), and for the
// widths of the h_lemmas units by the solvers.
template <bool open, unsigned N> struct Nat {
    static constexpr unsigned M = 2 * N;
    static U<64> at(U<N> x, uint64_t k) { return (uint64_t)x + k; }
    // q * op
    static U<M> product(U<N> q, U<N> op) {
        if constexpr (open) return (U<M>)q * (U<M>)op;
        U<M> x = ((U<M>)q << N) | op, y = 0;
        vp_uf("product", &x, M, &y, M);
        return y;
    }
    // x * 2^k, in 2N bits
    static U<M> scaled(U<N> x, uint64_t k) {
        if constexpr (open) return k >= M ? (U<M>)0 : (U<M>)((U<M>)x << (unsigned)k);
        U<N + 64> a = ((U<N + 64>)k << N) | x;
        U<M> y = 0;
        vp_uf("scaled", &a, N + 64, &y, M);
        return y;
    }
    // 2^k, in 2N bits
    static U<M> pow2(uint64_t k) {
        if constexpr (open) return k >= M ? (U<M>)0 : (U<M>)((U<M>)1 << (unsigned)k);
        U<M> y = 0;
        vp_uf("pow2", &k, 64, &y, M);
        return y;
    }
    // h is the position of the most significant one of x
    static bool top(U<N> x, uint64_t h) {
        if constexpr (open) return h < N && (U<N>)(x >> (unsigned)h) == 1;
        U<N + 64> a = ((U<N + 64>)h << N) | x;
        uint8_t y = 0;
        vp_uf("top", &a, N + 64, &y, 1);
        return y & 1;
    }
    // the bits of q below k are 0
    static bool low0(U<N> q, uint64_t k) {
        if constexpr (open) return k >= N ? q == 0 : (U<N>)(q & (U<N>)(((U<N>)1 << (unsigned)k) - 1)) == 0;
        U<N + 64> a = ((U<N + 64>)k << N) | q;
        uint8_t y = 0;
        vp_uf("low0", &a, N + 64, &y, 1);
        return y & 1;
    }
    // q with bit j set
    static U<N> with(U<N> q, uint64_t j) {
        if constexpr (open) return j >= N ? q : (U<N>)(q | (U<N>)((U<N>)1 << (unsigned)j));
        U<N + 64> a = ((U<N + 64>)j << N) | q;
        U<N> y = 0;
        vp_uf("with", &a, N + 64, &y, N);
        return y;
    }
    // ---- lemmas
    static bool l_zero(U<N> op) { return product(0, op) == 0; }
    static bool l_one(U<N> q) { return product(q, 1) == q; }
    static bool l_self(U<N> op) { return product(1, op) == op; }
    static bool l_euclid(uint64_t a, uint64_t b) { return b == 0 || (U<M>)(product(a / b, b) + (U<M>)(a % b)) == a; }
    static bool l_with(U<N> q, U<N> op, uint64_t j) { return !(j < N && low0(q, j + 1)) || product(with(q, j), op) == (U<M>)(product(q, op) + scaled(op, j)); }
    static bool l_low0_zero(uint64_t k) { return low0(0, k); }
    static bool l_low0_next(U<N> q, uint64_t k) { return !(k < N && low0(q, k + 1)) || (low0(q, k) && low0(with(q, k), k)); }
    static bool l_scaled_0(U<N> x) { return scaled(x, 0) == x; }
    static bool l_scaled_next(U<N> x, uint64_t k) { return !(k < N) || scaled(x, k + 1) == (U<M>)(scaled(x, k) + scaled(x, k)); }
    // 2^h <= x < 2^(h + 1), scaled by 2^k
    static bool l_top(U<N> x, uint64_t h, uint64_t k) { return !(top(x, h) && h < N && k <= N && h + k < M - 1) || (pow2(h + k) <= scaled(x, k) && scaled(x, k) < pow2(h + k + 1)); }
    static bool l_pow2(uint64_t a, uint64_t b) { return !(a <= b && b < M) || pow2(a) <= pow2(b); }
    static bool l_pow2_N() { return pow2(N) == (U<M>)((U<M>)1 << N); }
};
// ---- contracts of the big_num operations that the long division uses
template <uint64_t N> big_num<N, false> bn_sub(const big_num<N, false> *a, const big_num<N, false> &b) {
    big_num<N, false> r;
    storen(r, (U<N>)(rawn(*a) - rawn(b)));
    return r;
}
template <uint64_t N> bool bn_lt(const big_num<N, false> *a, const big_num<N, false> &b) { return rawn(*a) < rawn(b); }
template <uint64_t N> bool bn_eq(const big_num<N, false> *a, const big_num<N, false> &b) { return rawn(*a) == rawn(b); }
template <uint64_t N> bool bn_one(const big_num<N, false> *a) { return rawn(*a) == 1; }
template <uint64_t N> bool bn_ge(const big_num<N, false> *a, const big_num<N, false> &b) { return rawn(*a) >= rawn(b); }
template <uint64_t N> void bn_set(big_num<N, false> *a, uint64_t i, bool v) {
    U<N> x = rawn(*a);
    vp_requires(i < N && v, "a bit below the width is set");
    storen(*a, Nat<false, N>::with(x, i));
}
template <uint64_t N> big_num<N, false> bn_scaled(const big_num<N, false> *s, uint64_t k) {
    big_num<N, false> r;
    vp_requires(k < N, "the shift amount is below the width");
    storen(r, (U<N>)Nat<false, N>::scaled(rawn(*s), k));
    return r;
}
template <uint64_t N> uint64_t bn_highest(const big_num<N, false> *a) {
    U<N> x = rawn(*a);
    vp_requires(x != 0, "there is a one to find");
    uint64_t h = sym<64>("*highest");
    vp_assume(h < N && Nat<false, N>::top(x, h));
    return h;
}
template <uint64_t N> void use_div() {
    using X = big_num<N, false>;
    using Shl = X (X::*)(uint64_t) const;
    VP_USE_MEMBER(Shl, &X::operator<<, (&bn_scaled<N>));
    using Op1 = X (X::*)(const X &) const;
    VP_USE_MEMBER(Op1, &X::template operator-<false>, (&bn_sub<N>));
    using Rel = bool (X::*)(const X &) const;
    VP_USE_MEMBER(Rel, (&X::template operator>=<N, false>), (&bn_ge<N>));
    VP_USE_MEMBER(Rel, (&X::template operator< <N, false>), (&bn_lt<N>));
    VP_USE_MEMBER(Rel, (&X::template operator==<N, false>), (&bn_eq<N>));
    using Is = bool (X::*)() const;
    VP_USE_MEMBER(Is, &X::is_one, (&bn_one<N>));
    using Set = void (X::*)(uint64_t, bool);
    VP_USE_MEMBER(Set, &X::set, (&bn_set<N>));
    using Hi = uint64_t (X::*)() const;
    VP_USE_MEMBER(Hi, &X::highest_bit, (&bn_highest<N>));
}
template <uint64_t N> big_num<N, true> bn_neg(const big_num<N, true> *a) {
    big_num<N, true> r;
    storen(r, (U<N>)-rawn(*a));
    return r;
}
// the contracts above, proved
template <uint64_t N> void h_bnops() {
    using X = big_num<N, false>;
    U<N> x = sym<N>("a"), y = sym<N>("b");
    X a, b;
    storen(a, x); storen(b, y);
    auto d = a - b;
    vp_assert(rawn(d) == (U<N>)(x - y) && wfn(d), "- is exact modulo 2 to the width");
    vp_assert((a >= b) == (x >= y), ">= orders the unsigned values");
    vp_assert((a < b) == (x < y), "< orders the unsigned values");
    vp_assert((a == b) == (x == y), "== compares every bit");
    vp_assert(a.is_one() == (x == 1), "is_one");
    if constexpr (N > 64) vp_assert(a.fit_in_64() == (x < ((U<N>)1 << 64)), "fit_in_64");
    else vp_assert(a.fit_in_64(), "fit_in_64");
    vp_assert(rawn(a) == x && rawn(b) == y, "frame: the operands are unchanged");
    big_num<N, true> sx;
    storen(sx, x);
    auto n = sx.negate();
    vp_assert(rawn(n) == (U<N>)-x && wfn(n), "negate is the two's complement");
    uint64_t i = sym<64>("i");
    bool v = (bool)sym<1>("v");
    X c = a;
    if (!vp_symbolic()) i %= N + 3;
    U<N> m = i < N ? (U<N>)((U<N>)1 << (unsigned)i) : (U<N>)0;
    c.set(i, v);
    vp_assert(rawn(c) == (v ? (U<N>)(x | m) : (U<N>)(x & ~m)) && wfn(c), "set changes exactly one bit");
    if (x != 0) vp_assert(Nat<true, N>::top(x, a.highest_bit()), "highest_bit is the position of the most significant one");
}
template <uint64_t N> void h_lemmas() {
    using L = Nat<true, N>;
    U<N> x = sym<N>("x"), q = sym<N>("q");
    auto one = [&](uint64_t k) {
        vp_assert(L::l_with(q & 255, x, k), "bit k of the quotient adds divisor * 2^k to the product (quotients below 256)");
        vp_assert(L::l_low0_zero(k) && L::l_low0_next(q, k), "low bits of the quotient");
        vp_assert(L::l_scaled_next(x, k), "x * 2^(k + 1) is twice x * 2^k");
        vp_assert(L::l_top(x, N - 1 - k, k / 2) && L::l_top(x, k, N - k) && L::l_top(x, k, 0) && L::l_top(x, k, N), "2^(h + k) <= x * 2^k < 2^(h + k + 1) for the highest bit h of x");
    };
    if (vp_symbolic()) {
        for (uint64_t k = 0; k < N; k++) one(k);
    } else {
        one(sym<16>("k") % N);
    }
    vp_assert(L::l_zero(x) && L::l_one(q) && L::l_self(x) && L::l_scaled_0(x) && L::l_pow2_N(), "product and scaling by constants");
    uint64_t a = sym<64>("i"), b = sym<64>("j");
    vp_assert(L::l_pow2(a, b), "2^k is monotone");
}
// unsigned long division
template <uint64_t N> void h_longdiv() {
    using X = big_num<N, false>;
    U<N> x = sym<N>("a"), y = sym<N>("b");
    if (!vp_symbolic()) y >>= (unsigned)(sym<16>("narrow") % N);
    vp_assume(y != 0);
    X a, b;
    storen(a, x); storen(b, y);
    use_div<N>();
    auto [q, r] = a.div_mod_unsigned(b);
    vp_unuse();
    U<N> qv = rawn(q), rv = rawn(r);
    vp_assert(wfn(q) && wfn(r), "the result representation is canonical");
    if (vp_symbolic()) {
        using L = Nat<false, N>;
        vp_assume(L::l_zero(y) && L::l_one(x) && L::l_self(y) && L::l_euclid((uint64_t)x, (uint64_t)y));
        vp_assert(L::product(qv, y) == (U<2 * N>)((U<2 * N>)x - (U<2 * N>)rv), "dividend == quotient * divisor + remainder, without overflow");
    } else {
        vp_assert((U<2 * N>)((U<2 * N>)qv * (U<2 * N>)y + (U<2 * N>)rv) == (U<2 * N>)x, "dividend == quotient * divisor + remainder, without overflow");
    }
    vp_assert(rv < y, "the remainder is less than the divisor");
    vp_assert(rawn(a) == x && rawn(b) == y, "frame: the operands are unchanged");
}
// the quotient and the remainder in N bits, truncated toward zero; 0 for a zero divisor
template <unsigned N, bool sg, bool machine = (N <= 64)> struct QR {
    U<N> q, r;
    QR(U<N> a, U<N> b) {
        if (b == 0) { q = r = 0; return; }
        if constexpr (sg && machine) {
            // one bit more: no overflow
            S<N + 1> x = (S<N>)a, y = (S<N>)b;
            q = (U<N>)(x / y); r = (U<N>)(x % y);
            return;
        }
        bool na = false, nb = false;
        if constexpr (sg) { na = (S<N>)a < 0; nb = (S<N>)b < 0; }
        U<N> x = na ? (U<N>)-a : a, y = nb ? (U<N>)-b : b;
        q = x / y; r = x % y;
        if (na != nb) q = (U<N>)-q;
        if (na) r = (U<N>)-r;
    }
};
// the contract of the long division: by the uniqueness of quotient and remainder (lemmas.lean) it is the division of natural numbers
template <uint64_t N> std::pair<big_num<N, false>, big_num<N, false>> bn_divmod(const big_num<N, false> *a, const big_num<N, false> &b) {
    U<N> x = rawn(*a), y = rawn(b);
    vp_requires(y != 0, "the divisor is not zero");
    std::pair<big_num<N, false>, big_num<N, false>> p;
    storen(p.first, (U<N>)(x / y));
    storen(p.second, (U<N>)(x % y));
    return p;
}
template <class A, class B> void h_div() {
    VP_IN(A, a); VP_IN(B, b);
    constexpr unsigned M = MX<A, B>;
    QR<M, A::is_signed && B::is_signed> e(ext<M, A>(val(a)), ext<M, B>(val(b)));
    bool unknown = anyx(a, b) || (decltype(a / b)::is_4state && val(b) == 0);
    if constexpr (M > 64) {
        using X = big_num<M, false>;
        using DM = std::pair<X, X> (X::*)(const X &) const;
        VP_USE_MEMBER(DM, &X::div_mod_unsigned, (&bn_divmod<M>));
        using Y = big_num<M, true>;
        using Neg = Y (Y::*)() const;
        VP_USE_MEMBER(Neg, &Y::negate, (&bn_neg<M>));
    }
    auto q = a / b;
    auto r = a % b;
    vp_unuse();
    shape<A, B>(q);
    known_or_x(q, e.q, unknown);
    shape<A, B>(r);
    known_or_x(r, e.r, unknown);
    VP_FRAME(a); VP_FRAME(b);
}
}  // namespace vp
#ifdef LOGIC_CONTRACTS
namespace vp {
// the loop of big_num::div_mod_unsigned: with k bits of the quotient left to find,
//   self == q * op + r,  r < op * 2^k,  the low k bits of q are 0
template <class I, uint64_t N> void inv_div_mod(const I &i, uint64_t ah, uint64_t oh, const big_num<N, false> &self, const big_num<N, false> &op, const big_num<N, false> &q, const big_num<N, false> &r) {
    using L = Nat<false, N>;
    constexpr unsigned M = 2 * N;
    U<N> a = rawn(self), y = rawn(op), qv = rawn(q), rv = rawn(r);
    uint64_t d = ah - oh, k = d + 1 - i;
    vp_modifies(&i, sizeof(i));
    vp_modifies(&q, sizeof(q));
    vp_modifies(&r, sizeof(r));
    vp_variant(k);
    vp_assume(L::l_zero(y) && L::l_low0_zero(k) && L::l_scaled_0(a) && L::l_scaled_0(y));
    vp_assume(L::l_top(a, ah, 0) && L::l_top(y, oh, 0) && L::l_top(y, oh, d + 1));
    vp_assume(L::l_top(y, oh, k) && L::l_pow2(oh + k + 1, N) && L::l_pow2(ah + 1, oh) && L::l_pow2_N());
    vp_assume(L::l_scaled_next(y, k) && L::l_low0_next(qv, k - 1) && L::l_with(qv, y, k - 1));
    vp_invariant(L::top(a, ah) && L::top(y, oh) && ah < N && oh <= ah, "the highest ones of the dividend and the divisor");
    vp_invariant((uint64_t)i <= d + 1, "the counter stays in its range");
    vp_invariant(i == 0 || L::scaled(y, k) < (U<M>)((U<M>)1 << N), "the divisor shifted by the number of quotient bits left does not overflow");
    vp_invariant(wfn(q) && wfn(r), "quotient and remainder are canonical");
    vp_invariant(L::product(qv, y) == (U<M>)((U<M>)a - (U<M>)rv), "dividend == quotient * divisor + remainder");
    vp_invariant((U<M>)rv < L::scaled(y, k), "the remainder is less than the divisor shifted by the number of quotient bits left");
    vp_invariant(L::low0(qv, k), "the quotient bits left are 0");
}
}  // namespace vp
template <class I, class H, class A, class B, class Q, class R>
void logic_contracts::div_mod(const I &i, const H &self_high, const H &op_high, const A &self, const B &op, const Q &q, const R &r) noexcept {
    vp::inv_div_mod(i, self_high, op_high, self, op, q, r);
}
#endif
