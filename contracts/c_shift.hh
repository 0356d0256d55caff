// shifts: << >> ashl ashr and the assignment forms
#pragma once
#include "c_arith.hh"
namespace vp {
// the shift amount is unsigned, whatever the type of the amount; everything is shifted out for amounts >= width
template <class A, class B> struct Sh {
    static constexpr unsigned N = W<A>, K = N > W<B> ? N : W<B>;
    static constexpr unsigned KK = K < 33 ? 33 : K;
    static bool big(U<W<B>> n) { return (U<KK>)n >= (U<KK>)N; }
    static U<N> l(U<N> a, U<W<B>> n) { return big(n) ? (U<N>)0 : (U<N>)(a << (unsigned)(U<KK>)n); }
    static U<N> r(U<N> a, U<W<B>> n) { return big(n) ? (U<N>)0 : (U<N>)(a >> (unsigned)(U<KK>)n); }
};
// the defect recorded as KF-ashr: the bit holding the old sign is lost
template <unsigned N> U<N> kf_ashr(U<N> v, uint64_t k) {
    return k < N ? (U<N>)(v & ~(U<N>)((U<N>)1 << (unsigned)(N - 1 - k))) : v;
}
template <unsigned N, bool sg> U<N> ar(U<N> a, uint64_t k) {
    if constexpr (sg) return (U<N>)((S<N>)a >> (unsigned)(k >= N ? N - 1 : k));
    else return k >= N ? (U<N>)0 : (U<N>)(a >> (unsigned)k);
}
// ---- contracts of the shifts of big_num by a C++ integer
template <uint64_t N, bool sg> big_num<N, sg> bn_shl(const big_num<N, sg> *s, uint64_t k) {
    big_num<N, sg> r;
    storen(r, k >= N ? (U<N>)0 : (U<N>)(rawn(*s) << (unsigned)k));
    return r;
}
template <uint64_t N, bool sg> big_num<N, sg> bn_shr(const big_num<N, sg> *s, uint64_t k) {
    big_num<N, sg> r;
    storen(r, k >= N ? (U<N>)0 : (U<N>)(rawn(*s) >> (unsigned)k));
    return r;
}
template <uint64_t N, bool sg> big_num<N, sg> bn_ashr(const big_num<N, sg> *s, uint64_t k) {
    big_num<N, sg> r;
    U<N> v = ar<N, sg>(rawn(*s), k);
    if constexpr (sg) v = sym<1>("defect") ? kf_ashr<N>(v, k) : v;
    storen(r, v);
    return r;
}
template <uint64_t N, bool sg> void use_shifts() {
    using X = big_num<N, sg>;
    using PM = X (X::*)(uint64_t) const;
    VP_USE_MEMBER(PM, &X::operator<<, (&bn_shl<N, sg>));
    VP_USE_MEMBER(PM, &X::operator>>, (&bn_shr<N, sg>));
    VP_USE_MEMBER(PM, &X::ashr, (&bn_ashr<N, sg>));
}
struct ShL {
    static constexpr bool kf = false;
    template <class X> static auto f(const X &x, uint64_t k) { return x << k; }
    template <unsigned N, bool sg> static U<N> s(U<N> a, uint64_t k) { return k >= N ? (U<N>)0 : (U<N>)(a << (unsigned)k); }
};
struct ShR {
    static constexpr bool kf = false;
    template <class X> static auto f(const X &x, uint64_t k) { return x >> k; }
    template <unsigned N, bool sg> static U<N> s(U<N> a, uint64_t k) { return k >= N ? (U<N>)0 : (U<N>)(a >> (unsigned)k); }
};
struct ShA {
    static constexpr bool kf = true;
    template <class X> static auto f(const X &x, uint64_t k) { return x.ashr(k); }
    template <unsigned N, bool sg> static U<N> s(U<N> a, uint64_t k) { return ar<N, sg>(a, k); }
};
template <class Op, uint64_t N, bool sg> void bn_case(const big_num<N, sg> &a, U<N> x, uint64_t k) {
    auto r = Op::f(a, k);
    U<N> v = Op::template s<N, sg>(x, k);
    if constexpr (Op::kf && sg) {
        vp_assert(rawn(r) == v || rawn(r) == kf_ashr<N>(v, k), "arithmetic right shift fills with the sign bit");
        vp_assert(rawn(r) == v, "finding:KF-ashr arithmetic right shift of a signed big number keeps the sign bit");
    } else {
        vp_assert(rawn(r) == v, "the shifted big number has every bit in its place and 0 elsewhere");
    }
    vp_assert(wfn(r), "the result representation is canonical");
    vp_assert(rawn(a) == x, "frame: the operand is unchanged");
}
// a case split over the amount: every amount below the width, then all the others at once
template <class Op, uint64_t N, bool sg> void h_bn() {
    U<N> x = sym<N>("a");
    uint64_t n = sym<64>("n");
    big_num<N, sg> a;
    storen(a, x);
    if (vp_symbolic()) {
        for (uint64_t k = 0; k < N; k++) bn_case<Op, N, sg>(a, x, k);
        vp_assume(n >= N);
        bn_case<Op, N, sg>(a, x, n);
    } else {
        bn_case<Op, N, sg>(a, x, n < N ? n : n % 5 ? n % (N + 2) : n);
    }
}
struct DoShl {
    template <class A, class B> static auto f(const A &a, const B &n) { return a << n; }
};
struct DoAshl {
    template <class A, class B> static auto f(const A &a, const B &n) { return a.ashl(n); }
};
struct DoShr {
    template <class A, class B> static auto f(const A &a, const B &n) { return a >> n; }
};
template <class A> void use_big() {
    if constexpr (W<A> > 64) { use_shifts<W<A>, false>(); use_shifts<W<A>, true>(); }
}
template <class Op, class A, class B> void h_sh() {
    use_big<A>();
    VP_IN(A, a); VP_IN(B, n);
    auto r = Op::f(a, n);
    vp_assert(W<decltype(r)> == W<A>, "a shift keeps the width of the left operand");
    known_or_x(r, std::is_same_v<Op, DoShr> ? Sh<A, B>::r(val(a), val(n)) : Sh<A, B>::l(val(a), val(n)), anyx(a, n));
    VP_FRAME(a); VP_FRAME(n);
}
template <class A, class B> void h_ashr() {
    use_big<A>();
    VP_IN(A, a); VP_IN(B, n);
    auto r = a.ashr(n);
    constexpr unsigned N = W<A>;
    vp_assert(W<decltype(r)> == N, "a shift keeps the width of the left operand");
    bool all = Sh<A, B>::big(val(n));
    uint64_t k = all ? (uint64_t)N : (uint64_t)val(n);
    U<N> v = ar<N, A::is_signed && (N > 1)>(val(a), k);
    if constexpr (A::is_signed && N > 64) {
        U<N> d = kf_ashr<N>(v, k);
        bool u = anyx(a, n);
        if constexpr (A::is_4state) vp_assert(xz(r) == (u ? ones<N> : (U<N>)0), "every result bit is x if an operand bit is unknown, otherwise every result bit is known");
        vp_assert(u ? val(r) == 0 : (val(r) == v || val(r) == d), "arithmetic right shift fills with the sign bit");
        vp_assert(u || val(r) == v, "finding:KF-ashr arithmetic right shift of a signed big number keeps the sign bit");
        vp_assert(ok(r), "the result representation is canonical");
    } else {
        known_or_x(r, v, anyx(a, n));
    }
    VP_FRAME(a); VP_FRAME(n);
}
template <class A, class B> void h_shas() {
    use_big<A>();
    VP_IN(A, a); VP_IN(B, n);
    A l = a, r = a;
    auto &lr = (l <<= n);
    auto &rr = (r >>= n);
    vp_assert((const void *)&lr == (const void *)&l && (const void *)&rr == (const void *)&r, "shift assignment returns the object itself");
    known_or_x(l, Sh<A, B>::l(val(a), val(n)), anyx(a, n));
    known_or_x(r, Sh<A, B>::r(val(a), val(n)), anyx(a, n));
    VP_FRAME(a); VP_FRAME(n);
}
}  // namespace vp
