// reductions and truth value: r_and r_nand r_or r_nor r_xor r_xnor, !, explicit bool, popcount, set tests
#pragma once
#include "vp.hh"
namespace vp {
// three-valued result
struct Tri { bool one, zero; };
template <class A> Tri t_and(const A &a) {
    bool z = (U<W<A>>)(~val(a) & ~xz(a)) != 0;
    return {!z && xz(a) == 0, z};
}
template <class A> Tri t_or(const A &a) {
    bool o = (U<W<A>>)(val(a) & ~xz(a)) != 0;
    return {o, !o && xz(a) == 0};
}
template <unsigned N> bool parity(U<N> x) {
    bool p = false;
    for (unsigned i = 0; i < N; i++) p = p != (bool)((x >> i) & 1);
    return p;
}
template <unsigned N> uint64_t ones_of(U<N> x) {
    uint64_t n = 0;
    if constexpr (N <= 64) {
        for (unsigned i = 0; i < N; i++) n += (uint64_t)((x >> i) & 1);
    } else {
        // 64 bits at a time; that the instruction counts the ones of 64 bits is the case N = 64
        U<(N + 63) / 64 * 64> y = x;
        for (unsigned i = 0; i < (N + 63) / 64; i++) n += (uint64_t)__builtin_popcountll((unsigned long long)(y >> (64 * i)));
    }
    return n;
}
template <class A> Tri t_xor(const A &a) {
    bool k = xz(a) == 0, p = parity<W<A>>(val(a));
    return {k && p, k && !p};
}
inline Tri t_not(Tri t) { return {t.zero, t.one}; }
template <class R> void tri(const R &r, Tri t, const char *name) {
    if constexpr (std::is_same_v<R, bool>) {
        vp_assert(r == t.one, name);
    } else {
        static_assert(W<R> == 1);
        vp_assert((bool)val(r) == t.one, name);
        vp_assert((bool)xz(r) == (!t.one && !t.zero), name);
        vp_assert(ok(r), "the result representation is canonical");
    }
}
template <class A> void h_red() {
    VP_IN(A, a);
    tri(a.r_and(), t_and(a), "reduction and: 0 if any bit is 0, else x if any bit is unknown, else 1");
    tri(a.r_nand(), t_not(t_and(a)), "reduction nand is the negation of reduction and");
    tri(a.r_or(), t_or(a), "reduction or: 1 if any bit is 1, else x if any bit is unknown, else 0");
    tri(a.r_nor(), t_not(t_or(a)), "reduction nor is the negation of reduction or");
    VP_FRAME(a);
}
template <class A> void h_redx() {
    VP_IN(A, a);
    tri(a.r_xor(), t_xor(a), "reduction xor: x if any bit is unknown, else the parity");
    tri(a.r_xnor(), t_not(t_xor(a)), "reduction xnor is the negation of reduction xor");
    VP_FRAME(a);
}
template <class A> void h_truth() {
    VP_IN(A, a);
    vp_assert((bool)a == (xz(a) == 0 && val(a) != 0), "an object is true exactly when it is fully known and not zero");
    if constexpr (A::is_4state) {
        Tri t{xz(a) == 0 && val(a) == 0, xz(a) == 0 && val(a) != 0};
        tri(!a, t, "logical not: x if any bit is unknown, else 1 exactly for zero");
    } else {
        vp_assert(!a == (val(a) == 0), "logical not is true exactly for zero");
    }
    VP_FRAME(a);
}
template <class A> void h_count() {
    VP_IN(A, a);
    vp_assert(a.popcount() == ones_of<W<A>>(val(a)), "popcount counts the ones among the declared bits");
    VP_FRAME(a);
}
template <class A> void h_sets() {
    VP_IN(A, a);
    constexpr unsigned N = W<A>;
    vp_assert(a.any_set() == (val(a) != 0), "any_set is true exactly when some declared bit is 1");
    vp_assert(a.all_set() == (val(a) == ones<N>), "all_set is true exactly when every declared bit is 1");
    if constexpr (A::is_signed) {
        vp_assert(a.negative() == (bool)(val(a) >> (N - 1)), "negative is the sign bit of a signed number");
    } else {
        vp_assert(!a.negative(), "an unsigned number is never negative");
    }
    VP_FRAME(a);
    A m = a;
    m.mask();
    vp_assert(val(m) == ones<N> && ok(m), "mask sets every declared bit and nothing else");
    m = a;
    m.clear();
    vp_assert(val(m) == 0 && ok(m), "clear resets every bit");
}
template <class A> void h_high() {
    VP_IN(A, a);
    constexpr unsigned N = W<A>;
    if (val(a) != 0) {
        uint64_t h = a.highest_bit();
        vp_assert(h < N, "the highest set bit is a declared bit");
        if (h < N) {
            vp_assert((bool)((val(a) >> (unsigned)h) & 1), "the highest set bit is set");
            vp_assert(h == N - 1 || (val(a) >> (unsigned)(h + 1 < N ? h + 1 : 0)) == 0, "no bit above the highest set bit is set");
        }
    }
    VP_FRAME(a);
}
}  // namespace vp
