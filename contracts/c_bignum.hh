// big_num through its own interface: operands of different widths, C++ integers, single bits, slices
#pragma once
#include "c_div.hh"
#include "c_mul.hh"
namespace vp {
template <class T> struct BN;
template <uint64_t N, bool sg> struct BN<big_num<N, sg>> {
    static constexpr unsigned n = N;
    static constexpr bool s = sg;
};
template <class T> inline constexpr unsigned NW = BN<std::remove_cvref_t<T>>::n;
template <class T> inline constexpr bool NS = BN<std::remove_cvref_t<T>>::s;
template <uint64_t N, bool sg = false> using G = big_num<N, sg>;
#define VP_BN(T, x) T x; storen(x, sym<NW<T>>(#x)); const U<NW<T>> x##_0 = rawn(x)
#define VP_BNF(x) vp_assert(rawn(x) == x##_0 && wfn(x), "frame: operand " #x " is unchanged")

// ---- bitwise, + and - of any two widths: the operands are extended to the larger width, each according to its own sign
template <class A, class B, class R> void bshape(const R &) {
    vp_assert(NW<R> == (NW<A> > NW<B> ? NW<A> : NW<B>), "result width is the larger operand width");
    vp_assert(NS<R> == (NS<A> && NS<B>), "result is signed iff both operands are signed");
}
template <class A, class B> void h_gbits() {
    VP_BN(A, a); VP_BN(B, b);
    constexpr unsigned M = NW<A> > NW<B> ? NW<A> : NW<B>, N = NW<A>;
    U<M> x = extn<M, NW<A>, NS<A>>(a_0), y = extn<M, NW<B>, NS<B>>(b_0);
    auto r = a & b;
    bshape<A, B>(r);
    vp_assert(rawn(r) == (U<M>)(x & y) && wfn(r), "& of every pair of bits");
    auto o = a | b;
    bshape<A, B>(o);
    vp_assert(rawn(o) == (U<M>)(x | y) && wfn(o), "| of every pair of bits");
    auto e = a ^ b;
    bshape<A, B>(e);
    vp_assert(rawn(e) == (U<M>)(x ^ y) && wfn(e), "^ of every pair of bits");
    VP_BNF(a);
    A c = a, d = a, f = a;
    auto &rc = (c &= b);
    auto &rd = (d |= b);
    auto &rf = (f ^= b);
    vp_assert((void *)&rc == (void *)&c && (void *)&rd == (void *)&d && (void *)&rf == (void *)&f, "assignment returns the object itself");
    vp_assert(rawn(c) == (U<N>)(x & y) && wfn(c), "&= stores the result cut to the width");
    vp_assert(rawn(d) == (U<N>)(x | y) && wfn(d), "|= stores the result cut to the width");
    vp_assert(rawn(f) == (U<N>)(x ^ y) && wfn(f), "^= stores the result cut to the width");
    VP_BNF(b);
}
template <class A> void h_gnot() {
    VP_BN(A, a);
    auto r = ~a;
    vp_assert(NW<decltype(r)> == NW<A> && rawn(r) == (U<NW<A>>)~a_0 && wfn(r), "every bit is inverted");
    VP_BNF(a);
}
template <class A, class B> void h_gadd() {
    VP_BN(A, a); VP_BN(B, b);
    constexpr unsigned M = NW<A> > NW<B> ? NW<A> : NW<B>;
    U<M> x = extn<M, NW<A>, NS<A>>(a_0), y = extn<M, NW<B>, NS<B>>(b_0);
    auto r = a + b;
    bshape<A, B>(r);
    vp_assert(rawn(r) == (U<M>)(x + y) && wfn(r), "+ is exact modulo 2 to the larger width");
    auto d = a - b;
    bshape<A, B>(d);
    vp_assert(rawn(d) == (U<M>)(x - y) && wfn(d), "- is exact modulo 2 to the larger width");
    VP_BNF(a); VP_BNF(b);
}
// a wider target than both operands
template <class A, class B, unsigned M> void h_gaddt() {
    VP_BN(A, a); VP_BN(B, b);
    U<M> x = extn<M, NW<A>, NS<A>>(a_0), y = extn<M, NW<B>, NS<B>>(b_0);
    auto r = a.template add<M>(b);
    auto d = a.template minus<M>(b);
    vp_assert(NW<decltype(r)> == M && NW<decltype(d)> == M, "the target width is the result width");
    vp_assert(rawn(r) == (U<M>)(x + y) && wfn(r), "+ is exact modulo 2 to the target width");
    vp_assert(rawn(d) == (U<M>)(x - y) && wfn(d), "- is exact modulo 2 to the target width");
    VP_BNF(a); VP_BNF(b);
}
template <class A> void h_gneg() {
    VP_BN(A, a);
    constexpr unsigned N = NW<A>;
    auto r = -a;
    auto p = +a;
    vp_assert(rawn(r) == (U<N>)-a_0 && wfn(r), "negation is the two's complement");
    vp_assert(rawn(p) == a_0 && wfn(p), "unary plus changes nothing");
    VP_BNF(a);
}
template <class A, class B> void h_gmul() {
    VP_BN(A, a); VP_BN(B, b);
    constexpr unsigned M = NW<A> > NW<B> ? NW<A> : NW<B>;
    use_mul<M, false, false>(); use_mul<M, true, false>(); use_mul<M, false, true>(); use_mul<M, true, true>();
    U<M> x = extn<M, NW<A>, NS<A>>(a_0), y = extn<M, NW<B>, NS<B>>(b_0);
    auto r = a.template multiply<M>(b);
    bshape<A, B>(r);
    vp_assert(rawn(r) == (U<M>)(x * y) && wfn(r), "* is exact modulo 2 to the larger width");
    if constexpr (NW<A> != NW<B>) {
        auto q = a * b;
        bshape<A, B>(q);
        vp_assert(rawn(q) == (U<M>)(x * y) && wfn(q), "* is exact modulo 2 to the larger width");
    }
    vp_unuse();
    VP_BNF(a); VP_BNF(b);
}
template <class A, class B> void h_gdiv() {
    VP_BN(A, a); VP_BN(B, b);
    constexpr unsigned M = NW<A> > NW<B> ? NW<A> : NW<B>;
    QR<M, NS<A> && NS<B>, false> e(extn<M, NW<A>, NS<A>>(a_0), extn<M, NW<B>, NS<B>>(b_0));
    using X = big_num<M, false>;
    using DM = std::pair<X, X> (X::*)(const X &) const;
    VP_USE_MEMBER(DM, &X::div_mod_unsigned, (&bn_divmod<M>));
    using Y = big_num<M, true>;
    using Neg = Y (Y::*)() const;
    VP_USE_MEMBER(Neg, &Y::negate, (&bn_neg<M>));
    auto q = a / b;
    auto r = a % b;
    vp_unuse();
    bshape<A, B>(q);
    bshape<A, B>(r);
    vp_assert(rawn(q) == e.q && wfn(q), "the quotient is truncated toward zero, 0 for a zero divisor");
    vp_assert(rawn(r) == e.r && wfn(r), "the remainder has the sign of the dividend, 0 for a zero divisor");
    VP_BNF(a); VP_BNF(b);
}
// ---- comparison
template <class A, class B> void h_gcmp() {
    VP_BN(A, a); VP_BN(B, b);
    constexpr unsigned M = NW<A> > NW<B> ? NW<A> : NW<B>;
    U<M> x = extn<M, NW<A>, NS<A>>(a_0), y = extn<M, NW<B>, NS<B>>(b_0);
    bool lt, gt;
    if constexpr (NS<A> && NS<B>) { lt = (S<M>)x < (S<M>)y; gt = (S<M>)x > (S<M>)y; }
    else { lt = x < y; gt = x > y; }
    vp_assert((a == b) == (x == y), "== compares every bit after extension");
    vp_assert((a < b) == lt, "< is signed iff both operands are signed");
    vp_assert((a > b) == gt, "> is signed iff both operands are signed");
    vp_assert((a <= b) == !gt, "<= is the negation of >");
    vp_assert((a >= b) == !lt, ">= is the negation of <");
    VP_BNF(a); VP_BNF(b);
}
template <class A, class T> void h_gcmpi() {
    VP_BN(A, a);
    T b = (T)sym<std::is_same_v<T, bool> ? 1 : 8 * sizeof(T)>("b");
    // a C++ integer is a 64 bit number of its own signedness
    constexpr bool bs = std::is_signed_v<T>;
    constexpr unsigned M = NW<A> > 64 ? NW<A> : 64;
    U<M> x = extn<M, NW<A>, NS<A>>(a_0), y = extn<M, 64, bs>((U<64>)(uint64_t)b);
    bool lt, gt;
    if constexpr (NS<A> && bs) { lt = (S<M>)x < (S<M>)y; gt = (S<M>)x > (S<M>)y; }
    else { lt = x < y; gt = x > y; }
    vp_assert((a == b) == (x == y), "== compares every bit after extension");
    vp_assert((a < b) == lt, "< is signed iff both operands are signed");
    vp_assert((a > b) == gt, "> is signed iff both operands are signed");
    vp_assert((a <= b) == !gt, "<= is the negation of >");
    vp_assert((a >= b) == !lt, ">= is the negation of <");
    VP_BNF(a);
}
// ---- shifts by a big number
template <class A, class B> void h_gshift() {
    VP_BN(A, a); VP_BN(B, n);
    constexpr unsigned N = NW<A>, K = NW<B> < 64 ? 64 : NW<B>;
    use_shifts<N, false>();
    if constexpr (N > 1) use_shifts<N, true>();
    U<K> k = n_0;
    bool all = k >= (U<K>)N;
    auto l = a << n;
    auto al = a.ashl(n);
    auto r = a >> n;
    auto s = a.ashr(n);
    vp_unuse();
    U<N> le = all ? (U<N>)0 : (U<N>)(a_0 << (unsigned)k), re = all ? (U<N>)0 : (U<N>)(a_0 >> (unsigned)k);
    U<N> v = ar<N, NS<A>>(a_0, all ? (uint64_t)N : (uint64_t)k);
    vp_assert(rawn(l) == le && wfn(l) && rawn(al) == le && wfn(al), "left shift: every bit in its place and 0 elsewhere");
    vp_assert(rawn(r) == re && wfn(r), "right shift: every bit in its place and 0 elsewhere");
    if constexpr (NS<A>) {
        vp_assert(rawn(s) == v || rawn(s) == kf_ashr<N>(v, all ? (uint64_t)N : (uint64_t)k), "arithmetic right shift fills with the sign bit");
        vp_assert(rawn(s) == v, "finding:KF-ashr arithmetic right shift of a signed big number keeps the sign bit");
    } else {
        vp_assert(rawn(s) == v, "arithmetic right shift of an unsigned number fills with 0");
    }
    vp_assert(wfn(s), "the result representation is canonical");
    VP_BNF(a); VP_BNF(n);
}
// ---- queries
template <class A> void h_gquery() {
    VP_BN(A, a);
    constexpr unsigned N = NW<A>;
    constexpr U<N> all = (U<N>)~(U<N>)0;
    vp_assert(a.any_set() == (a_0 != 0) && (bool)a == (a_0 != 0), "any_set and the boolean value: some bit is 1");
    vp_assert(a.all_set() == (a_0 == all) && a.r_and() == (a_0 == all), "all_set and the and-reduction: every bit is 1");
    vp_assert(a.is_one() == (a_0 == 1), "is_one");
    vp_assert(a.to_uint64() == (uint64_t)a_0, "to_uint64 is the low word");
    if constexpr (N > 64) vp_assert(a.fit_in_64() == (a_0 < ((U<N>)1 << 64)), "fit_in_64");
    if constexpr (NS<A>) vp_assert(a.negative() == ((a_0 >> (N - 1)) != 0), "negative is the sign bit");
    auto t = a.to_signed();
    vp_assert(NS<decltype(t)> && NW<decltype(t)> == N && rawn(t) == a_0 && wfn(t), "to_signed keeps the bits");
    A m = a, u = a, c = a;
    m.mask(); u.unmask(); c.clear();
    vp_assert(rawn(m) == all && wfn(m), "mask sets every bit");
    vp_assert(rawn(u) == 0 && wfn(u) && rawn(c) == 0 && wfn(c), "unmask and clear reset every bit");
    VP_BNF(a);
}
template <class A> void h_gparity() {
    VP_BN(A, a);
    constexpr unsigned N = NW<A>;
    bool p = false;
    for (unsigned i = 0; i < N; i++) p ^= (bool)((a_0 >> i) & 1);
    vp_assert(a.r_xor() == p, "xor reduction is the parity of the bits");
    VP_BNF(a);
}
template <class A> void h_gcount() {
    VP_BN(A, a);
    constexpr unsigned N = NW<A>;
    uint64_t n = 0;
    for (unsigned i = 0; i < (N + 63) / 64; i++) n += (uint64_t)__builtin_popcountll((uint64_t)(a_0 >> (64 * i)));
    vp_assert(a.popcount() == n, "popcount is the number of ones");
    VP_BNF(a);
}
// ---- single bits
template <class A> void h_gindex() {
    VP_BN(A, a);
    constexpr unsigned N = NW<A>;
    uint64_t i = sym<64>("i");
    if (!vp_symbolic() && i % 3) i %= N + 2;
    bool v = (bool)sym<1>("v");
    vp_assert(a[i] == (i < N ? (bool)((a_0 >> (unsigned)i) & 1) : false), "[] reads the bit, 0 beyond the width");
    A c = a;
    c.set(i, v);
    U<N> m = i < N ? (U<N>)((U<N>)1 << (unsigned)i) : (U<N>)0;
    vp_assert(rawn(c) == (v ? (U<N>)(a_0 | m) : (U<N>)(a_0 & ~m)) && wfn(c), "set changes exactly one bit, none beyond the width");
    VP_BNF(a);
}
template <class A, uint64_t i> void gbit(const A &a, U<NW<A>> x, bool v) {
    constexpr unsigned N = NW<A>;
    if constexpr (i < N) {
        constexpr U<N> m = (U<N>)1 << (unsigned)i;
        vp_assert(a.template get<i>() == (bool)((x >> (unsigned)i) & 1), "get<i> reads the bit");
        A c = a, s = a, z = a;
        c.template set<i>(v);
        s.template set<i, true>();
        z.template set<i, false>();
        vp_assert(rawn(c) == (v ? (U<N>)(x | m) : (U<N>)(x & ~m)) && wfn(c), "set<i> changes exactly one bit");
        vp_assert(rawn(s) == (U<N>)(x | m) && wfn(s) && rawn(z) == (U<N>)(x & ~m) && wfn(z), "set<i, v> changes exactly one bit");
    } else {
        vp_assert(!a.template get<i>(), "get<i> beyond the width is 0");
    }
}
template <class A> void h_gbit() {
    VP_BN(A, a);
    bool v = (bool)sym<1>("v");
    [&]<uint64_t... i>(std::integer_sequence<uint64_t, i...>) { (gbit<A, i>(a, a_0, v), ...); }(std::make_integer_sequence<uint64_t, NW<A> + 2>{});
    VP_BNF(a);
}
// ---- slices, extension, concatenation
template <class A, uint64_t x, uint64_t y> void h_gslice() {
    VP_BN(A, a);
    constexpr uint64_t hi = x > y ? x : y, lo = x > y ? y : x;
    constexpr unsigned T = hi - lo + 1;
    auto r = a.template slice<x, y>();
    vp_assert(NW<decltype(r)> == T && !NS<decltype(r)>, "a slice is unsigned and as wide as the range");
    vp_assert(rawn(r) == (U<T>)(a_0 >> (unsigned)lo) && wfn(r), "the slice holds the bits of the range");
    VP_BNF(a);
}
// the range is known at run time, its width is not
template <class A, unsigned T> void h_grslice() {
    VP_BN(A, a);
    constexpr unsigned N = NW<A>;
    uint64_t lo = sym<30>("lo");
    if (!vp_symbolic() && lo % 4) lo %= N + 2;
    uint64_t hi = lo + T - 1;
    U<T> e = lo >= N ? (U<T>)0 : (U<T>)(a_0 >> (unsigned)lo);
    auto r = a.template slice<T>(hi, lo);
    auto q = a.template slice<T>(lo, hi);
    vp_assert(NW<decltype(r)> == T && !NS<decltype(r)>, "a slice is unsigned and as wide as the range");
    vp_assert(rawn(r) == e && wfn(r) && rawn(q) == e && wfn(q), "the slice holds the bits of the range, 0 beyond the width");
    VP_BNF(a);
}
template <class A, class B> void h_gconcat() {
    VP_BN(A, a); VP_BN(B, b);
    constexpr unsigned M = NW<A> + NW<B>;
    auto r = a.concat(b);
    vp_assert(NW<decltype(r)> == M && !NS<decltype(r)>, "a concatenation is unsigned and as wide as both parts");
    vp_assert(rawn(r) == (U<M>)(((U<M>)a_0 << NW<B>) | (U<M>)b_0) && wfn(r), "the left part is above the right part");
    VP_BNF(a); VP_BNF(b);
}
template <class A, unsigned M> void h_gextend() {
    VP_BN(A, a);
    auto r = a.template extend<M>();
    vp_assert(NW<decltype(r)> == M && NS<decltype(r)> == NS<A>, "extend gives the width asked for");
    vp_assert(rawn(r) == extn<M, NW<A>, NS<A>>(a_0) && wfn(r), "extend fills with the sign bit or with 0");
    VP_BNF(a);
}
// ---- construction
template <class A, class T> void h_gfrom() {
    T b = (T)sym<std::is_same_v<T, bool> ? 1 : 8 * sizeof(T)>("b");
    constexpr unsigned N = NW<A>, M = N > 64 ? N : 64;
    A a(b), z;
    vp_assert(rawn(a) == (U<N>)extn<M, 64, std::is_signed_v<T>>((U<64>)(uint64_t)b) && wfn(a), "construction from a C++ integer keeps its value modulo 2 to the width");
    vp_assert(rawn(z) == 0 && wfn(z), "a number is 0 by default");
}
template <class A> void h_gsign() {
    using B = big_num<NW<A>, !NS<A>>;
    VP_BN(A, a);
    B b = a;
    vp_assert(rawn(b) == a_0 && wfn(b), "conversion between signed and unsigned keeps the bits");
    VP_BNF(a);
}
}  // namespace vp
