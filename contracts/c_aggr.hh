// unpacked arrays; packed structs and unions (plain vectors whose members are part selects)
#pragma once
#include "c_array.hh"
namespace vp {
inline constexpr const char *el_names[10][2] = {{"a0", "a0.xz"}, {"a1", "a1.xz"}, {"a2", "a2.xz"}, {"a3", "a3.xz"}, {"a4", "a4.xz"}, {"a5", "a5.xz"}, {"a6", "a6.xz"}, {"a7", "a7.xz"}, {"a8", "a8.xz"}, {"a9", "a9.xz"}};
template <class T, int hi, int lo> using UA = ::logic::unpacked_array<T, hi, lo>;
template <class T, int hi, int lo> void h_uread() {
    constexpr int mn = hi < lo ? hi : lo, mx = hi < lo ? lo : hi;
    constexpr unsigned n = mx - mn + 1;
    using A = UA<T, hi, lo>;
    vp_assert(A::size == n, "one element for every index");
    A d;
    A a;
    for (unsigned k = 0; k < n; k++) init(a.value[k], el_names[k][0], el_names[k][1]);
    const A a0 = a;
    int i = symint("i");
    if (!vp_symbolic() && i % 4) i = mn - 1 + (int)((unsigned)i / 4 % (n + 2));
    bool out = true;
    for (unsigned k = 0; k < n; k++) {
        const T &r = a[mn + (int)k];
        vp_assert(same(r, a.value[k]), "index i yields the element of that index");
        if (i == mn + (int)k) { out = false; vp_assert(same(a[i], a.value[k]), "index i yields the element of that index"); }
        const T &q = d[mn + (int)k];
        vp_assert(val(q) == 0 && xz(q) == (T::is_4state ? ones<W<T>> : (U<W<T>>)0), "elements start as x (0 for two-state)");
    }
    if (out) {
        const T &r = a[i];
        vp_assert(val(r) == 0 && xz(r) == (T::is_4state ? ones<W<T>> : (U<W<T>>)0) && ok(r), "an index outside of the bounds yields x (0 for two-state)");
    }
    for (unsigned k = 0; k < n; k++) vp_assert(same(a.value[k], a0.value[k]), "frame: reading changes no element");
}
template <class T, int hi, int lo, int idx, class O> void h_uwrite() {
    constexpr int mn = hi < lo ? hi : lo, mx = hi < lo ? lo : hi;
    constexpr unsigned n = mx - mn + 1;
    using A = UA<T, hi, lo>;
    A a;
    for (unsigned k = 0; k < n; k++) init(a.value[k], el_names[k][0], el_names[k][1]);
    const A a0 = a;
    VP_IN(O, o);
    a.template update<idx>(o);
    for (int k = mn; k <= mx; k++) {
        if (k == idx) {
            const T &r = a[k];
            vp_assert(val(r) == ext<W<T>, O>(val(o)) && xz(r) == ext<W<T>, O>(xz(o)) && ok(r), "update<i> replaces element i by the converted value");
        } else {
            vp_assert(same(a[k], a0[k]), "update<i> leaves every other element unchanged");
        }
    }
    A b = a;
    for (int k = mn; k <= mx; k++) vp_assert(same(b[k], a[k]), "a copy has the same elements");
    VP_FRAME(o);
}
// members of a struct or union of N bits: the parts [h1:l1] and [h2:l2]
template <class S> struct AggrOf { using type = typename S::type; };
template <class S, unsigned N, bool four, int h1, int l1, int h2, int l2, class O> void h_members() {
    using A = typename S::type;
    vp_assert(W<A> == N && A::is_4state == four && !A::is_signed, "a struct or union is an unsigned vector of its size and state count");
    if constexpr (W<A> == N && A::is_4state == four) {
        A d;
        vp_assert(val(d) == 0 && xz(d) == (four ? ones<N> : (U<N>)0), "a struct or union without initializer is all x (0 for two-state)");
        VP_IN(A, a); VP_IN(O, o);
        constexpr unsigned T1 = h1 - l1 + 1, T2 = h2 - l2 + 1;
        A s = a;
        s.template update<h1, l1>(o);
        patched<T1>(s, a, l1, o);
        auto m1 = s.template slice<h1, l1>();
        vp_assert(val(m1) == (U<T1>)val(o) && xz(m1) == (U<T1>)xz(o) && ok(m1), "a member reads back what was written to it");
        auto m2 = s.template slice<h2, l2>();
        constexpr U<N> own = (U<N>)((U<N>)ones<T1> << l1);
        U<N> nv = (val(a) & ~own) | ((U<N>)(U<T1>)val(o) << l1), nm = (xz(a) & ~own) | ((U<N>)(U<T1>)xz(o) << l1);
        vp_assert(val(m2) == (U<T2>)(nv >> l2) && xz(m2) == (U<T2>)(nm >> l2), "writing a member changes exactly the bits another one shares with it");
        if constexpr (l2 > h1 || l1 > h2) {
            auto b2 = a.template slice<h2, l2>();
            vp_assert(same(m2, b2), "disjoint members are independent");
        }
        // the same through references and run-time positions
        A r = a;
        r.template slice_ref<h1, l1>() = o;
        vp_assert(same(r, s), "assigning through a member reference is the same");
        A u = a;
        u.update(h1, l1, o);
        vp_assert(same(u, s), "assigning at a run-time position is the same");
        auto t2 = s.template slice<T2>(h2, l2);
        vp_assert(same(t2, m2), "reading at a run-time position is the same");
        VP_FRAME(a); VP_FRAME(o);
    }
}
template <unsigned N, bool four> using PS = ::logic::packed_struct<N, four>;
template <unsigned N, bool four> using UN = ::logic::union_<N, four>;
// an unpacked struct is a plain C++ struct
template <class T1, class T2, class O> void h_ustruct() {
    struct S : ::logic::unpacked_struct { T1 a; T2 b; };
    S s;
    init(s.a, "a", "a.xz"); init(s.b, "b", "b.xz");
    const S s0 = s;
    VP_IN(O, o);
    s.a = o;
    vp_assert(val(s.a) == ext<W<T1>, O>(val(o)) && xz(s.a) == ext<W<T1>, O>(xz(o)) && ok(s.a), "a member holds the converted value");
    vp_assert(same(s.b, s0.b), "the other member is unchanged");
    VP_FRAME(o);
}
}  // namespace vp
