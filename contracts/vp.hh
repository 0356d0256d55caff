// Contract vocabulary shared by every contract unit.
//
// A contract unit is a function  extern "C" void vph_<name>()  that
//   * builds arbitrary well-formed operands (the precondition),
//   * calls one function of /repo (the code under contract), and
//   * states its postcondition / frame with vp_assert clauses.
// lcv (engine/) generates the verification conditions from the LLVM IR of the real code;
// compiled with -DVP_NATIVE the same unit replays a counterexample against the real code.
#pragma once
#include <cstddef>
#include <cstdint>
#ifdef LOGIC_CONTRACTS
// loop annotations in the headers (LOGIC_LOOP_INVARIANT), defined in c_*.hh
namespace logic_contracts {
template <class I, class H, class A, class B, class Q, class R>
void div_mod(const I &i, const H &self_high, const H &op_high, const A &self, const B &op, const Q &q, const R &r) noexcept;
}
#endif
#include <logic/array.hh>
#include <logic/logic.hh>
#include <logic/struct.hh>
#include <logic/union.hh>

#ifdef VP_NATIVE
#include "vp_native.hh"
#else
extern "C" {
void vp_sym(void *p, unsigned bits, const char *name);   // an arbitrary value of `bits` bits
void vp_assume(bool c);                                  // precondition of the unit
void vp_assert(bool c, const char *clause);              // postcondition clause
void vp_requires(bool c, const char *clause);            // callee precondition checked at a call
void vp_use(const void *fn, const void *contract);       // calls of fn are replaced by its contract
void vp_unuse();                                         // back to the real callee bodies
bool vp_symbolic();                                      // true under lcv
void vp_invariant(bool c, const char *clause);           // loop invariant, at a loop header
void vp_variant(uint64_t v);                             // decreases with every iteration
void vp_modifies(const void *p, size_t n);               // what a loop modifies besides its header variables
void vp_uf(const char *name, const void *in, unsigned inbits, void *out, unsigned outbits);  // uninterpreted function
}
#endif

namespace vp {
using ::logic::bit;
using ::logic::big_num;

template <unsigned N>
using U = unsigned _BitInt(N);
template <unsigned N>
using S = signed _BitInt(N);

template <class B>
inline constexpr unsigned W = B::size;

// ---- two-state vectors -----------------------------------------------------------------------
// raw: the abstract value, i.e. the low W bits of the stored representation
template <class B>
U<W<B>> raw(const B &b) {
    constexpr unsigned N = W<B>;
    if constexpr (N <= 64) {
        return (U<N>)b.value;
    } else {
        constexpr unsigned s = (N + 63) / 64;
        U<s * 64> r = 0;
        for (unsigned i = 0; i < s; i++) r |= (U<s * 64>)b.value.values[i] << (64 * i);
        return (U<N>)r;
    }
}
template <uint64_t N, bool sg>
U<N> rawn(const big_num<N, sg> &b) {
    constexpr unsigned s = (N + 63) / 64;
    U<s * 64> r = 0;
    for (unsigned i = 0; i < s; i++) r |= (U<s * 64>)b.values[i] << (64 * i);
    return (U<N>)r;
}
// canonical stored form of x
template <class B>
void store(B &b, U<W<B>> x) {
    constexpr unsigned N = W<B>;
    if constexpr (N == 1) {
        b.value = (x != 0);
    } else if constexpr (N <= 64) {
        if constexpr (B::is_signed) {
            b.value = (typename B::T)(S<N>)x;
        } else {
            b.value = (typename B::T)x;
        }
    } else {
        constexpr unsigned s = (N + 63) / 64;
        U<s * 64> y = x;
        for (unsigned i = 0; i < s; i++) b.value.values[i] = (uint64_t)(y >> (64 * i));
    }
}
template <uint64_t N, bool sg>
void storen(big_num<N, sg> &b, U<N> x) {
    constexpr unsigned s = (N + 63) / 64;
    U<s * 64> y = x;
    for (unsigned i = 0; i < s; i++) b.values[i] = (uint64_t)(y >> (64 * i));
}
// representation invariant: every bit beyond the declared width is the extension of the value
template <class B>
bool wf(const B &b) {
    constexpr unsigned N = W<B>;
    if constexpr (N == 1) {
        return true;  // bool: anything but 0/1 is caught as an invalid load
    } else if constexpr (N <= 64) {
        if constexpr (B::is_signed) {
            return b.value == (typename B::T)(S<N>)raw(b);
        } else {
            return b.value == (typename B::T)raw(b);
        }
    } else if constexpr (N % 64 == 0) {
        return true;
    } else {
        return (b.value.values[N / 64] >> (N % 64)) == 0;
    }
}
template <uint64_t N, bool sg>
bool wfn(const big_num<N, sg> &b) {
    if constexpr (N % 64 == 0) return true;
    else return (b.values[N / 64] >> (N % 64)) == 0;
}
template <unsigned N>
U<N> sym(const char *name) {
    U<N> x = 0;
    vp_sym(&x, N, name);
    return x;
}

// widen the abstract value to M bits using the operand's own signedness
template <unsigned M, class B>
U<M> ext(U<W<B>> x) {
    constexpr unsigned N = W<B>;
    if constexpr (M <= N) return (U<M>)x;
    else if constexpr (B::is_signed && N > 1) return (U<M>)(S<M>)(S<N>)x;
    else return (U<M>)x;
}
template <unsigned M, unsigned N, bool sg>
U<M> extn(U<N> x) {
    if constexpr (M <= N) return (U<M>)x;
    else if constexpr (sg && N > 1) return (U<M>)(S<M>)(S<N>)x;
    else return (U<M>)x;
}

// ---- four-state vectors ----------------------------------------------------------------------
template <class L>
U<W<L>> val(const L &l) {
    if constexpr (L::is_4state) return raw(l.value);
    else return raw(l);
}
template <class L>
U<W<L>> xz(const L &l) {
    if constexpr (L::is_4state) return raw(l.xz_mask);
    else return 0;
}
template <class L>
bool ok(const L &l) {
    if constexpr (L::is_4state) return wf(l.value) && wf(l.xz_mask);
    else return wf(l);
}
template <class L>
void put(L &l, U<W<L>> v, U<W<L>> m) {
    if constexpr (L::is_4state) { store(l.value, v); store(l.xz_mask, m); }
    else store(l, v);
}
// arbitrary well-formed operand
template <class L>
void init(L &l, const char *v, const char *m) {
    if constexpr (L::is_4state) { store(l.value, sym<W<L>>(v)); store(l.xz_mask, sym<W<L>>(m)); }
    else store(l, sym<W<L>>(v));
}
template <class L>
bool same(const L &l, const L &k) {
    if constexpr (L::is_4state) return val(l) == val(k) && xz(l) == xz(k) && ok(l);
    else return val(l) == val(k) && ok(l);
}
template <class R, unsigned N>
bool is(const R &r, U<N> v, U<N> m) {
    static_assert(W<R> == N);
    if constexpr (R::is_4state) return val(r) == v && xz(r) == m;
    else return val(r) == v;
}
template <unsigned N>
inline constexpr U<N> ones = (U<N>)~(U<N>)0;

template <int hi, int lo = 0, bool sg = false>
using L4 = ::logic::logic<hi, lo, sg>;
template <int hi, int lo = 0, bool sg = false>
using B2 = ::logic::bit<hi, lo, sg>;

// the address of a member function, to name it in vp_use
template <class PM>
const void *addr(PM pm) {
    const void *p;
    __builtin_memcpy(&p, &pm, sizeof(p));
    return p;
}
// use the contract SPEC for the member function selected by the cast CAST of PTR, if there is such a function
#define VP_USE_MEMBER(CAST, PTR, SPEC) \
    if constexpr (requires { static_cast<CAST>(PTR); }) vp_use(vp::addr(static_cast<CAST>(PTR)), (const void *)(SPEC))
// an operand with a given abstract value
#define VP_AT(T, x, v) T x; vp::put(x, v, 0); const T x##_0 = x

#define VP_IN(T, x) T x; vp::init(x, #x, #x ".xz"); const T x##_0 = x
#define VP_FRAME(x) vp_assert(vp::same(x, x##_0), "frame: operand " #x " is unchanged")
}  // namespace vp
using namespace vp;
