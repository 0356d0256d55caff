// C15: literals.  The parser is compiled from /repo/src/util.cc itself.
#pragma once
#include "vp.hh"
#ifndef VP_NATIVE
// what the C standard says of the functions of libc that the parser reaches through std::string_view
extern "C" void *memchr(const void *p, int c, size_t n) noexcept {
    for (size_t i = 0; i < n; i++)
        if (((const unsigned char *)p)[i] == (unsigned char)c) return (void *)((const char *)p + i);
    return nullptr;
}
extern "C" size_t strlen(const char *p) noexcept {
    size_t n = 0;
    while (p[n]) n++;
    return n;
}
#endif
#ifndef VP_NATIVE
#include VP_UTIL   // src/util.cc of the repository; the native replay links it
#endif

namespace vp {
inline constexpr const char *chname[] = {"c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "c10", "c11",
    "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c19", "c20", "c21", "c22", "c23",
    "c24", "c25", "c26", "c27", "c28", "c29", "c30", "c31", "c32", "c33", "c34", "c35",
    "c36", "c37", "c38", "c39", "c40", "c41", "c42", "c43", "c44", "c45", "c46", "c47",
    "c48", "c49", "c50", "c51", "c52", "c53", "c54", "c55", "c56", "c57", "c58", "c59",
    "c60", "c61", "c62", "c63", "c64", "c65", "c66", "c67", "c68", "c69", "c70", "c71",
    "c72", "c73", "c74", "c75", "c76", "c77", "c78", "c79", "c80", "c81", "c82", "c83",
    "c84", "c85", "c86", "c87", "c88", "c89", "c90", "c91", "c92", "c93", "c94", "c95",
    "c96", "c97", "c98", "c99", "c100", "c101", "c102", "c103", "c104", "c105", "c106", "c107",
    "c108", "c109", "c110", "c111", "c112", "c113", "c114", "c115", "c116", "c117", "c118", "c119",
    "c120", "c121", "c122", "c123", "c124", "c125", "c126", "c127", "c128", "c129", "c130", "c131",
    "c132", "c133", "c134", "c135", "c136", "c137", "c138", "c139", "c140", "c141", "c142", "c143",
    "c144", "c145", "c146", "c147", "c148", "c149", "c150", "c151", "c152", "c153", "c154", "c155",
    "c156", "c157", "c158", "c159", "c160", "c161", "c162", "c163", "c164", "c165", "c166", "c167",
    "c168", "c169", "c170", "c171", "c172", "c173", "c174", "c175", "c176", "c177", "c178", "c179",
    "c180", "c181", "c182", "c183", "c184", "c185", "c186", "c187", "c188", "c189", "c190", "c191",
    "c192", "c193", "c194", "c195", "c196", "c197", "c198", "c199", "c200", "c201", "c202", "c203"};
// what one character of a literal may be, and the digit it spells
template <char BASE, bool XZ>
bool is_digit(uint8_t c) {
    constexpr char b = BASE | 0x20;
    if (XZ && b != 'd' && (c == 'x' || c == 'X' || c == 'z' || c == 'Z')) return true;
    if constexpr (b == 'b') return c == '0' || c == '1';
    if constexpr (b == 'o') return c >= '0' && c <= '7';
    if constexpr (b == 'd') return c >= '0' && c <= '9';
    return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
}
template <unsigned M>
U<M> digit_value(uint8_t c) {
    if (c == 'x' || c == 'X') return 0;
    if (c == 'z' || c == 'Z') return ones<M>;
    if (c >= 'a') return (U<M>)(c - 'a' + 10);
    if (c >= 'A') return (U<M>)(c - 'A' + 10);
    return (U<M>)(c - '0');
}
template <unsigned M>
U<M> digit_xz(uint8_t c) {
    return c == 'x' || c == 'X' || c == 'z' || c == 'Z' ? ones<M> : (U<M>)0;
}

// the literal  <size>'<BASE><N characters>  (without the size if !SIZED), underscores where bit i of US is set (i counts from the left);
// ANY: an underscore may be anywhere, except at the start
template <class V, char BASE, unsigned N, uint64_t US = 0, bool ANY = false, bool SIZED = true>
void h_lit() {
    constexpr unsigned w = W<V>;
    constexpr char b = BASE | 0x20;
    constexpr unsigned st = b == 'b' ? 1 : b == 'o' ? 3 : 4;
    constexpr bool xzd = V::is_4state && b != 'd';
    constexpr unsigned P = SIZED ? 5 : 2;
    char s[P + N];
    if constexpr (SIZED) {
        s[0] = '0' + w / 100 % 10;
        s[1] = '0' + w / 10 % 10;
        s[2] = '0' + w % 10;
    }
    s[P - 2] = '\'';
    s[P - 1] = BASE;
    constexpr unsigned tot = (N * st > w ? N * st : w) + 4;
    U<tot> ev = 0, em = 0;
    unsigned pos = 0;
    if constexpr (b == 'd') {
        for (unsigned i = 0; i < N; i++) {
            if (US >> i % 64 & 1) { s[P + i] = '_'; continue; }
            U<4> d = sym<4>(chname[i]);
#ifdef VP_NATIVE
            if (!(ANY && i > 0 && d == 15)) d %= 10;   // do not search among rejected inputs
#endif
            bool us = ANY && i > 0 && d == 15;
            vp_assume(us || d <= 9);
            s[P + i] = us ? '_' : (char)('0' + (unsigned)d);
            ev = us ? ev : (U<tot>)(ev * 10 + d);
        }
    } else {
        for (unsigned i = N; i-- > 0;) {
            if (US >> i % 64 & 1) { s[P + i] = '_'; continue; }
            U<8> c = sym<8>(chname[i]);
#ifdef VP_NATIVE
            if (c != '_' && !is_digit<BASE, xzd>((uint8_t)c)) {
                c = "0123456789abcdefABCDEFxXzZ10xz01"[c % 32];
                if (!is_digit<BASE, xzd>((uint8_t)c)) c = '0' + c % 2;
            }
            if (c == '_' && (!ANY || i == 0)) c = '1';
#endif
            bool us = ANY && i > 0 && c == '_';
            vp_assume(us || is_digit<BASE, xzd>((uint8_t)c));
            s[P + i] = (char)c;
            if (!us) {
                ev |= (U<tot>)digit_value<st>((uint8_t)c) << pos;
                em |= (U<tot>)digit_xz<st>((uint8_t)c) << pos;
                pos += st;
            }
        }
    }
    V r(std::string_view(s, P + N));
    vp_assert(val(r) == (U<w>)ev, "the value is the number the digits spell, cut at the width; an x digit is 0 and a z digit 1");
    if constexpr (V::is_4state) vp_assert(xz(r) == (U<w>)em, "exactly the bits of x and z digits are unknown");
    vp_assert(ok(r), "bits beyond the width are canonical");
}

// text without a quote: the characters are the bytes, the last one is the lowest
template <class V, unsigned N>
void h_text() {
    constexpr unsigned w = W<V>;
    constexpr unsigned tot = (N * 8 > w ? N * 8 : w) + 8;
    char s[N];
    U<tot> ev = 0;
    for (unsigned i = 0; i < N; i++) {
        U<8> c = sym<8>(chname[i]);
        vp_assume(c != '\'');
        s[i] = (char)(uint8_t)c;
        ev = ev << 8 | (U<tot>)c;
    }
    V r(std::string_view(s, N));
    vp_assert(val(r) == (U<w>)ev, "the value is made of the bytes of the text");
    if constexpr (V::is_4state) vp_assert(xz(r) == 0, "text has no unknown bits");
    vp_assert(ok(r), "bits beyond the width are canonical");
}
}  // namespace vp
