"""Which contract units decide which property."""

import json
import os
import re

TRUSTED = [
    'clang 18 front end: C++ to LLVM IR at -O0 (then mem2reg, loop-simplify, lcssa)',
    'lcv VC generator and term normaliser (/verif/engine)',
    'z3-new and cvc5 answers "unsat"',
    'the contract text in /verif/contracts',
]
ASSUMPTIONS = [
    'every contract is proved for each listed instance (width, signedness, operand pair) and for all values of that instance; widths that are not listed are not covered',
    'operands are well formed on entry: bits beyond the declared width are the canonical extension (every operation is proved to establish this)',
    'libstdc++ headers (std::array, std::reduce, std::copy_n, std::popcount, ...) are not assumed: their bodies are part of the verified IR',
    'x86-64, 64-bit limbs, two\'s complement; machine arithmetic is exact (bit-vectors), never mathematical integers',
]


def L(n, s=False):
    return f'L4<{n-1},0,{"true" if s else "false"}>'


def B(n, s=False):
    return f'B2<{n-1},0,{"true" if s else "false"}>'


# width classes: every holder type, both sides of every holder boundary, limb boundaries up to 5 limbs
CORE = [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 63, 64, 65, 66, 95, 100, 127, 128, 129, 160, 191, 192, 193, 256, 257, 300]
DENSE = sorted(set(list(range(1, 131)) + [160, 190, 191, 192, 193, 194, 200, 255, 256, 257, 258, 300, 320, 321, 512, 513]))
SMALL = [1, 4, 8, 13, 16, 32, 33, 64, 65, 100, 128, 129, 192]
# mixed pairs: native/native across holders, native/big, big/big with equal and different limb counts
PAIRS = [(1, 8), (3, 7), (8, 7), (5, 16), (16, 17), (8, 32), (33, 32), (31, 64), (64, 63), (1, 65), (8, 65), (64, 65), (65, 64), (32, 100), (100, 64),
         (65, 66), (66, 127), (70, 128), (128, 127), (65, 129), (129, 128), (100, 200), (192, 65), (193, 192), (63, 257)]
PAIRS_T = PAIRS + [(a, b) for a in (1, 2, 6, 8, 9, 12, 16, 20, 32, 40, 63, 64, 65, 96, 127, 128, 130, 192, 256) for b in (1, 5, 8, 15, 24, 32, 48, 64, 65, 80, 128, 129, 160, 193) if a != b]


def sg(n):
    """signedness choices for width n (a signed single bit is outside the domain)"""
    return [False, True] if n > 1 else [False]


def same(ws, mk):
    return [(mk(w, s), mk(w, t)) for w in ws for s in sg(w) for t in sg(w)]


def mixed(ps, mk, both=True):
    out = []
    for a, b in ps:
        for x, y in ([(a, b), (b, a)] if both else [(a, b)]):
            for s in sg(x):
                for t in sg(y):
                    out.append((mk(x, s), mk(y, t)))
    return out


def uniq(xs):
    return list(dict.fromkeys(xs))


def every(xs, k, off=0):
    return xs[off::k]


def G(n, s=False):
    return f'G<{n},{"true" if s else "false"}>'


# big_num through its own interface, down to one limb (slices of big numbers are such numbers)
GW = [1, 20, 33, 63, 64, 65, 100, 128, 129, 192, 300]
GP = [(8, 20), (20, 33), (33, 64), (64, 65), (20, 100), (63, 128), (65, 128), (100, 200), (64, 192), (127, 129), (129, 300)]
GP_T = GP + [(1, 64), (1, 65), (64, 128), (63, 64), (65, 66), (120, 130), (191, 192), (192, 193), (65, 257), (128, 256), (256, 257), (100, 512)]


def gun(ws, *fams):
    return [f'{f}<{G(w, s)}>' for f in fams for w in ws for s in sg(w)]


def gbin(tier, *fams):
    t = tier == 'thorough'
    return [f'{f}<{a},{b}>' for f in fams for a, b in same(DENSE if t else GW, G) + mixed(GP_T if t else GP, G, True)]


def bitwise(tier):
    t = tier == 'thorough'
    ws = DENSE if t else CORE
    ops = ['OpAnd', 'OpOr', 'OpXor']
    e = []
    for op in ops:
        for a, b in same(ws, L) + mixed(PAIRS_T if t else PAIRS, L, True):
            e.append(f'h_bin<{op},{a},{b}>')
        for a, b in same(ws if t else SMALL, B) + mixed(PAIRS, B, t):
            e.append(f'h_bin<{op},{a},{b}>')
        for w in (SMALL if t else [1, 8, 33, 64, 65, 128]):
            for s in sg(w):
                e.append(f'h_bin<{op},{L(w, s)},{B(w)}>')
                e.append(f'h_bin<{op},{L(w, s)},{B(2 * w + 1, True)}>')
        for a, b in same(SMALL, L) + mixed(PAIRS[::2 if not t else 1], L, t):
            e.append(f'h_asg<{op},{a},{b}>')
        for a, b in same([8, 64, 65, 129], B) + mixed(PAIRS[::3], B, t):
            e.append(f'h_asg<{op},{a},{b}>')
    for w in DENSE:
        for s in sg(w):
            e.append(f'h_not<{L(w, s)}>')
            e.append(f'h_not<{B(w, s)}>')
    return [('c_bitwise.hh', uniq(e)), ('c_bignum.hh', gbin(tier, 'h_gbits') + gun(DENSE, 'h_gnot'))]


def un(ws, *fams):
    return [f'{f}<{m(w, s)}>' for f in fams for w in ws for s in sg(w) for m in (L, B)]


def reductions(tier):
    t = tier == 'thorough'
    ws = DENSE if t else sorted(set(CORE + list(range(1, 67))))
    # the four-state scans cost grows with the square of the width
    e = un([w for w in ws if t or w <= 200], 'h_red') + un(ws, 'h_truth') + un(CORE if not t else DENSE, 'h_redx')
    e += [f'h_red<{B(w, s)}>' for w in ws for s in sg(w)]
    for w in (DENSE if t else CORE):
        for s in sg(w):
            e += [f'h_count<{B(w, s)}>', f'h_sets<{B(w, s)}>', f'h_high<{B(w, s)}>']
    gw = DENSE if t else sorted(set(CORE + GW))
    return [('c_reduce.hh', uniq(e)), ('c_bignum.hh', gun(gw, 'h_gquery', 'h_gparity', 'h_gcount'))]


def arith(tier):
    t = tier == 'thorough'
    e = []
    for op in ('OpAdd', 'OpSub'):
        for a, b in same(DENSE if t else CORE, L) + mixed(PAIRS_T if t else PAIRS, L, True):
            e.append(f'h_ar<{op},{a},{b}>')
        for a, b in same(DENSE if t else SMALL, B) + mixed(PAIRS_T if t else PAIRS, B, t):
            e.append(f'h_ar<{op},{a},{b}>')
        for w in SMALL:
            for s in sg(w):
                e.append(f'h_ar<{op},{L(w, s)},{B(w)}>')
                e.append(f'h_ar<{op},{L(w, s)},{B(2 * w + 1, True)}>')
    ws = DENSE if t else sorted(set(CORE + list(range(1, 67, 3))))
    e += un(ws, 'h_neg', 'h_inc', 'h_dec')
    for w in ws:
        for s in sg(w):
            e.append(f'h_negate<{B(w, s)}>')
    g = gbin(tier, 'h_gadd') + gun(ws, 'h_gneg')
    for a, b in mixed(GP_T if t else GP, G, True):
        m = max(int(x.split('<')[1].split(',')[0]) for x in (a, b))
        g += [f'h_gaddt<{a},{b},{M}>' for M in ((m, m + 1, m + 64, 2 * m + 3) if t else (m + 29,))]
    return [('c_arith.hh', uniq(e)), ('c_bignum.hh', uniq(g))]


def shifts(tier):
    t = tier == 'thorough'
    e = []
    am = [(1, False), (4, False), (7, True), (8, False), (32, False), (32, True), (64, False), (65, False), (100, True), (129, False)]
    ws = DENSE if t else CORE
    big = [w for w in ws if w > 64 and (t or w <= 200)]
    for w in (sorted(set(big), reverse=True)):
        for s in (False, True):
            e += [f'h_bn<{op},{w},{"true" if s else "false"}>' for op in ('ShL', 'ShR', 'ShA')]
    for f in ('h_sh<DoShl,', 'h_sh<DoShr,', 'h_sh<DoAshl,', 'h_ashr<'):
        for i, w in enumerate([w for w in ws if w <= 64 or w in big]):
            for j, s in enumerate(sg(w)):
                # every width with a few amount types, every amount type with many widths
                use = am if t else [am[(2 * i + j) % len(am)], am[(2 * i + j + 3) % len(am)]]
                for n, ns in use:
                    e.append(f'{f}{L(w, s)},{L(n, ns)}>')
                    if f != 'h_ashr<' and (t or i % 3 == 0):
                        e.append(f'{f}{L(w, s)},{B(n, ns)}>')
                    if t or i % 2 == 0:
                        e.append(f'{f}{B(w, s)},{B(n, ns)}>')
    for i, w in enumerate(SMALL):
        for s in sg(w):
            n, ns = am[i % len(am)]
            e.append(f'h_shas<{L(w, s)},{L(n, ns)}>')
            e.append(f'h_shas<{B(w, s)},{B(n, ns)}>')
    g = []
    gw = DENSE if t else [w for w in GW if w <= 200]
    for i, w in enumerate(gw):
        for s in sg(w):
            if w <= 64:
                g += [f'h_bn<{op},{w},{"true" if s else "false"}>' for op in ('ShL', 'ShR', 'ShA')]
            for k, (n, ns) in enumerate([(20, False), (64, True), (65, False), (100, True), (200, False), (300, True)]):
                if t or (k + i) % 2 == 0:
                    g.append(f'h_gshift<{G(w, s)},{G(n, ns)}>')
    return [('c_shift.hh', uniq(e)), ('c_bignum.hh', g)]


def compare(tier):
    t = tier == 'thorough'
    e = []
    for f in ('h_cmp', 'h_match'):
        for a, b in same(DENSE if t else CORE, L) + mixed(PAIRS_T if t else PAIRS, L, True):
            e.append(f'{f}<{a},{b}>')
        for a, b in same(DENSE if t else SMALL, B) + mixed(PAIRS_T if t else PAIRS, B, t):
            e.append(f'{f}<{a},{b}>')
        for w in SMALL:
            for s in sg(w):
                e.append(f'{f}<{L(w, s)},{B(w)}>')
                e.append(f'{f}<{L(w, s)},{B(2 * w + 1, True)}>')
    for a, b in (PAIRS_T if t else PAIRS):
        for x in sg(a):
            for y in sg(b):
                e += [f'h_cmpb<{B(a, x)},{L(b, y)}>', f'h_cmpb<{B(b, y)},{L(a, x)}>']
    for w in (DENSE if t else SMALL):
        for s in sg(w):
            e += [f'h_cmpb<{B(w, s)},{L(w, s)}>', f'h_cmpb<{B(w, s)},{L(w, s and w % 2 == 0)}>']
    g = gbin(tier, 'h_gcmp')
    for i, w in enumerate(DENSE if t else CORE):
        for s in sg(w):
            g += [f'h_gcmpi<{G(w, s)},{ty}>' for k, ty in enumerate(INTS) if t or (k + i) % 3 == 0 or w in (64, 100)]
    return [('c_compare.hh', uniq(e)), ('c_bignum.hh', g)]


def tf(s):
    return 'true' if s else 'false'


# declared ranges: both directions, non-zero and negative right bound, every holder class
RANGES = [(7, 0), (0, 7), (11, 4), (4, 11), (3, -4), (-4, 3), (15, 0), (0, 15), (32, 1), (1, 32), (62, 0), (63, 0), (0, 63), (64, 1), (70, 7), (7, 70),
          (64, 0), (0, 64), (99, 0), (0, 99), (107, 8), (8, 107), (127, 0), (0, 127), (128, 0), (135, 7), (5, 133), (191, 0), (192, 0), (0, 0), (5, 5)]


def index(tier):
    t = tier == 'thorough'
    e = []
    rs = RANGES + ([(w - 1, 0) for w in DENSE] + [(3, w + 2) for w in DENSE[::3]] if t else [(w - 1, 0) for w in CORE if w <= 200])
    rs = uniq(rs)
    for i, (h, l) in enumerate(rs):
        for s in ([False, True] if h != l else [False]):
            for f in ('h_index', 'h_set'):
                e += [f'{f}<{k},{h},{l},{tf(s)}>' for k in ('LT', 'BT')]
            e.append(f'h_setx<LT,{h},{l},{tf(s)}>')
            am = [(3, False), (8, True), (32, False), (32, True), (33, True), (64, False), (64, True), (65, False), (100, True)]
            for n, ns in (am if t else [am[(2 * i + s) % len(am)], am[(2 * i + s + 5) % len(am)]]):
                e.append(f'h_getv<LT,{h},{l},{tf(s)},{L(n, ns)}>')
                e.append(f'h_getv<LT,{h},{l},{tf(s)},{B(n, ns)}>')
                e.append(f'h_getv<BT,{h},{l},{tf(s)},{B(n, ns)}>')
    for w in (DENSE[:130:4] if t else [1, 8, 13, 32, 64, 65, 100]):
        for s in sg(w):
            e += [f'h_get<LT,{w-1},{tf(s)}>', f'h_get<BT,{w-1},{tf(s)}>', f'h_sett<LT,{w-1},0,{tf(s)}>', f'h_sett<BT,{w-1},0,{tf(s)}>']
    for h, l in [(7, 0), (0, 7), (11, 4), (4, 11), (3, -4), (-4, 3), (1, 32), (64, 1), (7, 70), (70, 7), (0, 64), (135, 7)]:
        e += [f'h_sett<{k},{h},{l},{tf(s)}>' for k in ('LT', 'BT') for s in (False, True) if k == 'BT' or min(h, l) >= 0]
    g = gun(DENSE if t else GW, 'h_gindex') + gun(DENSE[:130:4] + [192, 300] if t else [1, 20, 64, 65, 130], 'h_gbit')
    return [('c_index.hh', uniq(e)), ('c_bignum.hh', g)]


# widths of the sliced vector and (hi, lo) of the slices
SLICES = {1: [(0, 0)], 8: [(7, 0), (3, 2), (7, 7), (0, 0), (5, 1)], 16: [(15, 8), (8, 7), (14, 0)], 33: [(32, 32), (32, 1), (31, 0)], 64: [(63, 0), (63, 1), (62, 31), (40, 33), (63, 63)],
          65: [(64, 64), (64, 0), (63, 0), (64, 1), (10, 3)], 100: [(99, 36), (99, 35), (63, 0), (64, 63), (70, 60), (98, 1)], 128: [(127, 64), (127, 63), (127, 0), (64, 1), (100, 100)],
          129: [(128, 64), (128, 128), (127, 0), (128, 0)], 192: [(191, 64), (130, 60), (150, 21), (191, 128)], 257: [(256, 1), (256, 192), (200, 60)]}


def slices(tier):
    t = tier == 'thorough'
    e = []
    for w, ps in SLICES.items():
        if t:
            ps = uniq(ps + [(h, l) for h in range(0, w, 7 if w < 70 else 23) for l in range(0, h + 1, 9 if w < 70 else 31)])
        for h, l in ps:
            for s in sg(w):
                for k in ('LT', 'BT'):
                    e.append(f'h_slice<{k},{w-1},0,{tf(s)},{h},{l}>')
                    if h != l:
                        e.append(f'h_slice<{k},{w-1},0,{tf(s)},{l},{h}>')
    for h, l, a, b in [(11, 4, 7, 4), (11, 4, 6, 5), (107, 8, 99, 8), (107, 8, 80, 10), (107, 8, 75, 10), (70, 7, 63, 8)]:
        for s in (False, True):
            e += [f'h_slice<{k},{h},{l},{tf(s)},{a},{b}>' for k in ('LT', 'BT')]
    rs = [(7, 0), (0, 7), (11, 4), (31, 0), (63, 0), (0, 63), (64, 0), (0, 64), (99, 0), (107, 8), (127, 0), (128, 0)]
    ts = [1, 4, 8, 13, 64, 65, 80]
    bs = [(3, False), (8, True), (32, True), (32, False), (64, False)]
    i = 0
    for h, l in rs:
        w = abs(h - l) + 1
        for s in (False, True):
            for T in ts:
                if T > w + 8 or (T > 13 and not t and (w + T) % 3):
                    continue
                i += 1
                if not t and i % 2:
                    continue
                e += [f'h_rslice<{k},{h},{l},{tf(s)},{T}>' for k in ('LT', 'BT')]
                n, ns = bs[i // 2 % len(bs)]
                e.append(f'h_islice<LT,{h},{l},{tf(s)},{T},{L(n, ns)}>')
                e.append(f'h_islice<BT,{h},{l},{tf(s)},{T},{B(n, ns)}>')
    g = []
    for w, ps in SLICES.items():
        if t:
            ps = uniq(ps + [(h, l) for h in range(0, w, 7 if w < 70 else 23) for l in range(0, h + 1, 9 if w < 70 else 31)])
        for h, l in ps:
            for s in sg(w):
                g += [f'h_gslice<{G(w, s)},{h},{l}>', f'h_gslice<{G(w, s)},{l},{h}>']
    for i, w in enumerate(GW):
        for s in sg(w):
            for k, T in enumerate([1, 4, 13, 33]):
                if t and w < 200 or (T <= 13 and w < 200 and (i + k + s) % 2 == 0):
                    g.append(f'h_grslice<{G(w, s)},{T}>')
    return [('c_slice.hh', uniq(e)), ('c_bignum.hh', uniq(g))]


def updates(tier):
    t = tier == 'thorough'
    e = []
    i = 0
    for w, ps in SLICES.items():
        if t:
            ps = uniq(ps + [(h, l) for h in range(0, w, 11 if w < 70 else 37) for l in range(0, h + 1, 13 if w < 70 else 41)])
        for h, l in ps:
            for s in sg(w):
                i += 1
                T = h - l + 1
                ops = uniq([T, max(1, T - 3), T + 5])
                for n in (ops if t else [ops[0], ops[i % len(ops)]]):
                    e.append(f'h_update<LT,{w-1},0,{tf(s)},{h},{l},{L(n, n > 1 and i % 2 == 0)}>')
                    e.append(f'h_update<BT,{w-1},0,{tf(s)},{h},{l},{B(n, n > 1 and i % 2 == 0)}>')
    rs = [(7, 0), (0, 7), (11, 4), (31, 0), (63, 0), (0, 63), (64, 0), (0, 64), (99, 0), (107, 8), (127, 0), (128, 0)]
    ts = [1, 4, 8, 13, 64, 65]
    bs = [(3, False), (8, True), (32, True), (32, False), (64, False)]
    i = 0
    for h, l in rs:
        w = abs(h - l) + 1
        for s in (False, True):
            for T in ts:
                if T > w + 8 or (w > 60 and T > 13 and not t):
                    continue
                i += 1
                if not t and i % 2:
                    continue
                n, ns = bs[i // 2 % len(bs)]
                o = [T, T + 3, max(1, T - 2)][i // 2 % 3]
                e.append(f'h_rupdate<LT,{h},{l},{tf(s)},{T},{L(o)}>')
                e.append(f'h_rupdate<BT,{h},{l},{tf(s)},{T},{B(o)}>')
                e.append(f'h_iupdate<LT,{h},{l},{tf(s)},{T},{L(o)},{L(n, ns)}>')
                e.append(f'h_iupdate<BT,{h},{l},{tf(s)},{T},{B(o)},{B(n, ns)}>')
    return [('c_update.hh', uniq(e))]


CATS = [(1, 1), (1, 7), (8, 8), (13, 3), (16, 16), (31, 1), (32, 32), (33, 31), (40, 40), (63, 1), (1, 63), (64, 1), (1, 64), (64, 64), (65, 63), (63, 65), (100, 28), (5, 100), (128, 64), (70, 122), (129, 65)]


def concat(tier):
    t = tier == 'thorough'
    e = []
    ps = CATS + ([(a, b) for a in (1, 3, 8, 20, 33, 64, 65, 96, 127, 128, 150) for b in (1, 2, 9, 16, 31, 44, 63, 64, 65, 100, 128, 160)] if t else [])
    for a, b in ps:
        for s in sg(a):
            for u in sg(b):
                e += [f'h_cat2<{L(a, s)},{L(b, u)}>', f'h_cat2<{B(a, s)},{B(b, u)}>', f'h_cat2<{L(a, s)},{B(b, u)}>']
                e += [f'h_catun<{L(a, s)},{L(b, u)}>', f'h_catun<{B(a, s)},{B(b, u)}>']
                n = a + b
                for x in ((n, not s), (n + 3, s)):
                    e += [f'h_unpack2<{L(*x)},{L(a, s)},{L(b, u)}>', f'h_unpack2<{B(*x)},{B(a, s)},{B(b, u)}>', f'h_unpack2<{B(*x)},{B(a, s)},{L(b, u)}>', f'h_unpack2<{B(*x)},{L(a, s)},{B(b, u)}>']
        e += [f'h_unpack1<{L(a + b)},{L(a, a > 1)}>', f'h_unpack1<{B(a + b)},{B(b, b > 1)}>']
    tr = [(1, 1, 1), (4, 4, 4), (3, 60, 1), (8, 56, 1), (32, 16, 16), (60, 3, 70), (64, 64, 64), (1, 128, 7), (65, 1, 65), (100, 20, 9)]
    for i, (a, b, c) in enumerate(tr):
        for k in range(8 if t else 4):
            s, u, v = (a > 1 and bool(k & 1)), (b > 1 and bool((k ^ i) & 2)), (c > 1 and bool((k + i) & 1))
            for m in (L, B):
                e += [f'h_cat3<{m(a, s)},{m(b, u)},{m(c, v)}>', f'h_unpack3<{m(a + b + c)},{m(a, s)},{m(b, u)},{m(c, v)}>', f'h_cat4<{m(b, u)},{m(a, s)},{m(c, v)},{m(5, s)}>']
            e += [f'h_cat3<{L(a, s)},{B(b, u)},{L(c, v)}>', f'h_unpack3<{B(a + b + c + 1)},{B(a, s)},{L(b, u)},{B(c, v)}>']
    g = [f'h_gconcat<{G(a, s)},{G(b, u)}>' for a, b in ps for s in sg(a) for u in sg(b)]
    return [('c_concat.hh', uniq(e)), ('c_bignum.hh', g)]


INTS = ['bool', 'signed char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long']


def convert(tier):
    t = tier == 'thorough'
    e = []
    ws = DENSE if t else CORE
    for i, w in enumerate(ws):
        for s in sg(w):
            for m in (L, B):
                e += [f'h_default<{m(w, s)}>', f'h_signs<{m(w, s)}>']
                for k, ty in enumerate(INTS):
                    if t or (k + i) % 2 == 0 or w in (8, 32, 64, 65, 128):
                        e.append(f'h_fromint<{m(w, s)},{ty}>')
            e.append(f'h_lift<{L(w, s)},{B(w, s)}>')
            if not s:
                e.append(f'h_lift<{L(w, s)},{B(w, True)}>') if w > 1 else None
            for M in ([w, w + 1, 8, 16, 17, 32, 33, 64, 65, 100, 128, 129, 192, 257] if t else uniq([w, w + 1, 32, 64, 65, 100, 128, 200])):
                if M >= w:
                    e += [f'h_extend<{m(w, s)},{M}>' for m in (L, B)]
                elif not s:
                    e.append(f'h_extend<{B(w, s)},{M}>')
    for a, b in same(SMALL, L) + mixed(PAIRS_T if t else PAIRS, L, True):
        e.append(f'h_assign<{a},{b}>')
    for a, b in same(SMALL, B) + mixed(PAIRS_T if t else PAIRS, B, True):
        e.append(f'h_assign<{a},{b}>')
    for x, y in PAIRS_T if t else PAIRS:
        for m in (L, B):
            for a, b in ((x, y), (y, x)):
                if b > 1:
                    e += [f'h_construct<{m(a, s)},{m(b, True)}>' for s in sg(a)]
    # declared ranges do not matter
    for a, b in [('L4<11,4,false>', 'L4<7,0,true>'), ('L4<4,11,true>', 'L4<7,0,true>'), ('L4<70,5,false>', 'L4<0,65,true>'), ('B2<4,11,true>', 'B2<8,1,false>'), ('B2<107,8,false>', 'B2<99,0,true>')]:
        e += [f'h_assign<{a},{b}>', f'h_assign<{b},{a}>', f'h_signs<{a}>', f'h_signs<{b}>']
        if a[0] == 'L':
            e.append(f'h_construct<{a},{b}>')
    e.append('h_literals')
    for i, w in enumerate(ws):
        if w <= 64:
            for s in sg(w):
                e += [f'h_frombn<{B(w, s)},{M},{tf((k + i) % 2 == 0)}>' for k, M in enumerate(uniq([max(w, 2), w + 1, 64, 65, 100, 128, 200])) if M >= w]
    g = gun(ws, 'h_gsign')
    for i, w in enumerate(ws):
        for s in sg(w):
            g += [f'h_gfrom<{G(w, s)},{ty}>' for k, ty in enumerate(INTS) if t or (k + i) % 3 == 0]
            g += [f'h_gextend<{G(w, s)},{M}>' for M in uniq([w, w + 1, 64, 65, 129, w + 64, 300]) if M >= w]
    return [('c_convert.hh', uniq(e)), ('c_bignum.hh', g)]


# packed arrays: (declared bounds, element types)
ABOUNDS = [(3, 0), (0, 3), (0, 0), (5, 2), (2, 5), (1, -2), (-2, 1), (9, 0), (4, 6)]


def arrays(tier):
    t = tier == 'thorough'
    e = []
    els = [1, 3, 8, 15, 16, 20, 32, 33, 64, 65]
    am = [(3, False), (4, True), (8, False), (32, True), (32, False), (64, False), (64, True), (65, False), (100, True)]
    i = 0
    for w in els if not t else els + [2, 5, 13, 31, 63, 100, 128]:
        for h, l in ABOUNDS:
            n = abs(h - l) + 1
            if n * w > (330 if t else 260) or n * w == 1:
                continue
            for s in sg(w):
                i += 1
                if not t and s and i % 3:
                    continue
                for m, f in ((L, 'LT'), (B, 'BT')):
                    T = m(w, s)
                    for k in range(3 if t else 1):
                        ix = L(*am[(i + 4 * k) % len(am)])
                        e.append(f'h_elem<{T},{h},{l},{ix}>')
                        o = [w, w + 4, max(1, w - 2)][(i + k) % 3]
                        ix = L(*am[(i + 4 * k + 2) % len(am)])
                        e.append(f'h_eupdate<{T},{h},{l},{ix},{m(o, o > 1 and bool(i & 1))}>')
                    mn, mx = min(h, l), max(h, l)
                    sl = uniq([(h, l), (mx, mx), (mn, mn), (mn, mx) if h > l else (mx, mn)] + ([(mn + 1, mn), (mx, mx - 1), (mx - 1, mx)] if n > 2 else []))
                    for x, y in sl if t else [sl[i % len(sl)], sl[(i + 2) % len(sl)], sl[-1]]:
                        # the ascending spelling of an element slice is the same part
                        e.append(f'h_aslice<{T},{h},{l},{x},{y}>')
                        N = w * (abs(x - y) + 1)
                        o = [N, N + 3, max(1, N - 5)][i % 3]
                        e.append(f'h_aupdate<{T},{h},{l},{x},{y},{m(o, o > 1 and bool(i & 2))}>')
                    if t or i % 4 == 0:
                        e.append(f'h_whole<{T},{h},{l},{m(n * w, False)}>')
                        e.append(f'h_whole<{T},{h},{l},{m(n * w + 7, n * w > 1)}>')
                    if n * w > 1:
                        e.append(f'h_afrom<{T},{h},{l},{INTS[1 + i % 10]}>')
    # arrays of arrays
    for m in (L, B):
        for w, ih, il, h, l in [(4, 3, 0, 1, 0), (8, 0, 1, 3, 0), (16, 3, 0, 0, 1), (20, 2, 0, 4, 2)]:
            T = f'PA<{m(w)},{ih},{il}>'
            n = w * (abs(ih - il) + 1)
            e += [f'h_elem<{T},{h},{l},{L(5)}>', f'h_eupdate<{T},{h},{l},{L(32, True)},{m(n)}>', f'h_aslice<{T},{h},{l},{h},{l}>', f'h_aslice<{T},{h},{l},{h},{h}>', f'h_aupdate<{T},{h},{l},{l},{l},{m(n)}>', f'h_aupdate<{T},{h},{l},{h},{l},{m(n - 1)}>']
    return [('c_array.hh', uniq(e))]


def aggregates(tier):
    t = tier == 'thorough'
    e = []
    els = [1, 4, 8, 16, 31, 32, 64, 65, 100, 129] if not t else [1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 192, 257]
    bounds = [(3, 0), (0, 3), (0, 0), (5, 2), (2, 5), (1, -2), (-2, 1), (9, 0), (4, 6)]
    i = 0
    for w in els:
        for h, l in bounds:
            for s in sg(w):
                i += 1
                for m in (L, B):
                    e.append(f'h_uread<{m(w, s)},{h},{l}>')
                    mn, mx = min(h, l), max(h, l)
                    ids = uniq([h, l, (mn + mx) // 2, mn - 1, mx + 1] + (list(range(mn, mx + 1)) if t else []))
                    for k, x in enumerate(ids):
                        if t or (k + i) % 2 == 0:
                            # update<idx> assigns; a type only takes what it can be assigned from
                            o = [w, w + 3, max(1, w - 1)][(i + k) % 3]
                            if o == 1 and w > 1:
                                o = 2
                            e.append(f'h_uwrite<{m(w, s)},{h},{l},{x},{m(o, o > 1 and bool(i & 1))}>')
    mem = {10: [(4, 0, 9, 5), (9, 5, 4, 0), (9, 9, 8, 0)], 16: [(15, 0, 7, 0), (7, 0, 15, 0), (11, 4, 7, 2)], 33: [(32, 1, 0, 0), (31, 0, 32, 0)], 64: [(63, 32, 31, 0), (63, 0, 40, 9)],
           65: [(64, 64, 63, 0), (64, 0, 63, 0)], 100: [(99, 36, 35, 0), (70, 60, 99, 64), (63, 0, 64, 64), (99, 0, 65, 62)], 128: [(127, 64, 63, 0), (64, 63, 127, 0)],
           130: [(128, 63, 129, 129), (65, 64, 63, 2)], 192: [(127, 64, 191, 128), (130, 61, 64, 0)], 1: [(0, 0, 0, 0)], 8: [(3, 0, 7, 4), (7, 7, 6, 6)]}
    for n, ms in mem.items():
        for a, b, c, d in ms:
            T = a - b + 1
            for k, o in enumerate(uniq([T, T + 3, max(1, T - 2)])):
                for four in (True, False):
                    m = L if four else B
                    for K in ('PS', 'UN'):
                        e.append(f'h_members<{K}<{n},{tf(four)}>,{n},{tf(four)},{a},{b},{c},{d},{m(o, o > 1 and k == 1)}>')
    for m in (L, B):
        for a, b, o in [(13, 5, 13), (8, 64, 65), (65, 8, 33), (128, 129, 128), (3, 1, 9)]:
            e.append(f'h_ustruct<{m(a)},{m(b)},{m(o, True)}>')
    return [('c_aggr.hh', uniq(e))]


def big_widths(units):
    return sorted({max(w) for x in units for w in [[int(d) + 1 for d in re.findall(r'<(\d+)', x)]] if max(w) > 64})


def g_widths(units):
    """the widths at which operations of big_num on operands of different widths work"""
    return sorted({max(int(d) for d in re.findall(r'G<(\d+)', x)) for x in units})


def multiply(tier):
    t = tier == 'thorough'
    e = []
    for a, b in same(DENSE if t else CORE, L) + mixed(PAIRS_T if t else PAIRS, L, True):
        e.append(f'h_mul<{a},{b}>')
    for a, b in same(DENSE if t else SMALL, B) + mixed(PAIRS_T if t else PAIRS, B, t):
        e.append(f'h_mul<{a},{b}>')
    for w in SMALL:
        for s in sg(w):
            e.append(f'h_mul<{L(w, s)},{B(w)}>')
            e.append(f'h_mul<{L(w, s)},{B(2 * w + 1 if w < 150 else w + 1, True)}>')
    for w in big_widths(e):
        for a in ('false', 'true'):
            for b in ('false', 'true'):
                e += [f'h_bnmul<{w},{a},{b}>', f'h_bnadd<{w},{a},{b}>']
    g = gbin(tier, 'h_gmul')
    for w in g_widths(g):
        if w not in big_widths(e):
            g += [f'h_{f}<{w},{a},{b}>' for f in ('bnmul', 'bnadd') for a in ('false', 'true')[:len(sg(w))] for b in ('false', 'true')[:len(sg(w))]]
    return [('c_mul.hh', uniq(e)), ('c_bignum.hh', uniq(g))]


def divide(tier):
    t = tier == 'thorough'
    e = []
    for a, b in same(DENSE if t else CORE, L) + mixed(PAIRS_T if t else PAIRS, L, True):
        e.append(f'h_div<{a},{b}>')
    for a, b in same(DENSE if t else SMALL, B) + mixed(PAIRS_T if t else PAIRS, B, t):
        e.append(f'h_div<{a},{b}>')
    for w in SMALL:
        for s in sg(w):
            e.append(f'h_div<{L(w, s)},{B(w)}>')
            e.append(f'h_div<{L(w, s)},{B(2 * w + 1 if w < 150 else w + 1, True)}>')
    big = big_widths(e)
    e += [f'h_bnops<{w}>' for w in big] + [f'h_longdiv<{w}>' for w in big] + [f'h_lemmas<{w}>' for w in ((65, 128) if not t else (65, 66, 100, 127, 128, 129, 192))] + [f'h_bn<ShL,{w},false>' for w in big]
    g = gbin(tier, 'h_gdiv')
    more = [w for w in g_widths(g) if w not in big]
    g += [f'h_bnops<{w}>' for w in more] + [f'h_longdiv<{w}>' for w in more] + [f'h_bn<ShL,{w},false>' for w in more]
    return [('c_div.hh', uniq(e)), ('c_bignum.hh', uniq(g))]


def literals(tier):
    t = tier == 'thorough'
    e = []
    ws = [1, 4, 8, 13, 16, 31, 33, 63, 64, 65, 66, 100, 128, 129, 192] + ([2, 3, 5, 7, 9, 12, 15, 17, 24, 32, 48, 60, 62, 67, 96, 127, 130, 191, 193, 256, 300] if t else [])
    k = 0
    for w in ws:
        for base, st in (('b', 1), ('o', 3), ('h', 4), ('d', 3.33)):
            full = max(1, int(-(-w // st)))
            lens = [1, full, full + 1, full + 3, max(1, full // 2)]
            if w > 64:
                lens += [int(64 // st), int(64 // st) + 1, int(64 // st) + 2]
            if w <= 64:
                lens += [int(64 // st) + 3]   # digits beyond the word
            if t:
                lens += [2, 3, full + 8, int(64 // st) + 1, int(128 // st) + 2]
            cap = (70 if not t else 140) if base == 'b' else (50 if base == 'h' else 60) if not t else 80
            for n in uniq(min(x, cap) for x in lens):
                k += 1
                B_ = base.upper() if k % 3 == 0 else base
                s = w > 1 and k % 4 == 1
                # underscores: none, one in the middle, several
                us = [0, 0, 1 << (n // 2), 0x1248124 & ((1 << n) - 2)][k % 4]
                if n == 1:
                    us = 0
                if us >> (n - 1) & 1:
                    us = us | 0
                sized = 'true' if k % 5 else 'false'
                e.append(f"h_lit<{L(w, s)},'{B_}',{n},{us & (2**63 - 1):#x},false,{sized}>")
                if t or k % 2:
                    e.append(f"h_lit<{B(w, s)},'{B_}',{n},{us & (2**63 - 1):#x},false,{sized}>")
    # an underscore may be anywhere
    for w, base, n in [(8, 'b', 6), (64, 'b', 7), (65, 'b', 7), (12, 'o', 5), (65, 'o', 5), (16, 'h', 5), (64, 'h', 5), (100, 'h', 6), (16, 'd', 4), (33, 'd', 5), (65, 'd', 5)] + \
                      ([(65, 'h', 8), (130, 'o', 8), (33, 'b', 12), (128, 'd', 6), (3, 'h', 3)] if t else []):
        e.append(f"h_lit<{L(w)},'{base}',{n},0,true>")
        e.append(f"h_lit<{B(w, True)},'{base.upper()}',{n},0,true>")
    for w, n in [(8, 1), (8, 3), (20, 2), (32, 4), (32, 5), (64, 8), (64, 9), (65, 8), (65, 9), (100, 12), (128, 16), (130, 20), (192, 3)]:
        e.append(f'h_text<{L(w)},{n}>')
        e.append(f'h_text<{B(w, True)},{n}>')
    return [('c_literal.hh', uniq(e))]


# operands declared over a range other than [width-1:0]; the combinations that compile (the others are recorded in DESIGN.md)
RANGED = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'ranged.json')))
HEADER = {'C01': 'c_bitwise.hh', 'C02': 'c_reduce.hh', 'C03': 'c_arith.hh', 'C04': 'c_mul.hh', 'C05': 'c_div.hh', 'C06': 'c_shift.hh', 'C07': 'c_compare.hh',
          'C11': 'c_concat.hh', 'C12': 'c_convert.hh'}


def ranged(prop, fn):
    def units(tier):
        more = []
        for f, xs in RANGED[prop].items():
            more += xs if tier == 'thorough' or len(xs) <= 24 else xs[::3]
        return fn(tier) + [(HEADER[prop], more)]
    return units


PROPS = {
    'C01': dict(units=ranged('C01', bitwise)),
    'C02': dict(units=ranged('C02', reductions)),
    'C03': dict(units=ranged('C03', arith)),
    'C04': dict(units=ranged('C04', multiply), lean=['lemmas_mul.lean']),
    'C05': dict(units=ranged('C05', divide), lean=['lemmas.lean'], solo='h_longdiv|h_lemmas', query_timeout=90, unit_timeout=480),
    'C06': dict(units=ranged('C06', shifts)),
    'C07': dict(units=ranged('C07', compare)),
    'C08': dict(units=index),
    'C09': dict(units=slices),
    'C10': dict(units=updates),
    'C11': dict(units=ranged('C11', concat)),
    'C12': dict(units=ranged('C12', convert)),
    'C13': dict(units=arrays),
    'C14': dict(units=aggregates),
    'C15': dict(units=literals),
}
