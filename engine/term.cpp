#include "term.h"
#include <llvm/ADT/Hashing.h>
#include <llvm/ADT/SmallString.h>
#include <algorithm>
#include <memory>

namespace lcv {
namespace {
struct PH { size_t operator()(const Node *n) const { return n->h; } };
struct PE {
    bool operator()(const Node *a, const Node *b) const {
        if (a->op != b->op || a->w != b->w || a->lo != b->lo || a->k != b->k || a->base != b->base) return false;
        if (a->name != b->name) return false;
        if (a->op == CONST || a->op == LIN) {
            if (a->c != b->c) return false;
            if (a->co.size() != b->co.size()) return false;
            for (size_t i = 0; i < a->co.size(); i++) if (a->co[i] != b->co[i]) return false;
        }
        return true;
    }
};
std::unordered_set<const Node *, PH, PE> table;
uint64_t nextId = 1;

size_t hc(size_t a, size_t b) { return a * 0x9E3779B97F4A7C15ull + b + (a >> 29); }

T intern(Node &&n) {
    size_t h = hc(n.op, n.w);
    h = hc(h, n.lo);
    for (auto x : n.k) h = hc(h, x->id);
    if (n.op == CONST || n.op == LIN) h = hc(h, llvm::hash_value(n.c));
    for (auto &x : n.co) h = hc(h, llvm::hash_value(x));
    if (!n.name.empty()) h = hc(h, std::hash<std::string>()(n.name));
    n.h = h;
    auto it = table.find(&n);
    if (it != table.end()) return *it;
    auto *p = new Node(std::move(n));
    p->id = nextId++;
    table.insert(p);
    return p;
}
Node N(Op op, unsigned w) { Node n; n.op = op; n.w = w; return n; }
T mk2(Op op, unsigned w, T a, T b) { Node n = N(op, w); n.k = {a, b}; return intern(std::move(n)); }
bool isZero(T a) { return isC(a) && a->c.isZero(); }
bool isOnes(T a) { return isC(a) && a->c.isAllOnes(); }

// slice boundaries (low bit offsets) of a term as a concat
void bounds(T a, std::vector<unsigned> &out) {
    if (a->op == CONCAT) {
        unsigned off = a->w;
        for (auto p : a->k) { off -= p->w; out.push_back(off); }
    } else if (isC(a)) {
        // runs of ones / zeros
        bool cur = a->c[0];
        for (unsigned i = 1; i < a->w; i++) if (a->c[i] != cur) { out.push_back(i); cur = a->c[i]; }
    }
}
std::vector<unsigned> unionBounds(T a, T b) {
    std::vector<unsigned> v;
    v.push_back(0);
    bounds(a, v); bounds(b, v);
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    v.push_back(a->w);
    return v;
}
template <class F> T sliceMap(T a, T b, const std::vector<unsigned> &bd, F f) {
    std::vector<T> parts;
    for (size_t i = bd.size() - 1; i-- > 0;) {
        unsigned lo = bd[i], hi = bd[i + 1] - 1;
        parts.push_back(f(mkExtract(a, hi, lo), mkExtract(b, hi, lo)));
    }
    return mkConcatV(std::move(parts));
}
bool splittable(T a) { return a->op == CONCAT; }

// --- boolean n-ary helpers on width 1: AND node flattened sorted by id
void flat(Op op, T a, std::vector<T> &out) {
    if (a->op == op && a->w == 1) { for (auto x : a->k) out.push_back(x); }
    else out.push_back(a);
}
T naryBool(Op op, std::vector<T> v) {
    std::sort(v.begin(), v.end(), [](T x, T y) { return x->id < y->id; });
    v.erase(std::unique(v.begin(), v.end()), v.end());
    T unit = op == AND ? tTrue() : tFalse();
    T zero = op == AND ? tFalse() : tTrue();
    std::vector<T> r;
    for (auto x : v) {
        if (x == zero) return zero;
        if (x == unit) continue;
        r.push_back(x);
    }
    for (auto x : r) {
        T nx = x->op == NOT ? x->k[0] : nullptr;
        if (nx && std::binary_search(r.begin(), r.end(), nx, [](T p, T q) { return p->id < q->id; })) return zero;
    }
    if (r.empty()) return unit;
    if (r.size() == 1) return r[0];
    Node n = N(op, 1);
    n.k = std::move(r);
    return intern(std::move(n));
}
bool isNotOf(T a, T b) { return (a->op == NOT && a->k[0] == b) || (b->op == NOT && b->k[0] == a); }

T orBool(T a, T b) {
    if (a == b) return a;
    if (isC(a)) return a->c.getBoolValue() ? a : b;
    if (isC(b)) return b->c.getBoolValue() ? b : a;
    if (isNotOf(a, b)) return tTrue();
    // or(and(A.., x), and(A.., !x)) -> and(A..), absorption
    std::vector<T> fa, fb;
    flat(AND, a, fa); flat(AND, b, fb);
    auto lt = [](T p, T q) { return p->id < q->id; };
    std::sort(fa.begin(), fa.end(), lt); std::sort(fb.begin(), fb.end(), lt);
    std::vector<T> da, db, common;
    std::set_difference(fa.begin(), fa.end(), fb.begin(), fb.end(), std::back_inserter(da), lt);
    std::set_difference(fb.begin(), fb.end(), fa.begin(), fa.end(), std::back_inserter(db), lt);
    std::set_intersection(fa.begin(), fa.end(), fb.begin(), fb.end(), std::back_inserter(common), lt);
    if (da.empty()) return a;
    if (db.empty()) return b;
    if (da.size() == 1 && db.size() == 1 && isNotOf(da[0], db[0])) return naryBool(AND, common);
    if (da.size() == 1) {
        // x | (!x & Y) = x | Y  (under common)
        for (size_t i = 0; i < db.size(); i++) if (isNotOf(da[0], db[i])) {
            auto y = fb; y.erase(std::find(y.begin(), y.end(), db[i]));
            return orBool(a, naryBool(AND, y));
        }
    }
    if (db.size() == 1) {
        for (size_t i = 0; i < da.size(); i++) if (isNotOf(db[0], da[i])) {
            auto y = fa; y.erase(std::find(y.begin(), y.end(), da[i]));
            return orBool(naryBool(AND, y), b);
        }
    }
    // !(S) | (S & Y) = !(S) | Y
    for (int sw = 0; sw < 2; sw++) {
        auto &x = sw ? fb : fa, &y = sw ? fa : fb;
        if (x.size() != 1 || x[0]->op != NOT || x[0]->k[0]->op != AND) continue;
        auto &s = x[0]->k[0]->k;
        std::vector<T> sv(s.begin(), s.end()), rest;
        std::sort(sv.begin(), sv.end(), lt);
        if (!std::includes(y.begin(), y.end(), sv.begin(), sv.end(), lt)) continue;
        std::set_difference(y.begin(), y.end(), sv.begin(), sv.end(), std::back_inserter(rest), lt);
        T r = naryBool(AND, rest);
        if (rest.size() == 1 && rest[0]->op == NOT && rest[0]->k[0]->op == AND) {
            // !(S) | !(Q) = !(S & Q)
            std::vector<T> all(sv);
            for (auto q : rest[0]->k[0]->k) all.push_back(q);
            return mkNot(naryBool(AND, all));
        }
        return orBool(sw ? r : a, sw ? b : r);
    }
    std::vector<T> v;
    flat(OR, a, v); flat(OR, b, v);
    return naryBool(OR, v);
}
}  // namespace

uint64_t nodeCount() { return nextId; }

T mkConst(const APInt &v) { Node n = N(CONST, v.getBitWidth()); n.c = v; return intern(std::move(n)); }
T mkConst(unsigned w, uint64_t v) { return mkConst(APInt(w, v)); }
T mkVar(unsigned w, const std::string &name, int base) {
    Node n = N(VAR, w); n.name = name; n.base = base; return intern(std::move(n));
}
T mkUF(const std::string &name, unsigned w, std::vector<T> args) {
    // push the function into the branches of its arguments
    static int depth = 0;
    for (size_t i = 0; i < args.size() && depth < 6; i++) {
        T c = nullptr;
        if (args[i]->op == ITE) c = args[i]->k[0];
        else if (args[i]->op == CONCAT)
            for (auto p : args[i]->k) if (p->op == ITE) { c = p->k[0]; break; }
        if (!c) continue;
        auto branch = [&](bool b) {
            auto a = args;
            auto pick = [&](T p) { return p->op == ITE && p->k[0] == c ? p->k[b ? 1 : 2] : p; };
            for (auto &x : a) {
                if (x->op == CONCAT) { std::vector<T> ps; for (auto p : x->k) ps.push_back(pick(p)); x = mkConcatV(ps); }
                else x = pick(x);
            }
            return mkUF(name, w, a);
        };
        depth++;
        T x = branch(true), y = branch(false);
        depth--;
        return mkIte(c, x, y);
    }
    Node n = N(UF, w); n.name = name; n.k = std::move(args); return intern(std::move(n));
}

T mkNot(T a) {
    if (isC(a)) return mkConst(~a->c);
    if (a->op == NOT) return a->k[0];
    if (a->op == CONCAT) {
        std::vector<T> p; for (auto x : a->k) p.push_back(mkNot(x));
        return mkConcatV(std::move(p));
    }
    if (a->op == ITE && a->w > 1 && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkNot(a->k[1]), mkNot(a->k[2]));
    Node n = N(NOT, a->w); n.k = {a}; return intern(std::move(n));
}
static T bitw(Op op, T a, T b) {
    if (a->id > b->id) std::swap(a, b);
    if (isC(a) && isC(b)) return mkConst(op == AND ? (a->c & b->c) : op == OR ? (a->c | b->c) : (a->c ^ b->c));
    if (op == AND) {
        if (isZero(a) || isZero(b)) return mkConst(APInt(a->w, 0));
        if (isOnes(a)) return b;
        if (isOnes(b)) return a;
        if (a == b) return a;
        if (isNotOf(a, b)) return mkConst(APInt(a->w, 0));
    } else if (op == OR) {
        if (isOnes(a) || isOnes(b)) return mkConst(APInt::getAllOnes(a->w));
        if (isZero(a)) return b;
        if (isZero(b)) return a;
        if (a == b) return a;
        if (isNotOf(a, b)) return mkConst(APInt::getAllOnes(a->w));
    } else {
        if (isZero(a)) return b;
        if (isZero(b)) return a;
        if (isOnes(a)) return mkNot(b);
        if (isOnes(b)) return mkNot(a);
        if (a == b) return mkConst(APInt(a->w, 0));
        if (isNotOf(a, b)) return mkConst(APInt::getAllOnes(a->w));
        if (a->op == NOT && b->op == NOT) return bitw(XOR, a->k[0], b->k[0]);
        if (a->op == NOT) return mkNot(bitw(XOR, a->k[0], b));
        if (b->op == NOT) return mkNot(bitw(XOR, a, b->k[0]));
    }
    if (a->w > 1 && (isC(a) || isC(b) || splittable(a) || splittable(b))) {
        auto bd = unionBounds(a, b);
        if (bd.size() > 2) return sliceMap(a, b, bd, [op](T x, T y) { return bitw(op, x, y); });
    }
    if (a->w == 1) {
        if (op == AND) {
            std::vector<T> v; flat(AND, a, v); flat(AND, b, v);
            return naryBool(AND, v);
        }
        if (op == OR) return orBool(a, b);
    }
    return mk2(op, a->w, a, b);
}
T mkAnd(T a, T b) { assert(a->w == b->w); return bitw(AND, a, b); }
T mkOr(T a, T b) { assert(a->w == b->w); return bitw(OR, a, b); }
T mkXor(T a, T b) { assert(a->w == b->w); return bitw(XOR, a, b); }

// linear sums ---------------------------------------------------------------
namespace {
// range of a sum over the integers (signed coefficients, unsigned children), and the 2^w block it lies in
std::unordered_map<uint64_t, APInt> noted;
bool linBlock(T a, APInt &lo, APInt &hi, APInt &blk) {
    if (a->op != LIN || a->k.size() > 64) return false;
    unsigned W = 2 * a->w + 16;
    lo = hi = a->c.sext(W);
    for (size_t i = 0; i < a->k.size(); i++) {
        APInt c = a->co[i].sext(W), mn = uminOf(a->k[i]).zext(W), mx = umaxOf(a->k[i]).zext(W);
        if (c.isNegative()) std::swap(mn, mx);
        lo += c * mn; hi += c * mx;
    }
    blk = lo.ashr(a->w);
    if (blk == hi.ashr(a->w)) return true;
    // the value v is at most m, and the sum is v plus a multiple of 2^w: it is v if no other one is in range
    auto it = noted.find(a->id);
    if (it == noted.end()) return false;
    APInt m = it->second.zext(W), full = APInt::getOneBitSet(W, a->w);
    if (m.ult(full.lshr(1)) && (lo + full).sgt(m) && hi.slt(full)) {
        blk = APInt(W, 0);
        if (lo.isNegative()) lo = blk;
        if (hi.sgt(m)) hi = m;
        return true;
    }
    return false;
}
// a sum of small atoms is known to be at most b (how it was built says more than its normal form)
void noteBound(T a, const APInt &b);
struct Lin;
void addTo(Lin &l, T a, const APInt &co);
struct Lin { std::map<uint64_t, std::pair<T, APInt>> m; APInt c; };
T fromLin(Lin &l, unsigned w);
// sums of small atoms (digits) in words: the carry out of the low n bits, in a form that does not depend on the width
bool smallAtoms(T a) {
    if (a->op != LIN || a->w < 64 || a->k.size() < 2) return false;
    for (auto x : a->k) if (umaxOf(x).getActiveBits() > 16) return false;
    return true;
}
T fit(T a, unsigned w) {
    if (a->w > w && a->op == EXTRACT && a->k[0]->op == LIN) {
        Node e = N(EXTRACT, w); e.lo = a->lo; e.k = {a->k[0]};
        return intern(std::move(e));
    }
    return a->w > w ? mkTrunc(a, w) : mkZExt(a, w);
}
// floor((sum of (co mod 2^n) * atom + c mod 2^n) / 2^n)
T carryOf(T a, unsigned n) {
    unsigned W = n + 32;
    APInt mx = a->c.zextOrTrunc(n).zext(W);
    for (size_t i = 0; i < a->k.size(); i++) mx += a->co[i].zextOrTrunc(n).zext(W) * umaxOf(a->k[i]).zextOrTrunc(W);
    unsigned w = std::max(mx.getActiveBits(), n + 1);
    if (mx.getActiveBits() <= n) return mkConst(APInt(1, 0));
    if (n % 64 == 0 && n >= 128) {
        // word by word, as code does it
        Lin y; y.c = a->c.zextOrTrunc(n).lshr(64).zextOrTrunc(w);
        for (size_t i = 0; i < a->k.size(); i++) {
            T x = a->k[i];
            addTo(y, fit(mkTrunc(x, std::max(umaxOf(x).getActiveBits(), 1u)), w), a->co[i].zextOrTrunc(n).lshr(64).zextOrTrunc(w));
        }
        addTo(y, fit(carryOf(a, 64), w), APInt(w, 1));
        T s = fromLin(y, w);
        if (!smallAtoms(s)) return mkExtract(s, w - 65, n - 64);
        return carryOf(s, n - 64);
    }
    Lin l; l.c = a->c.zextOrTrunc(n).zext(w);
    for (size_t i = 0; i < a->k.size(); i++) {
        T x = a->k[i];
        unsigned b = std::max(umaxOf(x).getActiveBits(), 1u);
        addTo(l, mkZExt(mkTrunc(x, b), w), a->co[i].zextOrTrunc(n).zext(w));
    }
    T s = fromLin(l, w);
    if (s->op != LIN) return mkExtract(s, w - 1, n);
    Node e = N(EXTRACT, w - n); e.lo = n; e.k = {s};
    return intern(std::move(e));
}
void addTo(Lin &l, T a, const APInt &co) {
    if (co.isZero()) return;
    unsigned w = a->w;
    if (isC(a)) { l.c += a->c * co; return; }
    if (a->op == LIN) {
        l.c += a->c * co;
        for (size_t i = 0; i < a->k.size(); i++) addTo(l, a->k[i], a->co[i] * co);
        return;
    }
    if (a->op == NOT && w > 1) { l.c -= co; addTo(l, a->k[0], -co); return; }
    if (a->op == CONCAT && isZero(a->k.back())) {
        // x @ 0..0  ==  zext(x) * 2^n
        unsigned n = a->k.back()->w;
        std::vector<T> p(a->k.begin(), a->k.end() - 1);
        T x = mkZExt(mkConcatV(p), w);
        addTo(l, x, co.shl(n));
        return;
    }
    if (a->op == CONCAT && a->k.size() == 2 && isC(a->k[0]) && a->k[1]->op == LIN) {
        // C @ sum: the sum does not wrap within its 2^n block, so it can be added up in the wider width
        T x = a->k[1];
        APInt lo, hi, blk;
        if (linBlock(x, lo, hi, blk)) {
            unsigned n = x->w;
            l.c += a->k[0]->c.zext(w).shl(n) * co;
            l.c -= blk.sextOrTrunc(w).shl(n) * co;
            l.c += x->c.sext(w) * co;
            for (size_t i = 0; i < x->k.size(); i++) addTo(l, mkZExt(x->k[i], w), x->co[i].sext(w) * co);
            return;
        }
        if (isZero(a->k[0]) && smallAtoms(x) && w >= x->w + 32) {
            // a sum that wraps: the sum in the wider width without its carry
            unsigned n = x->w;
            l.c += x->c.zext(w) * co;
            for (size_t i = 0; i < x->k.size(); i++) addTo(l, mkZExt(x->k[i], w), x->co[i].zext(w) * co);
            addTo(l, mkZExt(carryOf(x, n), w), -co.shl(n));
            return;
        }
    }
    auto it = l.m.find(a->id);
    if (it == l.m.end()) l.m.emplace(a->id, std::make_pair(a, co));
    else {
        it->second.second += co;
        if (it->second.second.isZero()) l.m.erase(it);
    }
}
T fromLin(Lin &l, unsigned w) {
    // the high and the low part of one product
    for (bool again = true; again;) {
        again = false;
        for (auto &kv : l.m) {
            T z = kv.second.first;
            APInt co = kv.second.second;
            if (z->op == CONCAT && z->k.size() == 2 && isZero(z->k[0])) z = z->k[1];
            if (z->op != EXTRACT || z->k[0]->op != MUL || co.countr_zero() < z->lo) continue;
            T c = z->k[0];
            unsigned lo = z->lo, hi = lo + z->w - 1;
            if (hi + 1 > w) continue;
            auto it = l.m.find(mkZExt(mkExtract(c, lo - 1, 0), w)->id);
            if (it == l.m.end() || it->second.second.shl(lo) != co) continue;
            APInt c2 = it->second.second;
            l.m.erase(it); l.m.erase(kv.first);
            addTo(l, mkZExt(mkExtract(c, hi, 0), w), c2);
            again = true;
            break;
        }
    }
    if (l.m.empty()) return mkConst(l.c);
    if (l.m.size() == 1 && l.c.isZero()) {
        auto &p = l.m.begin()->second;
        if (p.second.isOne()) return p.first;
        if (p.second.isPowerOf2()) {
            unsigned n = p.second.logBase2();
            return mkConcat(mkExtract(p.first, w - n - 1, 0), mkConst(APInt(n, 0)));
        }
    }
    if (l.m.size() == 1) {
        auto &p = l.m.begin()->second;
        if (p.second.isAllOnes() && l.c.isAllOnes()) return mkNot(p.first);
    }
    if (w == 1) {
        // mod-2 sums are xors
        T r = mkConst(l.c);
        for (auto &kv : l.m) r = mkXor(r, kv.second.first);
        return r;
    }
    Node n = N(LIN, w);
    n.c = l.c;
    for (auto &kv : l.m) { n.k.push_back(kv.second.first); n.co.push_back(kv.second.second); }
    return intern(std::move(n));
}
}  // namespace
T mkAdd(T a, T b) {
    assert(a->w == b->w);
    Lin l; l.c = APInt(a->w, 0);
    APInt one(a->w, 1);
    addTo(l, a, one); addTo(l, b, one);
    T r = fromLin(l, a->w);
    if (smallAtoms(r)) {
        bool ov;
        APInt m = umaxOf(a).uadd_ov(umaxOf(b), ov);
        if (!ov) noteBound(r, m);
    }
    return r;
}
T mkSub(T a, T b) {
    assert(a->w == b->w);
    Lin l; l.c = APInt(a->w, 0);
    addTo(l, a, APInt(a->w, 1)); addTo(l, b, APInt::getAllOnes(a->w));
    return fromLin(l, a->w);
}
T mkNeg(T a) { return mkSub(mkConst(APInt(a->w, 0)), a); }
static unsigned leadZeros(T a);
T mkMul(T a, T b) {
    assert(a->w == b->w);
    unsigned w = a->w;
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
        Lin l; l.c = APInt(w, 0); addTo(l, a, b->c);
        T r = fromLin(l, w);
        if (smallAtoms(r)) {
            bool ov;
            APInt m = umaxOf(a).umul_ov(b->c, ov);
            if (!ov) noteBound(r, m);
        }
        return r;
    }
    if (w == 1) return mkAnd(a, b);
    if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkMul(a->k[1], b), mkMul(a->k[2], b));
    if (b->op == ITE && isC(b->k[1]) && isC(b->k[2])) return mkIte(b->k[0], mkMul(a, b->k[1]), mkMul(a, b->k[2]));
    if (a->id > b->id) std::swap(a, b);
    // narrow products of zero-extended operands
    unsigned za = leadZeros(a), zb = leadZeros(b);
    if (za + zb > w) {
        unsigned nw = 2 * w - za - zb;
        if (nw < w && nw > 0) return mkZExt(mkMul(mkTrunc(a, nw), mkTrunc(b, nw)), w);
    }
    return mk2(MUL, w, a, b);
}

// concat / extract -----------------------------------------------------------
static bool wide(T a) { return a->op == LIN || a->op == MUL; }
static bool wideSum(T a) { return wide(a) || (a->op == EXTRACT && wide(a->k[0])); }
T mkConcatV(std::vector<T> in) {
    std::vector<T> p;
    unsigned w = 0;
    std::function<void(T)> push = [&](T x) {
        if (x->w == 0) return;
        if (x->op == CONCAT) { for (auto y : x->k) push(y); return; }
        if (!p.empty()) {
            T l = p.back();
            if (isC(l) && isC(x)) { p.back() = mkConst(l->c.concat(x->c)); return; }
            // adjacent extracts of one term
            T lb = l->op == EXTRACT ? l->k[0] : l;
            T xb = x->op == EXTRACT ? x->k[0] : x;
            unsigned llo = l->op == EXTRACT ? l->lo : 0, xlo = x->op == EXTRACT ? x->lo : 0;
            if (lb == xb && llo == xlo + x->w && (l->op == EXTRACT || x->op == EXTRACT)) {
                p.pop_back();
                push(mkExtract(lb, llo + l->w - 1, xlo));
                return;
            }
            // the low part of a sum or a product is a narrower sum or product
            if (l->op == EXTRACT && wide(lb) && !isC(x) && l->lo >= x->w && mkExtract(lb, l->lo - 1, l->lo - x->w) == x) {
                p.pop_back();
                push(mkExtract(lb, l->lo + l->w - 1, l->lo - x->w));
                return;
            }
            if (x->op == ITE && (wideSum(x->k[1]) || wideSum(x->k[2])) && (l->op == ITE ? l->k[0] == x->k[0] : l->w == 1 && (l->op == AND || l->op == OR || l->op == NOT))) {
                T l1, l2;
                if (l->op == ITE) { l1 = l->k[1]; l2 = l->k[2]; }
                else {
                    std::unordered_map<T, T> m1{{x->k[0], tTrue()}}, m2{{x->k[0], tFalse()}};
                    l1 = rebuild(l, m1); l2 = rebuild(l, m2);
                }
                T a = mkConcat(l1, x->k[1]), b = mkConcat(l2, x->k[2]);
                if (a->op != CONCAT && b->op != CONCAT) { p.pop_back(); push(mkIte(x->k[0], a, b)); return; }
            }
            if (l->op == ITE && x->op == ITE && l->k[0] == x->k[0] && isC(l->k[1]) && isC(l->k[2]) && isC(x->k[1]) && isC(x->k[2])) {
                p.back() = mkIte(l->k[0], mkConst(l->k[1]->c.concat(x->k[1]->c)), mkConst(l->k[2]->c.concat(x->k[2]->c)));
                return;
            }
            // NOT of adjacent extracts
            if (l->op == NOT && x->op == NOT) {
                T a = l->k[0], b = x->k[0];
                T ab = a->op == EXTRACT ? a->k[0] : a, bb = b->op == EXTRACT ? b->k[0] : b;
                unsigned alo = a->op == EXTRACT ? a->lo : 0, blo = b->op == EXTRACT ? b->lo : 0;
                if (ab == bb && alo == blo + b->w && (a->op == EXTRACT || b->op == EXTRACT)) {
                    p.pop_back();
                    push(mkNot(mkExtract(ab, alo + a->w - 1, blo)));
                    return;
                }
            }
        }
        p.push_back(x);
    };
    for (auto x : in) { push(x); }
    for (auto x : p) w += x->w;
    if (p.size() == 1) return p[0];
    assert(!p.empty());
    Node n = N(CONCAT, w);
    n.k = std::move(p);
    return intern(std::move(n));
}
T mkConcat(T hi, T lo) { return mkConcatV({hi, lo}); }

static std::unordered_map<uint64_t, std::unordered_map<uint64_t, T>> exMemo;
T mkExtract(T a, unsigned hi, unsigned lo) {
    assert(hi < a->w && lo <= hi);
    unsigned w = hi - lo + 1;
    if (w == a->w) return a;
    switch (a->op) {
        case CONST: return mkConst(a->c.extractBits(w, lo));
        case EXTRACT: return mkExtract(a->k[0], a->lo + hi, a->lo + lo);
        case CONCAT: {
            std::vector<T> p;
            unsigned top = a->w;
            for (auto x : a->k) {
                unsigned xlo = top - x->w, xhi = top - 1;
                top = xlo;
                if (xlo > hi || xhi < lo) continue;
                unsigned l = std::max(lo, xlo), h = std::min(hi, xhi);
                p.push_back(mkExtract(x, h - xlo, l - xlo));
            }
            return mkConcatV(std::move(p));
        }
        default: break;
    }
    if (a->op == VAR || a->op == UF) {
        Node n = N(EXTRACT, w); n.lo = lo; n.k = {a}; return intern(std::move(n));
    }
    auto &mm = exMemo[a->id];
    uint64_t key = (uint64_t(hi) << 32) | lo;
    auto it = mm.find(key);
    if (it != mm.end()) return it->second;
    T r = nullptr;
    switch (a->op) {
        case NOT: r = mkNot(mkExtract(a->k[0], hi, lo)); break;
        case AND: case OR: case XOR: r = bitw(a->op, mkExtract(a->k[0], hi, lo), mkExtract(a->k[1], hi, lo)); break;
        case ITE: r = mkIte(a->k[0], mkExtract(a->k[1], hi, lo), mkExtract(a->k[2], hi, lo)); break;
        case LIN: {
            if (lo == 0) {
                Lin l; l.c = a->c.trunc(w);
                for (size_t i = 0; i < a->k.size(); i++) addTo(l, mkExtract(a->k[i], hi, 0), a->co[i].trunc(w));
                r = fromLin(l, w);
            } else {
                // bits above the place where the smallest and the largest value differ are known
                APInt mn = uminOf(a), mx = umaxOf(a);
                if (mn.lshr(lo) == mx.lshr(lo)) r = mkConst(mn.extractBits(w, lo));
                if (!r && lo >= 64 && smallAtoms(a)) {
                    bool more = a->c.getActiveBits() > lo || hi + 1 < a->w;
                    for (auto &c : a->co) if (c.getActiveBits() > lo) more = true;
                    if (!more && carryOf(a, lo)->w < w) more = true;
                    if (more) {
                        Lin l; l.c = a->c.lshr(lo).zextOrTrunc(w);
                        for (size_t i = 0; i < a->k.size(); i++) addTo(l, fit(mkTrunc(a->k[i], std::max(umaxOf(a->k[i]).getActiveBits(), 1u)), w), a->co[i].lshr(lo).zextOrTrunc(w));
                        addTo(l, fit(carryOf(a, lo), w), APInt(w, 1));
                        r = fromLin(l, w);
                        APInt m = umaxOf(a).lshr(lo);
                        if (smallAtoms(r) && m.getActiveBits() <= w) noteBound(r, m.zextOrTrunc(w));
                    }
                }
            }
            break;
        }
        case MUL:
            if (lo == 0) r = mkMul(mkExtract(a->k[0], hi, 0), mkExtract(a->k[1], hi, 0));
            else if (hi + 1 < a->w) r = mkExtract(mkExtract(a, hi, 0), hi, lo);
            break;
        default: break;
    }
    if (!r) { Node n = N(EXTRACT, w); n.lo = lo; n.k = {a}; r = intern(std::move(n)); }
    exMemo[a->id][key] = r;
    return r;
}
T mkTrunc(T a, unsigned w) { return w == a->w ? a : mkExtract(a, w - 1, 0); }
T mkZExt(T a, unsigned w) {
    if (w == a->w) return a;
    return mkConcat(mkConst(APInt(w - a->w, 0)), a);
}
T mkSExt(T a, unsigned w) {
    if (w == a->w) return a;
    if (isC(a)) return mkConst(a->c.sext(w));
    T s = mkExtract(a, a->w - 1, a->w - 1);
    unsigned n = w - a->w;
    return mkConcat(mkIte(s, mkConst(APInt::getAllOnes(n)), mkConst(APInt(n, 0))), a);
}
static unsigned leadZeros(T a) {
    if (isC(a)) return a->c.countl_zero();
    if (a->op == CONCAT) {
        unsigned n = 0;
        for (auto x : a->k) {
            if (isZero(x)) { n += x->w; continue; }
            return n + leadZeros(x);
        }
        return n;
    }
    return umaxOf(a).countl_zero();
}

// ranges ---------------------------------------------------------------------
static std::unordered_map<uint64_t, APInt> umaxM;
namespace { void noteBound(T a, const APInt &b) { if (umaxOf(a).ugt(b)) { umaxM.find(a->id)->second = b; noted.insert_or_assign(a->id, b); } } }
APInt umaxOf(T a) {
    if (isC(a)) return a->c;
    auto it = umaxM.find(a->id);
    if (it != umaxM.end()) return it->second;
    APInt r = APInt::getAllOnes(a->w);
    switch (a->op) {
        case CONCAT: {
            APInt v(a->w, 0);
            unsigned off = a->w;
            for (auto x : a->k) { off -= x->w; v |= umaxOf(x).zext(a->w).shl(off); }
            r = v; break;
        }
        case ITE: r = llvm::APIntOps::umax(umaxOf(a->k[1]), umaxOf(a->k[2])); break;
        case AND: if (a->w > 1) r = llvm::APIntOps::umin(umaxOf(a->k[0]), umaxOf(a->k[1])); break;
        case OR: case XOR: if (a->w > 1) {
            unsigned z = std::min(umaxOf(a->k[0]).countl_zero(), umaxOf(a->k[1]).countl_zero());
            if (z) r = r.lshr(z);
            break;
        } else break;
        case UDIV: {
            APInt m = uminOf(a->k[1]);
            if (!m.isZero()) r = umaxOf(a->k[0]).udiv(m);
            break;
        }
        case UREM: {
            r = umaxOf(a->k[0]);
            if (isC(a->k[1]) && !isZero(a->k[1])) r = llvm::APIntOps::umin(r, a->k[1]->c - 1);
            break;
        }
        case LSHR: r = umaxOf(a->k[0]); break;
        case LIN: {
            APInt lo, hi, blk;
            if (linBlock(a, lo, hi, blk)) { r = hi.trunc(a->w); break; }
            unsigned W = a->w + 16;
            APInt s = a->c.zext(W);
            bool ok = a->k.size() < 1000;
            for (size_t i = 0; ok && i < a->k.size(); i++) {
                if (a->co[i].getActiveBits() + umaxOf(a->k[i]).getActiveBits() > a->w) ok = false;
                else s += a->co[i].zext(W) * umaxOf(a->k[i]).zext(W);
            }
            if (ok && s.getActiveBits() <= a->w) r = s.trunc(a->w);
            break;
        }
        case MUL: {
            APInt x = umaxOf(a->k[0]), y = umaxOf(a->k[1]);
            if (x.getActiveBits() + y.getActiveBits() <= a->w) r = x * y;
            break;
        }
        case EXTRACT: {
            APInt x = umaxOf(a->k[0]).lshr(a->lo);
            if (x.getActiveBits() <= a->w) r = x.trunc(a->w);
            break;
        }
        default: break;
    }
    umaxM.emplace(a->id, r);
    return r;
}
APInt uminOf(T a) {
    if (isC(a)) return a->c;
    if (a->op == CONCAT) {
        APInt v(a->w, 0);
        unsigned off = a->w;
        for (auto x : a->k) { off -= x->w; if (isC(x)) v |= x->c.zext(a->w).shl(off); }
        return v;
    }
    if (a->op == ITE) {
        static std::unordered_map<uint64_t, APInt> memo;
        auto it = memo.find(a->id);
        if (it != memo.end()) return it->second;
        APInt r = llvm::APIntOps::umin(uminOf(a->k[1]), uminOf(a->k[2]));
        memo.emplace(a->id, r);
        return r;
    }
    if (a->op == LIN) {
        static std::unordered_map<uint64_t, APInt> memo;
        auto it = memo.find(a->id);
        if (it != memo.end()) return it->second;
        APInt lo, hi, blk, r(a->w, 0);
        if (linBlock(a, lo, hi, blk)) r = lo.trunc(a->w);
        memo.emplace(a->id, r);
        return r;
    }
    return APInt(a->w, 0);
}
unsigned knownLowZeros(T a) {
    switch (a->op) {
        case CONST: return a->c.isZero() ? a->w : a->c.countr_zero();
        case CONCAT: {
            unsigned n = 0;
            for (size_t i = a->k.size(); i-- > 0;) {
                unsigned z = knownLowZeros(a->k[i]);
                n += z;
                if (z < a->k[i]->w) break;
            }
            return n;
        }
        case LIN: {
            unsigned n = a->c.isZero() ? a->w : a->c.countr_zero();
            for (size_t i = 0; i < a->k.size(); i++) n = std::min<unsigned>(n, a->co[i].countr_zero() + knownLowZeros(a->k[i]));
            return n;
        }
        case ITE: return std::min(knownLowZeros(a->k[1]), knownLowZeros(a->k[2]));
        default: return 0;
    }
}

// shifts ---------------------------------------------------------------------
T mkShl(T a, T b) {
    unsigned w = a->w;
    if (isC(b)) {
        if (b->c.uge(w)) return mkConst(APInt(w, 0));
        unsigned n = b->c.getZExtValue();
        if (!n) return a;
        return mkConcat(mkExtract(a, w - n - 1, 0), mkConst(APInt(n, 0)));
    }
    if (isZero(a)) return a;
    if (b->op == ITE && isC(b->k[1]) && isC(b->k[2])) return mkIte(b->k[0], mkShl(a, b->k[1]), mkShl(a, b->k[2]));
    return mk2(SHL, w, a, b);
}
T mkLShr(T a, T b) {
    unsigned w = a->w;
    if (isC(b)) {
        if (b->c.uge(w)) return mkConst(APInt(w, 0));
        unsigned n = b->c.getZExtValue();
        if (!n) return a;
        return mkConcat(mkConst(APInt(n, 0)), mkExtract(a, w - 1, n));
    }
    if (isZero(a)) return a;
    if (b->op == ITE && isC(b->k[1]) && isC(b->k[2])) return mkIte(b->k[0], mkLShr(a, b->k[1]), mkLShr(a, b->k[2]));
    return mk2(LSHR, w, a, b);
}
T mkAShr(T a, T b) {
    unsigned w = a->w;
    if (isC(b)) {
        unsigned n = b->c.uge(w) ? w - 1 : b->c.getZExtValue();
        if (!n) return a;
        return mkSExt(mkExtract(a, w - 1, n), w);
    }
    if (isZero(a)) return a;
    if (leadZeros(a) > 0) return mkLShr(a, b);
    return mk2(ASHR, w, a, b);
}
// division -------------------------------------------------------------------
static bool knownNonZero(T a) { return !uminOf(a).isZero(); }
T mkUDiv(T a, T b) {
    unsigned w = a->w;
    if (isC(b)) {
        if (b->c.isZero()) return mkConst(APInt::getAllOnes(w));
        if (isC(a)) return mkConst(a->c.udiv(b->c));
        if (b->c.isPowerOf2()) return mkLShr(a, mkConst(APInt(w, b->c.logBase2())));
    }
    unsigned z = std::min(leadZeros(a), leadZeros(b));
    if (z && z < w) {
        T q = mkZExt(mkUDiv(mkTrunc(a, w - z), mkTrunc(b, w - z)), w);
        if (knownNonZero(b)) return q;
        return mkIte(mkEq(b, mkConst(APInt(w, 0))), mkConst(APInt::getAllOnes(w)), q);
    }
    return mk2(UDIV, w, a, b);
}
T mkURem(T a, T b) {
    unsigned w = a->w;
    if (isC(b)) {
        if (b->c.isZero()) return a;
        if (isC(a)) return mkConst(a->c.urem(b->c));
        if (b->c.isPowerOf2()) {
            unsigned n = b->c.logBase2();
            return n ? mkZExt(mkExtract(a, n - 1, 0), w) : mkConst(APInt(w, 0));
        }
    }
    unsigned z = std::min(leadZeros(a), leadZeros(b));
    if (z && z < w) return mkZExt(mkURem(mkTrunc(a, w - z), mkTrunc(b, w - z)), w);
    return mk2(UREM, w, a, b);
}
// the width of a as a signed number
static unsigned sigBits(T a) {
    if (isC(a)) return a->c.getSignificantBits();
    T top = mkExtract(a, a->w - 1, a->w - 1);
    unsigned n = a->w;
    while (n > 1 && mkExtract(a, n - 2, n - 2) == top) n--;
    return n;
}
// signed division in the least width in which it cannot overflow
static T canonS(Op op, T a, T b) {
    unsigned w = a->w, n = std::max(2u, std::max(sigBits(a), sigBits(b)) + 1);
    if (w == n) return mk2(op, w, a, b);
    if (w > n) return mkSExt(mk2(op, n, mkTrunc(a, n), mkTrunc(b, n)), w);
    return mkTrunc(mk2(op, n, mkSExt(a, n), mkSExt(b, n)), w);
}
T mkSDiv(T a, T b) {
    unsigned w = a->w;
    if (isC(a) && isC(b) && !isZero(b)) return mkConst(a->c.sdiv(b->c));
    if (leadZeros(a) && leadZeros(b) && w > 1) {
        if (knownNonZero(b)) return mkUDiv(a, b);
        return mkIte(mkEq(b, mkConst(APInt(w, 0))), mkConst(APInt::getAllOnes(w)), mkUDiv(a, b));
    }
    return canonS(SDIV, a, b);
}
T mkSRem(T a, T b) {
    unsigned w = a->w;
    if (isC(a) && isC(b) && !isZero(b)) return mkConst(a->c.srem(b->c));
    if (leadZeros(a) && leadZeros(b) && w > 1) return mkURem(a, b);
    return canonS(SREM, a, b);
}

// ite ------------------------------------------------------------------------
static bool hasMul(T a, int depth) {
    if (a->op == MUL) return true;
    if (depth == 0 || a->k.size() > 40 || !(a->op == LIN || a->op == EXTRACT || a->op == CONCAT)) return false;
    for (auto x : a->k) if (hasMul(x, depth - 1)) return true;
    return false;
}
T mkIte(T c, T a, T b) {
    assert(c->w == 1 && a->w == b->w);
    if (isC(c)) return c->c.getBoolValue() ? a : b;
    if (a == b) return a;
    if (c->op == NOT) return mkIte(c->k[0], b, a);
    if (a->op == ITE && a->k[0] == c) return mkIte(c, a->k[1], b);
    if (b->op == ITE && b->k[0] == c) return mkIte(c, a, b->k[2]);
    // keep, if it is equal to the other branch wherever the other branch is chosen
    auto same = [&](T keep, T other, std::vector<T> lits) {
        if (!hasMul(keep, 4)) return false;
        std::unordered_map<T, T> m;
        bool eq = false;
        for (auto x : lits) {
            T t = x, k = tTrue();
            if (x->op == NOT) { t = x->k[0]; k = tFalse(); }
            else if (x->op == EQ && (isC(x->k[0]) || isC(x->k[1]))) {
                t = x->k[isC(x->k[0]) ? 1 : 0]; k = x->k[isC(x->k[0]) ? 0 : 1];
                eq = true;
            }
            if (t->op == EXTRACT && t->k[0]->op == VAR) {
                // some bits of a variable
                T v = t->k[0], old = m.count(v) ? m[v] : v;
                std::vector<T> p;
                if (t->lo + t->w < v->w) p.push_back(mkExtract(old, v->w - 1, t->lo + t->w));
                p.push_back(k);
                if (t->lo) p.push_back(mkExtract(old, t->lo - 1, 0));
                m[v] = mkConcatV(p);
                eq = true;
            } else m[t] = k;
        }
        if (!eq) return false;
        auto m2 = m;
        return rebuild(keep, m) == rebuild(other, m2);
    };
    {
        std::vector<T> v;
        if (c->op != OR) {
            flat(AND, c, v);
            if (same(b, a, v)) return b;
        }
        if (c->op == OR || c->op == EXTRACT) {
            v.clear();
            flat(OR, c, v);
            for (auto &x : v) x = mkNot(x);
            if (same(a, b, v)) return a;
        }
    }
    if (a->w == 1) {
        if (isTrue(a) && isFalse(b)) return c;
        if (isFalse(a) && isTrue(b)) return mkNot(c);
        if (isTrue(a) || a == c) return mkOr(c, b);
        if (isFalse(a)) return mkAnd(mkNot(c), b);
        if (isTrue(b)) return mkOr(mkNot(c), a);
        if (isFalse(b) || b == c) return mkAnd(c, a);
        if (isNotOf(a, b)) return mkXor(c, b);
    } else if (a->op == CONCAT || b->op == CONCAT) {
        auto bd = unionBounds(a->op == CONCAT ? a : b, b->op == CONCAT ? b : a);
        if (bd.size() > 2) {
            std::vector<T> parts;
            for (size_t i = bd.size() - 1; i-- > 0;) {
                unsigned lo = bd[i], hi = bd[i + 1] - 1;
                parts.push_back(mkIte(c, mkExtract(a, hi, lo), mkExtract(b, hi, lo)));
            }
            return mkConcatV(std::move(parts));
        }
    }
    Node n = N(ITE, a->w);
    n.k = {c, a, b};
    return intern(std::move(n));
}

// predicates -----------------------------------------------------------------
T mkEq(T a, T b) {
    assert(a->w == b->w);
    if (a == b) return tTrue();
    if (isC(a) && isC(b)) return a->c == b->c ? tTrue() : tFalse();
    if (isC(a)) std::swap(a, b);
    if (a->w == 1) {
        if (isC(b)) return b->c.getBoolValue() ? a : mkNot(a);
        return mkNot(mkXor(a, b));
    }
    if (isC(b)) {
        if (b->c.ugt(umaxOf(a)) || b->c.ult(uminOf(a))) return tFalse();
        if (a->op == ITE && (isC(a->k[1]) || isC(a->k[2])))
            return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
        if (a->op == LIN && a->k.size() == 1 && a->co[0].isOne()) return mkEq(a->k[0], mkConst(b->c - a->c));
        if (a->op == NOT) return mkEq(a->k[0], mkNot(b));
        if (a->op == OR && isZero(b)) {
            T r = tTrue();
            for (auto x : a->k) r = mkAnd(r, mkEq(x, mkConst(APInt(x->w, 0))));
            return r;
        }
    }
    if (splittable(a) || splittable(b)) {
        std::vector<unsigned> bd{0};
        if (a->op == CONCAT) bounds(a, bd);
        if (b->op == CONCAT) bounds(b, bd);
        std::sort(bd.begin(), bd.end());
        bd.erase(std::unique(bd.begin(), bd.end()), bd.end());
        bd.push_back(a->w);
        if (bd.size() > 2) {
            std::vector<T> v;
            for (size_t i = bd.size() - 1; i-- > 0;) {
                T e = mkEq(mkExtract(a, bd[i + 1] - 1, bd[i]), mkExtract(b, bd[i + 1] - 1, bd[i]));
                if (isFalse(e)) return e;
                flat(AND, e, v);
            }
            return naryBool(AND, v);
        }
    }
    if (a->op == LIN || b->op == LIN) {
        T d = mkSub(a, b);
        if (isC(d)) return isZero(d) ? tTrue() : tFalse();
    }
    if (a->op == NOT && b->op == NOT) return mkEq(a->k[0], b->k[0]);
    if (a->id > b->id) std::swap(a, b);
    return mk2(EQ, 1, a, b);
}
T mkUlt(T a, T b) {
    assert(a->w == b->w);
    if (a == b) return tFalse();
    if (isC(a) && isC(b)) return a->c.ult(b->c) ? tTrue() : tFalse();
    if (umaxOf(a).ult(uminOf(b))) return tTrue();
    if (uminOf(a).uge(umaxOf(b))) return tFalse();
    if (a->w == 1) return mkAnd(mkNot(a), b);
    if (isZero(a)) return mkNot(mkEq(b, a));
    if (isC(b) && b->c.isOne()) return mkEq(a, mkConst(APInt(a->w, 0)));
    if (a->op == ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkUlt(a->k[1], b), mkUlt(a->k[2], b));
    if (b->op == ITE && isC(b->k[1]) && isC(b->k[2])) return mkIte(b->k[0], mkUlt(a, b->k[1]), mkUlt(a, b->k[2]));
    unsigned z = std::min(leadZeros(a), leadZeros(b));
    if (z && z < a->w) return mkUlt(mkTrunc(a, a->w - z), mkTrunc(b, a->w - z));
    return mk2(ULT, 1, a, b);
}
T mkUle(T a, T b) { return mkNot(mkUlt(b, a)); }
T mkSlt(T a, T b) {
    assert(a->w == b->w);
    if (a == b) return tFalse();
    if (isC(a) && isC(b)) return a->c.slt(b->c) ? tTrue() : tFalse();
    unsigned w = a->w;
    if (w == 1) return mkAnd(a, mkNot(b));
    if (leadZeros(a) && leadZeros(b)) return mkUlt(a, b);
    T sa = mkExtract(a, w - 1, w - 1), sb = mkExtract(b, w - 1, w - 1);
    if (isZero(b)) return sa;
    if (isC(sa) && isC(sb)) {
        if (sa == sb) return mkUlt(a, b);
        return sa;
    }
    return mk2(SLT, 1, a, b);
}
T mkSle(T a, T b) { return mkNot(mkSlt(b, a)); }

// printing -------------------------------------------------------------------
static std::string constStr(const APInt &v) {
    llvm::SmallString<64> s;
    v.toString(s, 2, false);
    std::string r(s.str());
    if (r.size() < v.getBitWidth()) r = std::string(v.getBitWidth() - r.size(), '0') + r;
    return "#b" + r;
}

bool absArith = false, sawArith = false;
std::string toSmt(const std::vector<T> &asserts, std::vector<T> &varsOut) {
    std::string decl, body;
    std::unordered_set<uint64_t> seen;
    std::map<std::string, std::vector<T>> apps;
    auto ref = [](T a) -> std::string {
        if (a->op == CONST) return constStr(a->c);
        if (a->op == VAR) return "|" + a->name + "|";
        return "t" + std::to_string(a->id);
    };
    std::vector<std::pair<T, size_t>> st;
    for (auto a : asserts) {
        st.push_back({a, 0});
        while (!st.empty()) {
            auto &[n, i] = st.back();
            if (i == 0 && !seen.insert(n->id).second) { st.pop_back(); continue; }
            if (i < n->k.size()) {
                T c = n->k[i++];
                if (!seen.count(c->id) && c->op != CONST) st.push_back({c, 0});
                continue;
            }
            T x = n;
            st.pop_back();
            if (x->op == CONST) continue;
            if (x->op == VAR) {
                decl += "(declare-const |" + x->name + "| (_ BitVec " + std::to_string(x->w) + "))\n";
                varsOut.push_back(x);
                continue;
            }
            std::string e;
            auto nary = [&](const char *o) {
                if (x->k.size() == 2) { e = std::string("(") + o + " " + ref(x->k[0]) + " " + ref(x->k[1]) + ")"; return; }
                e = ref(x->k[0]);
                // left-assoc n-ary is accepted for bvand/bvor/bvxor
                e = std::string("(") + o;
                for (auto c : x->k) e += " " + ref(c);
                e += ")";
            };
            // multiplication and division, uninterpreted on request
            auto hard = [&](T y) {
                if (y->w < 20) return false;
                for (auto c : y->k) if (isC(c)) return false;
                sawArith = true;
                if (!absArith) return false;
                e = "|arith!" + std::to_string(y->id) + "|";
                decl += "(declare-const " + e + " (_ BitVec " + std::to_string(y->w) + "))\n";
                apps["arith" + std::to_string(y->op)].push_back(y);
                return true;
            };
            auto bl = [&](const char *o) { e = std::string("(ite (") + o + " " + ref(x->k[0]) + " " + ref(x->k[1]) + ") #b1 #b0)"; };
            switch (x->op) {
                case NOT: e = "(bvnot " + ref(x->k[0]) + ")"; break;
                case AND: nary("bvand"); break;
                case OR: nary("bvor"); break;
                case XOR: nary("bvxor"); break;
                case MUL: if (!hard(x)) nary("bvmul"); break;
                case UDIV: if (!hard(x)) nary("bvudiv"); break;
                case UREM: if (!hard(x)) nary("bvurem"); break;
                case SDIV: if (!hard(x)) nary("bvsdiv"); break;
                case SREM: if (!hard(x)) nary("bvsrem"); break;
                case SHL: nary("bvshl"); break;
                case LSHR: nary("bvlshr"); break;
                case ASHR: nary("bvashr"); break;
                case CONCAT: {
                    e = "(concat";
                    for (auto c : x->k) e += " " + ref(c);
                    e += ")";
                    break;
                }
                case EXTRACT: e = "((_ extract " + std::to_string(x->lo + x->w - 1) + " " + std::to_string(x->lo) + ") " + ref(x->k[0]) + ")"; break;
                case ITE: e = "(ite (= " + ref(x->k[0]) + " #b1) " + ref(x->k[1]) + " " + ref(x->k[2]) + ")"; break;
                case EQ: bl("="); break;
                case ULT: bl("bvult"); break;
                case SLT: bl("bvslt"); break;
                case LIN: {
                    std::vector<std::string> parts;
                    for (size_t j = 0; j < x->k.size(); j++) {
                        if (x->co[j].isOne()) parts.push_back(ref(x->k[j]));
                        else if (x->co[j].isAllOnes()) parts.push_back("(bvneg " + ref(x->k[j]) + ")");
                        else parts.push_back("(bvmul " + constStr(x->co[j]) + " " + ref(x->k[j]) + ")");
                    }
                    if (!x->c.isZero()) parts.push_back(constStr(x->c));
                    if (parts.size() == 1) e = parts[0];
                    else { e = "(bvadd"; for (auto &p : parts) e += " " + p; e += ")"; }
                    break;
                }
                case UF: {
decl += "(declare-const |" + x->name + "!" + std::to_string(x->id) + "| (_ BitVec " + std::to_string(x->w) + "))\n";
                    e = "|" + x->name + "!" + std::to_string(x->id) + "|";
                    apps[x->name].push_back(x);
                    break;
                }
                default: assert(0);
            }
            body += "(define-fun t" + std::to_string(x->id) + " () (_ BitVec " + std::to_string(x->w) + ") " + e + ")\n";
        }
    }
    // Ackermann's reduction: equal arguments give equal results
    for (auto &u : apps)
        for (size_t i = 0; i < u.second.size(); i++)
            for (size_t j = 0; j < i; j++) {
                T a = u.second[i], b = u.second[j];
                if (a->k.size() != b->k.size() || a->w != b->w || a->k[0]->w != b->k[0]->w) continue;
                std::string h = "(and true";
                bool never = false;
                for (size_t q = 0; q < a->k.size(); q++) {
                    T eq = mkEq(a->k[q], b->k[q]);
                    if (isFalse(eq)) never = true;
                    h += " (= " + ref(a->k[q]) + " " + ref(b->k[q]) + ")";
                }
                if (!never) body += "(assert (=> " + h + ") (= " + ref(a) + " " + ref(b) + ")))\n";
            }
    for (auto a : asserts) body += "(assert (= " + ref(a) + " #b1))\n";
    return decl + body;
}
std::string shortStr(T a, int depth) {
    static const char *nm[] = {"const", "var", "not", "and", "or", "xor", "lin", "mul", "udiv", "urem", "sdiv", "srem", "shl", "lshr", "ashr", "concat", "extract", "ite", "eq", "ult", "slt", "uf"};
    if (isC(a)) { llvm::SmallString<32> s; a->c.toString(s, 16, false, true); return std::string(s.str()) + ":" + std::to_string(a->w); }
    if (a->op == VAR) return a->name;
    if (depth == 0) return "..";
    std::string r = std::string("(") + nm[a->op];
    if (a->op == EXTRACT) r += "[" + std::to_string(a->lo + a->w - 1) + ":" + std::to_string(a->lo) + "]";
    if (a->op == UF) r += ":" + a->name;
    for (size_t i = 0; i < a->k.size() && i < 12; i++) {
        r += " ";
        if (a->op == LIN) { llvm::SmallString<32> s; a->co[i].toString(s, 16, true, true); r += std::string(s.str()) + "*"; }
        r += shortStr(a->k[i], depth - 1);
    }
    if (a->op == LIN) { llvm::SmallString<32> s; a->c.toString(s, 16, true, true); r += " +" + std::string(s.str()); }
    return r + ")";
}

APInt evalTerm(T root, const std::map<std::string, APInt> &m) {
    std::unordered_map<uint64_t, APInt> v;
    std::vector<std::pair<T, size_t>> st{{root, 0}};
    while (!st.empty()) {
        auto &[n, i] = st.back();
        if (v.count(n->id)) { st.pop_back(); continue; }
        if (i < n->k.size()) { T c = n->k[i++]; if (!v.count(c->id)) st.push_back({c, 0}); continue; }
        T x = n; st.pop_back();
        auto g = [&](size_t j) -> const APInt & { return v.find(x->k[j]->id)->second; };
        APInt r(x->w, 0);
        auto sh = [&](const APInt &b) -> unsigned { return b.uge(x->w) ? x->w : (unsigned)b.getZExtValue(); };
        switch (x->op) {
            case CONST: r = x->c; break;
            case VAR: { auto it = m.find(x->name); if (it != m.end()) r = it->second.zextOrTrunc(x->w); break; }
            case UF: break;
            case NOT: r = ~g(0); break;
            case AND: r = g(0); for (size_t j = 1; j < x->k.size(); j++) r &= g(j); break;
            case OR: r = g(0); for (size_t j = 1; j < x->k.size(); j++) r |= g(j); break;
            case XOR: r = g(0) ^ g(1); break;
            case LIN: r = x->c; for (size_t j = 0; j < x->k.size(); j++) r += x->co[j] * g(j); break;
            case MUL: r = g(0) * g(1); break;
            case UDIV: r = g(1).isZero() ? APInt::getAllOnes(x->w) : g(0).udiv(g(1)); break;
            case UREM: r = g(1).isZero() ? g(0) : g(0).urem(g(1)); break;
            case SDIV: r = g(1).isZero() ? (g(0).isNegative() ? APInt(x->w, 1) : APInt::getAllOnes(x->w)) : g(0).sdiv(g(1)); break;
            case SREM: r = g(1).isZero() ? g(0) : g(0).srem(g(1)); break;
            case SHL: r = sh(g(1)) >= x->w ? APInt(x->w, 0) : g(0).shl(sh(g(1))); break;
            case LSHR: r = sh(g(1)) >= x->w ? APInt(x->w, 0) : g(0).lshr(sh(g(1))); break;
            case ASHR: r = g(0).ashr(std::min(sh(g(1)), x->w - 1)); break;
            case CONCAT: { r = g(0); for (size_t j = 1; j < x->k.size(); j++) r = r.concat(g(j)); break; }
            case EXTRACT: r = g(0).extractBits(x->w, x->lo); break;
            case ITE: r = g(0).getBoolValue() ? g(1) : g(2); break;
            case EQ: r = APInt(1, g(0) == g(1)); break;
            case ULT: r = APInt(1, g(0).ult(g(1))); break;
            case SLT: r = APInt(1, g(0).slt(g(1))); break;
        }
        v.emplace(x->id, r);
    }
    return v.find(root->id)->second;
}

static T remake(T a, const std::vector<T> &k) {
    switch (a->op) {
        case CONST: case VAR: return a;
        case NOT: return mkNot(k[0]);
        case AND: { T r = k[0]; for (size_t i = 1; i < k.size(); i++) r = mkAnd(r, k[i]); return r; }
        case OR: { T r = k[0]; for (size_t i = 1; i < k.size(); i++) r = mkOr(r, k[i]); return r; }
        case XOR: { T r = k[0]; for (size_t i = 1; i < k.size(); i++) r = mkXor(r, k[i]); return r; }
        case LIN: { T r = mkConst(a->c); for (size_t i = 0; i < k.size(); i++) r = mkAdd(r, mkMul(mkConst(a->co[i]), k[i])); return r; }
        case MUL: { T r = k[0]; for (size_t i = 1; i < k.size(); i++) r = mkMul(r, k[i]); return r; }
        case UDIV: return mkUDiv(k[0], k[1]);
        case UREM: return mkURem(k[0], k[1]);
        case SDIV: return mkSDiv(k[0], k[1]);
        case SREM: return mkSRem(k[0], k[1]);
        case SHL: return mkShl(k[0], k[1]);
        case LSHR: return mkLShr(k[0], k[1]);
        case ASHR: return mkAShr(k[0], k[1]);
        case CONCAT: return mkConcatV(k);
        case EXTRACT: return mkExtract(k[0], a->lo + a->w - 1, a->lo);
        case ITE: return mkIte(k[0], k[1], k[2]);
        case EQ: return mkEq(k[0], k[1]);
        case ULT: return mkUlt(k[0], k[1]);
        case SLT: return mkSlt(k[0], k[1]);
        case UF: return mkUF(a->name, a->w, k);
    }
    return a;
}
T rebuild(T a, std::unordered_map<T, T> &m) {
    auto it = m.find(a);
    if (it != m.end()) return it->second;
    if (a->k.empty()) return a;
    std::vector<T> k;
    bool ch = false;
    for (auto c : a->k) { k.push_back(rebuild(c, m)); if (k.back() != c) ch = true; }
    T r = ch ? remake(a, k) : a;
    m[a] = r;
    return r;
}
static bool occurs(T x, T in, std::unordered_set<T> &seen) {
    if (x == in) return true;
    if (!seen.insert(in).second) return false;
    for (auto c : in->k) if (occurs(x, c, seen)) return true;
    return false;
}
std::vector<T> simplifyConj(std::vector<T> lits) {
    auto flatten = [](const std::vector<T> &in, bool &bad) {
        std::vector<T> out;
        std::unordered_set<T> seen;
        std::function<void(T)> push = [&](T x) {
            if (isTrue(x)) return;
            if (isFalse(x)) { bad = true; return; }
            if (x->op == AND) { for (auto y : x->k) push(y); return; }
            if (x->op == NOT && x->k[0]->op == OR) { for (auto y : x->k[0]->k) push(mkNot(y)); return; }
            if (seen.insert(x).second) out.push_back(x);
        };
        for (auto x : in) push(x);
        return out;
    };
    bool bad = false;
    lits = flatten(lits, bad);
    for (int round = 0; round < 60 && !bad; round++) {
        // unit propagation
        std::unordered_map<T, T> base;
        for (auto l : lits) {
            T a = l->op == NOT ? l->k[0] : l;
            T v = l->op == NOT ? tFalse() : tTrue();
            if (base.count(a) && base[a] != v) return {tFalse()};
            base[a] = v;
        }
        std::vector<T> next;
        bool changed = false;
        std::unordered_map<T, T> memo = base;
        for (auto l : lits) {
            T a = l->op == NOT ? l->k[0] : l;
            std::vector<T> k;
            bool ch = false;
            for (auto c : a->k) { k.push_back(rebuild(c, memo)); if (k.back() != c) ch = true; }
            T n = ch ? remake(a, k) : a;
            if (l->op == NOT) n = mkNot(n);
            if (n != l) changed = true;
            next.push_back(n);
        }
        lits = flatten(next, bad);
        if (bad) break;
        // one solved equation
        bool solved = false;
        for (size_t i = 0; i < lits.size() && !solved; i++) {
            T l = lits[i];
            if (l->op != EQ) continue;
            T x = nullptr, t = nullptr;
            T d = mkSub(l->k[0], l->k[1]);
            auto tryAtom = [&](T at, const APInt &co, bool uf) {
                if (x || at->op != (uf ? UF : VAR) || at->w != l->w * 0 + l->k[0]->w) return;
                T rest = mkSub(d, mkMul(mkConst(co), at));
                T e;
                if (co.isOne()) e = mkNeg(rest);
                else if (co.isAllOnes()) e = rest;
                else return;
                std::unordered_set<T> seen;
                if (occurs(at, e, seen)) return;
                x = at; t = e;
            };
            for (int uf = 1; uf >= 0; uf--) {
                if (d->op == LIN) for (size_t j = 0; j < d->k.size(); j++) tryAtom(d->k[j], d->co[j], uf);
                for (int s = 0; s < 2 && !x; s++) {
                    T at = l->k[s];
                    if (!uf && at->op == EXTRACT && at->k[0]->op == VAR && isC(l->k[1 - s])) {
                        // some bits of a variable
                        std::vector<T> p;
                        x = at->k[0];
                        if (at->lo + at->w < x->w) p.push_back(mkExtract(x, x->w - 1, at->lo + at->w));
                        p.push_back(l->k[1 - s]);
                        if (at->lo) p.push_back(mkExtract(x, at->lo - 1, 0));
                        t = mkConcatV(p);
                        break;
                    }
                    if (at->op != (uf ? UF : VAR)) continue;
                    std::unordered_set<T> seen;
                    if (occurs(at, l->k[1 - s], seen)) continue;
                    x = at; t = l->k[1 - s];
                }
            }
            if (!x) continue;
            std::unordered_map<T, T> m{{x, t}};
            std::vector<T> nx;
            for (size_t j = 0; j < lits.size(); j++) if (j != i) nx.push_back(rebuild(lits[j], m));
            lits = flatten(nx, bad);
            solved = true;
        }
        if (!changed && !solved) break;
    }
    if (bad) return {tFalse()};
    return lits;
}
T someCond(T a) {
    std::unordered_set<T> seen;
    std::function<T(T)> go = [&](T x) -> T {
        if (!seen.insert(x).second) return nullptr;
        if (x->op == ITE) { if (T c = go(x->k[0])) return c; return x->k[0]; }
        for (auto c : x->k) if (T r = go(c)) return r;
        return nullptr;
    };
    return go(a);
}
}  // namespace lcv
