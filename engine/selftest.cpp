// Self test of the term normaliser (not part of any check): random terms are built with the normalising
// constructors next to their values under fixed assignments; the normal form must evaluate to the same values
// and respect the derived bounds.   usage: selftest SECONDS [SEED]
#include "term.h"
#include <chrono>
#include <cstdio>
#include <random>
using namespace lcv;
using llvm::APInt;
static std::mt19937_64 rng;
static const unsigned K = 12;
struct E { T t; std::vector<APInt> v; };
static APInt rnd(unsigned w) {
    APInt r(w, 0);
    for (unsigned i = 0; i < w; i += 32) r = (w > 32 ? r.shl(std::min(32u, w - 1)) : r) | APInt(64, (uint32_t)rng()).zextOrTrunc(w);
    switch (rng() % 6) { case 0: return APInt(w, 0); case 1: return APInt::getAllOnes(w); case 2: return r.lshr(rng() % w); case 3: return APInt::getOneBitSet(w, rng() % w); default: return r; }
}
int main(int argc, char **argv) {
    double secs = argc > 1 ? atof(argv[1]) : 10;
    uint64_t seed = argc > 2 ? atoll(argv[2]) : 1, n = 0, bad = 0;
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs; };
    for (uint64_t round = 0; left() && bad < 5; round++) {
        rng.seed(seed * 1000003 + round);
        std::vector<std::map<std::string, APInt>> as(K);
        std::vector<E> pool;
        static const unsigned ws[] = {1, 1, 2, 4, 4, 4, 5, 8, 8, 16, 31, 32, 33, 63, 64, 64, 64, 65, 100, 128, 128, 129, 192};
        unsigned nv = 2 + rng() % 5, kind = rng() % 3;
        for (unsigned i = 0; i < nv; i++) {
            unsigned w = kind == 0 ? 4 : ws[rng() % (sizeof ws / sizeof *ws)];
            std::string nm = "r" + std::to_string(round) + "_" + std::to_string(i);
            E e; e.t = mkVar(w, nm);
            for (unsigned k = 0; k < K; k++) { APInt x = rnd(w); as[k].emplace(nm, x); e.v.push_back(x); }
            pool.push_back(e);
        }
        auto add = [&](T t, std::vector<APInt> v, const char *what) {
            n++;
            for (unsigned k = 0; k < K; k++) {
                APInt g = evalTerm(t, as[k]);
                if (g.getBitWidth() != v[k].getBitWidth() || g != v[k] || umaxOf(t).ult(g) || uminOf(t).ugt(g)) {
                    bad++;
                    printf("%s ", g != v[k] ? "VALUE" : umaxOf(t).ult(g) ? "UMAX" : "UMIN");
                    printf("MISMATCH %s seed %llu round %llu: %s\n", what, (unsigned long long)seed, (unsigned long long)round, shortStr(t, 6).c_str());
                    return;
                }
            }
            pool.push_back({t, v});
        };
        auto pick = [&]() -> E { return pool[rng() % 3 ? pool.size() - 1 - rng() % std::min<size_t>(pool.size(), 6) : rng() % pool.size()]; };
        auto fitE = [&](E e, unsigned w) -> E {
            unsigned m = rng() % 3;
            if (e.t->w == w) return e;
            E r;
            if (e.t->w > w) { r.t = mkTrunc(e.t, w); for (auto &x : e.v) r.v.push_back(x.trunc(w)); }
            else if (m) { r.t = mkZExt(e.t, w); for (auto &x : e.v) r.v.push_back(x.zext(w)); }
            else { r.t = mkSExt(e.t, w); for (auto &x : e.v) r.v.push_back(x.sext(w)); }
            return r;
        };
        for (unsigned s = 0; s < 40 && bad < 5; s++) {
            unsigned w = kind == 0 ? (rng() % 2 ? 64 : 128) : ws[rng() % (sizeof ws / sizeof *ws)];
            unsigned op = kind == 0 && rng() % 4 ? rng() % 4 : rng() % 20;
            E a = fitE(pick(), w), b = fitE(pick(), w);
            auto vv = [&](auto f) { std::vector<APInt> r; for (unsigned k = 0; k < K; k++) r.push_back(f(a.v[k], b.v[k])); return r; };
            auto bl = [](bool x) { return APInt(1, x); };
            switch (op) {
                case 0: add(mkAdd(a.t, b.t), vv([](auto &x, auto &y) { return x + y; }), "add"); break;
                case 1: { APInt c = rng() % 2 ? APInt(64, 10).zextOrTrunc(w) : rnd(w); add(mkMul(a.t, mkConst(c)), vv([&](auto &x, auto &) { return x * c; }), "mulc"); break; }
                case 2: { unsigned lo = rng() % w, hi = lo + rng() % (w - lo); if (w == 128 && rng() % 2) { lo = 64; hi = 127; }
                          add(mkExtract(a.t, hi, lo), vv([&](auto &x, auto &) { return x.lshr(lo).trunc(hi - lo + 1); }), "extract"); break; }
                case 3: if (w <= 128) add(mkZExt(a.t, w + 64), vv([&](auto &x, auto &) { return x.zext(w + 64); }), "zext"); break;
                case 4: add(mkSub(a.t, b.t), vv([](auto &x, auto &y) { return x - y; }), "sub"); break;
                case 5: add(mkAnd(a.t, b.t), vv([](auto &x, auto &y) { return x & y; }), "and"); break;
                case 6: add(mkOr(a.t, b.t), vv([](auto &x, auto &y) { return x | y; }), "or"); break;
                case 7: add(mkXor(a.t, b.t), vv([](auto &x, auto &y) { return x ^ y; }), "xor"); break;
                case 8: add(mkNot(a.t), vv([](auto &x, auto &) { return ~x; }), "not"); break;
                case 9: add(mkNeg(a.t), vv([](auto &x, auto &) { return -x; }), "neg"); break;
                case 10: add(mkMul(a.t, b.t), vv([](auto &x, auto &y) { return x * y; }), "mul"); break;
                case 11: if (w <= 100) add(mkConcat(a.t, b.t), vv([](auto &x, auto &y) { return x.concat(y); }), "concat"); break;
                case 12: add(mkSExt(a.t, w + 37), vv([&](auto &x, auto &) { return x.sext(w + 37); }), "sext"); break;
                case 13: { E c = fitE(pick(), 1); std::vector<APInt> r; for (unsigned k = 0; k < K; k++) r.push_back(c.v[k].getBoolValue() ? a.v[k] : b.v[k]); add(mkIte(c.t, a.t, b.t), r, "ite"); break; }
                case 14: add(mkEq(a.t, b.t), vv([&](auto &x, auto &y) { return bl(x == y); }), "eq"); break;
                case 15: add(mkUlt(a.t, b.t), vv([&](auto &x, auto &y) { return bl(x.ult(y)); }), "ult"); break;
                case 16: add(mkSlt(a.t, b.t), vv([&](auto &x, auto &y) { return bl(x.slt(y)); }), "slt"); break;
                case 17: { unsigned sh = rng() % w; T c = mkConst(APInt(32, sh).zextOrTrunc(w)); if (w < 8) break; add(mkShl(a.t, c), vv([&](auto &x, auto &) { return x.shl(sh); }), "shl"); add(mkLShr(a.t, c), vv([&](auto &x, auto &) { return x.lshr(sh); }), "lshr"); add(mkAShr(a.t, c), vv([&](auto &x, auto &) { return x.ashr(sh); }), "ashr"); break; }
                case 18: { APInt c = rnd(w); add(mkEq(a.t, mkConst(c)), vv([&](auto &x, auto &) { return bl(x == c); }), "eqc"); add(mkUlt(mkConst(c), a.t), vv([&](auto &x, auto &) { return bl(c.ult(x)); }), "cult"); break; }
                case 19: { APInt c = rnd(w); add(mkAnd(a.t, mkConst(c)), vv([&](auto &x, auto &) { return x & c; }), "andc"); add(mkAdd(a.t, mkConst(c)), vv([&](auto &x, auto &) { return x + c; }), "addc"); break; }
            }
        }
        // a contradiction reported by simplifyConj must be one
        for (unsigned q = 0; q < 6; q++) {
            std::vector<T> lits;
            unsigned k = rng() % K;
            for (unsigned i = 0; i < 3; i++) { E e = fitE(pool[rng() % pool.size()], 1); lits.push_back(e.v[k].getBoolValue() ? e.t : mkNot(e.t)); }
            for (auto l : simplifyConj(lits)) if (!evalTerm(l, as[k]).getBoolValue()) { bad++; printf("MISMATCH simplifyConj seed %llu round %llu\n", (unsigned long long)seed, (unsigned long long)round); break; }
            n++;
        }
    }
    printf("selftest: %llu constructions, %llu mismatches\n", (unsigned long long)n, (unsigned long long)bad);
    return bad != 0;
}
