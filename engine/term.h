// Hash-consed bit-vector term DAG with slice-normalising constructors, and SMT-LIB2 printing.
#pragma once
#include <llvm/ADT/APInt.h>
#include <cassert>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace lcv {
using llvm::APInt;

enum Op : uint8_t {
    CONST, VAR, NOT, AND, OR, XOR, LIN, MUL, UDIV, UREM, SDIV, SREM,
    SHL, LSHR, ASHR, CONCAT, EXTRACT, ITE, EQ, ULT, SLT, UF
};

struct Node;
using T = const Node *;

struct Node {
    Op op;
    unsigned w;            // width in bits (booleans are width 1)
    std::vector<T> k;      // children
    APInt c;               // CONST: value; LIN: constant addend
    std::vector<APInt> co; // LIN: coefficients
    unsigned lo = 0;       // EXTRACT: low bit
    std::string name;      // VAR/UF
    uint64_t id = 0;
    size_t h = 0;
    int base = -1;         // VAR: object id if this is an object's base address
};

T mkConst(const APInt &v);
T mkConst(unsigned w, uint64_t v);
T mkVar(unsigned w, const std::string &name, int base = -1);
T mkNot(T a);
T mkAnd(T a, T b);
T mkOr(T a, T b);
T mkXor(T a, T b);
T mkAdd(T a, T b);
T mkSub(T a, T b);
T mkNeg(T a);
T mkMul(T a, T b);
T mkUDiv(T a, T b);
T mkURem(T a, T b);
T mkSDiv(T a, T b);
T mkSRem(T a, T b);
T mkShl(T a, T b);
T mkLShr(T a, T b);
T mkAShr(T a, T b);
T mkConcat(T hi, T lo);
T mkConcatV(std::vector<T> parts);  // MSB first
T mkExtract(T a, unsigned hi, unsigned lo);
T mkZExt(T a, unsigned w);
T mkSExt(T a, unsigned w);
T mkTrunc(T a, unsigned w);
T mkIte(T c, T a, T b);
T mkEq(T a, T b);
T mkUlt(T a, T b);
T mkUle(T a, T b);
T mkSlt(T a, T b);
T mkSle(T a, T b);
T mkUF(const std::string &name, unsigned w, std::vector<T> args);
inline T tTrue() { static T t = mkConst(1, 1); return t; }
inline T tFalse() { static T t = mkConst(1, 0); return t; }
inline bool isC(T a) { return a->op == CONST; }
inline bool isTrue(T a) { return a->w == 1 && isC(a) && a->c.getBoolValue(); }
inline bool isFalse(T a) { return a->w == 1 && isC(a) && !a->c.getBoolValue(); }
APInt umaxOf(T a);
APInt uminOf(T a);
unsigned knownLowZeros(T a);
uint64_t nodeCount();

// printing
extern bool absArith, sawArith;  // toSmt: treat wide products and quotients as uninterpreted; such terms were seen
std::string toSmt(const std::vector<T> &asserts, std::vector<T> &varsOut);
std::string shortStr(T a, int depth = 4);
// the term with every node in m replaced, normalised again
T rebuild(T a, std::unordered_map<T, T> &m);
// a conjunction that holds whenever all of lits hold: unit propagation, solved equations substituted.  {false} if contradictory
std::vector<T> simplifyConj(std::vector<T> lits);
// a condition of an ITE in a, or nullptr
T someCond(T a);
// concrete evaluation under an assignment of variables (missing => 0)
APInt evalTerm(T a, const std::map<std::string, APInt> &m);
}  // namespace lcv
