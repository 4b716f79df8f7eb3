// Hash-consed expression DAG used by the symbolic executor, and its lowering to Z3.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <gmpxx.h>
#include <z3++.h>

enum Kind : uint8_t
{
    K_CONST, K_VAR,                                     // bit-vectors (width 1 = Bool)
    K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
    K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
    K_EXTRACT, K_CONCAT, K_ZEXT, K_SEXT,
    K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
    K_ITE,                                              // any sort
    K_FCONST, K_FVAR, K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FNEG,
    K_FEQ, K_FLT, K_FLE, K_FUNO, K_FEXT, K_FTRUNC,
    K_SITOFP, K_UITOFP, K_FPTOSI, K_FPTOUI, K_FBITS, K_BITSF, K_FUN, K_FFLOOR
};

enum Sort : uint8_t { S_BV, S_F32, S_F64 };

enum Fn : uint8_t { FN_EXP, FN_TANH, FN_LOG, FN_SQRT, FN_POW, FN_SIN, FN_COS, FN_ERF, FN_OTHER };

struct FConst               // value of a floating point constant
{
    int special = 0;        // 0 finite, 1 NaN, 2 +inf, 3 -inf
    mpq_class q;            // real mode: exact value
    double d = 0;           // IEEE mode: the value
};

struct Expr
{
    Kind k;
    Sort s;
    uint16_t w;             // width of bit-vectors
    uint8_t fn = 0;
    bool hasUF = false;
    uint32_t id = 0;
    uint64_t c = 0;         // K_CONST value / K_EXTRACT offset
    const FConst* f = nullptr;
    const Expr* a[3] = {nullptr, nullptr, nullptr};
    const std::string* name = nullptr;
    mutable Z3_ast z = nullptr;
};
typedef const Expr* E;

extern bool realMode;       // exact reals instead of IEEE-754

uint64_t maskW(unsigned w);
int64_t signedOf(uint64_t v, unsigned w);

E mkConst(uint64_t v, unsigned w);
E mkVar(const std::string& name, unsigned w);
E mkBin(Kind k, E a, E b);          // arithmetic and comparisons on bit-vectors
E mkNot(E a);
E mkAndB(E a, E b);
E mkOrB(E a, E b);
E mkExtract(E a, unsigned off, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkFConst(double d, Sort s);
E mkFRat(const mpq_class& q, Sort s);
E mkFVar(const std::string& name, Sort s);
E mkFBin(Kind k, E a, E b);
E mkFNeg(E a);
E mkFCmp(Kind k, E a, E b);
E mkFCast(E a, Sort s);
E mkIntToF(E a, bool isSigned, Sort s);
E mkFToInt(E a, bool isSigned, unsigned w);
E mkFBits(E a);
E mkBitsF(E a, Sort s);
E mkFun(Fn fn, E a, E b, const std::string& name);
E mkFloor(E a);
E mkFAbs(E a);
E canonical(E e);                    // sums and products in one order (real mode)
E mkDiff(E y, E x);                 // derivative of y with respect to variable x (real mode)

inline bool isC(E e) { return e->k == K_CONST; }
inline bool isFC(E e) { return e->k == K_FCONST; }
bool fconstAsDouble(E e, double& d); // exactly representable?
bool exactFloat(const FConst& f, Sort s, double& d);

extern z3::context* zctx;
Z3_ast lower(E e);
std::string show(E e, int depth = 6);
// function applications (with their lowered variable) reachable from e
void collectFuns(E e, std::vector<E>& out, std::unordered_set<E>& seen);
struct EngineError { std::string msg; };
