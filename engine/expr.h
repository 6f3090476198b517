// Hash-consed bit-vector / floating-point expressions with a local simplifier.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <functional>
#include <algorithm>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

enum Op : uint8_t {
	CONST, VAR,
	ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
	EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT,
	FADD, FSUB, FMUL, FDIV, FREM, FNEG, FABS, FSQRT, FFLOOR, FCEIL, FTRUNC, FROUND, FRINT,
	FEQ, FLT, FLE, FUNO, SITOF, UITOF, FTOSI, FTOUI, FCAST
};
extern const char* opNames[];

typedef std::vector<uint32_t> VarSet;

struct Ex {
	Op op;
	uint16_t w;
	uint8_t nk;
	uint8_t umaxValid = 0;
	uint32_t id;
	u128 c; // constant | variable index | extract offset
	Ex* k[3];
	const VarSet* vars;
	u128 umaxV;
	int32_t ctSize = -2;   // nodes of the constant ite tree, -1: not one, -2: unknown
	uint8_t tz = 255; int8_t nnan = -1;
	uint8_t srValid = 0; i128 srLo = 0, srHi = 0; // signed interval
	u64 stamp = 0;         // tabulation
	u128 ev = 0;
	void* z3bv = nullptr;
	void* z3fp = nullptr;
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sx(u128 v, unsigned w) {
	if (w >= 128) return (i128)v;
	u128 s = (u128)1 << (w - 1);
	v &= maskw(w);
	return (i128)((v ^ s) - s);
}

extern std::vector<Ex*> allVars;           // by variable index
extern std::vector<std::string> varNames;
extern u64 numExprs;
extern unsigned canonBits;

Ex* mkConst(u128 v, unsigned w);
Ex* mkVar(const std::string& name, unsigned w);
Ex* mkBin(Op op, Ex* a, Ex* b);
Ex* mkNot(Ex* a);              // width 1 (or bitwise not)
Ex* mkIte(Ex* c, Ex* a, Ex* b);
Ex* mkConcat(Ex* hi, Ex* lo);
Ex* mkExtract(Ex* a, unsigned off, unsigned w);
Ex* mkZExt(Ex* a, unsigned w);
Ex* mkSExt(Ex* a, unsigned w);
Ex* mkFUn(Op op, Ex* a);
Ex* mkFBin(Op op, Ex* a, Ex* b);
Ex* mkFCmp(Op op, Ex* a, Ex* b);
Ex* mkConv(Op op, Ex* a, unsigned w);  // SITOF.. FCAST
static inline Ex* mkEq(Ex* a, Ex* b) { return mkBin(EQ, a, b); }
static inline Ex* mkAnd(Ex* a, Ex* b) { return mkBin(AND, a, b); }
static inline Ex* mkOr(Ex* a, Ex* b) { return mkBin(OR, a, b); }
static inline bool isC(Ex* e) { return e->op == CONST; }
static inline bool isTrue(Ex* e) { return e->op == CONST && e->w == 1 && e->c == 1; }
static inline bool isFalse(Ex* e) { return e->op == CONST && e->w == 1 && e->c == 0; }
u128 umaxOf(Ex* e);
unsigned trailingZeros(Ex* e);

u128 evalBin(Op op, u128 a, u128 b, unsigned w);
u128 evalOp(const Ex* e, const u128* kv);

// long double <-> 80 bit pattern
static inline long double toLD(u128 v) { long double r = 0; memcpy(&r, &v, 10); return r; }
static inline u128 fromLD(long double d) { u128 r = 0; memcpy(&r, &d, 10); return r; }
static inline double toD(u128 v) { u64 x = (u64)v; double r; memcpy(&r, &x, 8); return r; }
static inline u128 fromD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static inline float toF(u128 v) { uint32_t x = (uint32_t)v; float r; memcpy(&r, &x, 4); return r; }
static inline u128 fromF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }
static inline long double fpVal(u128 v, unsigned w) { return w == 80 ? toLD(v) : w == 64 ? (long double)toD(v) : (long double)toF(v); }

struct Model {
	std::vector<u128> val;            // by variable index
	std::unordered_map<const Ex*, u128> memo;
	u128 get(uint32_t v) const { return v < val.size() ? val[v] : 0; }
	u128 eval(Ex* e);
};

std::string exStr(const Ex* e, int depth = 6);
void signedRange(Ex* e, i128& lo, i128& hi); // sound bounds of the value as a signed number
