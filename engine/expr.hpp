// Expression layer of the symbolic executor: exact rationals, Laurent polynomials over real atoms,
// and hash-consed bit-vector expressions.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <memory>
#include <stdexcept>
#include <set>
#include <gmpxx.h>

struct EngineError : std::runtime_error { using std::runtime_error::runtime_error; };

// ---------------------------------------------------------------- rationals (small fast path)
struct Rat {
	int64_t n = 0, d = 1;
	std::shared_ptr<mpq_class> big;
	Rat() {}
	Rat(int64_t v) : n(v), d(1) { if(v == INT64_MIN) setbig(mpq_class((long)v)); }
	explicit Rat(const mpq_class& q) { set(q); }
	static Rat fromDouble(double x);
	void set(const mpq_class& q) {
		if(q.get_num().fits_slong_p() && q.get_den().fits_slong_p()
		   && q.get_num() > mpz_class("-4611686018427387904") && q.get_num() < mpz_class("4611686018427387904")
		   && q.get_den() < mpz_class("4611686018427387904")) {
			n = q.get_num().get_si(); d = q.get_den().get_si(); big.reset();
		} else setbig(q);
	}
	void setbig(const mpq_class& q) { big = std::make_shared<mpq_class>(q); n = 0; d = 0; }
	mpq_class q() const { if(big) return *big; mpq_class r((long)n,(long)d); return r; }
	bool isZero() const { return !big && n == 0; }
	bool isOne() const { return !big && n == 1 && d == 1; }
	int sgn() const { if(big) return ::sgn(*big); return n>0?1:(n<0?-1:0); }
	bool operator==(const Rat& o) const {
		if(big || o.big) { if(!big || !o.big) return false; return *big == *o.big; }
		return n == o.n && d == o.d;
	}
	bool operator!=(const Rat& o) const { return !(*this == o); }
	double toDouble() const { if(big) return big->get_d(); return (double)n/(double)d; }
	std::string str() const { return q().get_str(); }
	size_t hash() const { if(big) return std::hash<std::string>()(big->get_str()); return (size_t)n*0x9E3779B97F4A7C15ull ^ (size_t)d*0xC2B2AE3D27D4EB4Full; }
};
Rat operator+(const Rat&a,const Rat&b);
Rat operator-(const Rat&a,const Rat&b);
Rat operator*(const Rat&a,const Rat&b);
Rat operator/(const Rat&a,const Rat&b);
Rat operator-(const Rat&a);

// ---------------------------------------------------------------- atoms / monomials / polynomials
struct Poly;
struct Expr;
enum AtomKind : uint8_t { A_VAR, A_NAMED, A_SQRT, A_ABS, A_I2R };
struct Atom {
	int id; AtomKind kind; std::string name;
	const Poly* def = nullptr;      // NAMED: value; SQRT: radicand; ABS: argument
	const Expr* iexpr = nullptr;    // I2R
};
struct Mono { uint32_t id; std::vector<std::pair<int,int>> f; int deg; };  // (atom, exponent), sorted
struct Poly {
	uint32_t id;
	std::vector<std::pair<const Mono*,Rat>> t;   // sorted by mono id
	bool isConst() const { return t.empty() || (t.size()==1 && t[0].first->f.empty()); }
	Rat constVal() const { return t.empty() ? Rat(0) : t[0].second; }
	bool isZero() const { return t.empty(); }
};

extern std::vector<Atom> atoms;
const Poly* pconst(const Rat& r);
const Poly* patom(int atom, int exp = 1);
const Poly* padd(const Poly*a,const Poly*b);
const Poly* psub(const Poly*a,const Poly*b);
const Poly* pneg(const Poly*a);
const Poly* pscale(const Poly*a,const Rat&r);
const Poly* pmul(const Poly*a,const Poly*b);
const Poly* pinv(const Poly*a);        // 1/a, a must not be the zero polynomial
const Poly* psqrt(const Poly*a);
const Poly* pabs(const Poly*a);
int newVar(const std::string& name);
int i2rAtom(const Expr* e);
const Poly* pnamed(const Poly*a);      // name a big polynomial by an atom
std::string pstr(const Poly* p, size_t lim = 30);
// clears negative powers and expands NAMED atoms until none is left (equivalent to p == 0 when all
// inverted quantities are nonzero).  Returns nullptr when it grows beyond limit.
const Poly* pexpand(const Poly* p, size_t limit);
// a chain of substitutions (definition of a named quantity or of a square root) leading from p to zero;
// each step is  A D + B M == res  over independent variables
struct CertStep { const Poly *A, *D, *B, *M, *res; };
bool certSteps(const Poly* p, size_t limit, std::vector<CertStep>& steps);
void polyAtoms(const Poly* p, std::set<int>& out, bool trans);
extern size_t nameThreshold;

// ---------------------------------------------------------------- bit-vector / boolean expressions
enum EK : uint8_t { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
	E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT,
	E_RCMP,   // real comparison of a polynomial with zero: op in cval: 0 ==, 1 <, 2 <=
	E_REAL,   // a real value (not a bit-vector)
	E_UNDEF,  // uninitialised
	E_AGG };
struct Expr {
	EK k; uint8_t w; uint32_t id; uint64_t cval; const Expr* a[3]; const Poly* p; std::string* name;
	int lo=0, hi=0;
};
struct Val { uint64_t c; const Expr* e; };
struct Agg : Expr { std::vector<Val> v; };

inline uint64_t maskw(unsigned w) { return w>=64 ? ~0ull : ((1ull<<w)-1); }
inline int64_t sextw(uint64_t v, unsigned w) { if(w>=64) return (int64_t)v; uint64_t m=1ull<<(w-1); v&=maskw(w); return (int64_t)((v^m)-m); }

const Expr* eConst(unsigned w, uint64_t v);
const Expr* eVar(const std::string& name, unsigned w, int lo, int hi);
const Expr* eBin(EK k, const Expr* a, const Expr* b);   // with folding
const Expr* eIte(const Expr* c,const Expr* a,const Expr* b);
const Expr* eCast(EK k, const Expr* a, unsigned w);
const Expr* eExtract(const Expr* a, unsigned lo, unsigned w);
const Expr* eConcat(const Expr* hi, const Expr* lo);
const Expr* eNot(const Expr* a);                        // boolean
const Expr* eRcmp(int op, const Poly* p);               // p op 0
const Expr* eReal(const Poly* p);
const Expr* eUndef(unsigned w);
void exprSyms(const Expr* e, std::set<int64_t>& out);   // ints: expr id, reals: -(atom+1), transitive
extern std::vector<const Expr*> allIntVars;

// numeric evaluation under a model
struct Model {
	std::unordered_map<uint32_t,uint64_t> ints;     // Expr id of E_VAR
	std::unordered_map<int,double> reals;           // A_VAR atoms
	std::unordered_map<int,mpq_class> rq;
};
struct Evaluator {
	const Model& m; std::unordered_map<int,double> cache; std::unordered_map<uint32_t,uint64_t> ic; bool bad=false;
	double tol = 1e-9;
	Evaluator(const Model& mm):m(mm){}
	double atom(int a); double poly(const Poly*p, double* mag=nullptr);
	uint64_t bv(const Expr*e);
};
