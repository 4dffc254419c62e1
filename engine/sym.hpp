// Symbolic value layer: hash-consed expression DAG over exact reals, bit-vectors
// and booleans; normal form for real expressions (multivariate rational functions
// modulo the defining relations of algebraic atoms); translation to Z3.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3++.h>

namespace sym {
typedef uint32_t N;                       // node id, 0 = none
enum Sort : uint8_t { REAL, BOOL, BV };
enum Op : uint8_t {
  O_CONST, O_VAR, O_ADD, O_MUL, O_DIV, O_ATOM,          // real
  O_I2R,                                                 // bv -> real (signed)
  O_TRUE, O_FALSE, O_LT, O_LE, O_EQ, O_NOT, O_AND, O_OR, O_XOR, // bool
  O_BVCONST, O_BVVAR, O_BVOP, O_R2I, O_BVCMP, O_ITE
};
struct Node {
  Op op; Sort sort; uint16_t width;
  std::vector<N> a;
  uint64_t k;            // payload: const index, name index, bv const, opcode
  bool operator==(const Node &o) const { return op==o.op&&sort==o.sort&&width==o.width&&k==o.k&&a==o.a; }
};
struct Budget { std::string what; };

// ---------- polynomials ----------
typedef uint32_t Mono;
typedef std::vector<std::pair<Mono, mpq_class>> Poly; // sorted by mono order (descending)
struct Rat { Poly num; std::vector<std::pair<int,int>> den; }; // factor id, exponent
typedef std::shared_ptr<const Rat> RatP;

struct AtomInfo {
  std::string name;    // printable
  N node;              // node that denotes it
  int ruleDeg = 0;     // atom^ruleDeg -> rule
  RatP rule;
  bool isVar=false;
  bool hasB=false; double lo=0, hi=0;  // proven bounds (declared)
  std::vector<N> args; std::string fun;
  Poly sqArg;          // for sqrt
};

struct Ctx {
  std::vector<Node> nodes;
  std::unordered_multimap<uint64_t,N> cons;
  std::vector<mpq_class> consts;
  std::map<mpq_class,N> constIdx;
  std::vector<std::string> names;
  std::map<std::string,uint64_t> nameIdx;
  std::vector<AtomInfo> atoms;
  std::unordered_map<N,int> atomOf;       // node -> atom index
  std::map<std::string,N> atomKey;        // canonical key -> node
  size_t termBudget = 60000;
  // hooks set by the interpreter
  std::function<bool(N)> decide;          // decide a boolean (may fork)
  struct VarInfo { N node; std::string name; bool hasB; mpq_class lo, hi; bool input; bool isInt; mpq_class val; bool dead=false;};
  std::vector<VarInfo> vars;
  std::unordered_map<N,int> varOf;
  std::vector<N> axioms;                  // bool nodes always true (atom facts)
  N T, F;

  Ctx();
  N mk(Op op, Sort s, uint16_t w, std::vector<N> a, uint64_t k);
  const Node &n(N i) const { return nodes[i]; }
  N cst(const mpq_class &q);
  bool isConst(N x, mpq_class *out=nullptr) const;
  N var(const std::string &name, bool input, const mpq_class *lo, const mpq_class *hi, bool isInt, const mpq_class &val);
  N add(N a, N b); N mul(N a, N b); N sub(N a, N b); N neg(N a); N div(N a, N b);
  N sqrtN(N a);                           // may decide signs
  N absN(N a);                            // may decide
  int scaledAtom(N x,const mpq_class&c); // index of the atom a when x is provably c*a, else -1
  N fun(const std::string &f, std::vector<N> args);
  N powi(N a, int e);
  N lt(N a,N b), le(N a,N b), eq(N a,N b), notN(N a), andN(N a,N b), orN(N a,N b), xorN(N a,N b);
  // bit-vectors
  std::unordered_map<N,int64_t> bvVal; N bvc(uint64_t v, unsigned w); N bvvar(const std::string&, unsigned w);
  N bvop(int opc, N a, N b); N bvcmp(int pred, N a, N b);
  N bvcast(int opc, N a, unsigned w);
  bool isBvConst(N x, uint64_t *v=nullptr) const;

  // normal forms
  std::unordered_map<N,RatP> nfMemo;
  std::unordered_map<N,char> nfFail;
  RatP nf(N x);                           // throws Budget
  RatP tryNf(N x);                        // null when over budget
  bool isZero(N x);                       // proven identically zero
  int constSign(N x);                     // -1,0,1 constant; 2 unknown
  N fromRat(const RatP&r);
  N fromPoly(const Poly&p);
  int boundSign(const Poly&p);            // by interval over declared bounds: 1 >0, -1 <0, 3 >=0, -3 <=0, 2 unknown
  int signKnown(N x);
  // numeric evaluation under current var values
  double evalD(N x, std::unordered_map<N,double>&memo);
  int evalB(N x, std::unordered_map<N,double>&memo); // 1/0/-1 unsure
  std::string show(N x, int depth=6);
  std::string polyStr(const Poly&p);
  N newAlgebraic(const std::string&name, const std::vector<N>&monicRule, bool complexAtom=false);

  // z3
  z3::context *zc=nullptr;
  std::unordered_map<N,Z3_ast> zmemo; std::vector<z3::expr> zkeep;
  std::set<int> zAtomsSeen; std::vector<N> zPendingAxioms;
  z3::expr toZ3(N x);
  z3::expr zpoly(const Poly&p);
};
extern Ctx C;
Poly pAdd(const Poly&,const Poly&); Poly pMul(const Poly&,const Poly&); Poly pScale(const Poly&,const mpq_class&);
bool pDivExact(const Poly&a,const Poly&b,Poly&q);
bool pSqrt(const Poly&a,Poly&r);
bool pCbrt(const Poly&a,Poly&r);
}
