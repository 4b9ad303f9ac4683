// Shared machinery of the runtime monitors: deterministic workload generation,
// independent reference models (oracles) and structural auditors.
#ifndef VH_H
#define VH_H
#include <bitset>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include <psdd/psdd_manager.h>
#include <psdd/psdd_node.h>
#include <psdd/psdd_parameter.h>

namespace vh {

typedef long double LD;
typedef std::bitset<MAX_VAR> Bits;

// ---------------------------------------------------------------- randomness
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t u64() {  // splitmix64
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
  double real() { return (double)(u64() >> 11) * (1.0 / 9007199254740992.0); }
  bool chance(double p) { return real() < p; }
  template <class T> void shuffle(std::vector<T> &v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]);
  }
  template <class T> const T &pick(const std::vector<T> &v) {
    return v[below(v.size())];
  }
};
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hash_str(const std::string &s);

// ---------------------------------------------------------------- case context
struct CaseFailed {};
struct Case {
  Rng rng;
  int index = 0;
  bool thorough = false;
  uint64_t seed = 1;
  std::string scratch;  // private scratch directory of this worker
  // Records a refutation of the property and abandons the case.
  [[noreturn]] void fail(const std::string &key, const std::string &msg);
  void check(bool ok, const char *key, const std::string &msg) {
    ++checks;
    if (!ok) fail(key, msg);
  }
  void count(const char *name, uint64_t n = 1);
  void sample(const std::string &s);
  // A distinct, non-trivial case was exercised (identified by h).
  void nontrivial(uint64_t h);
  uint64_t checks = 0;
};
// Every harness defines these.
extern const char *const kProperty;
extern const char *const kRule;
int num_cases(bool thorough);
void run_case(Case &c);

template <class... A> std::string S(A &&...a) {
  std::ostringstream o;
  o.precision(17);
  (void)std::initializer_list<int>{((o << a), 0)...};
  return o.str();
}

// ---------------------------------------------------------------- vtrees
struct VT {
  int var = 0;  // leaf iff var != 0
  VT *l = nullptr, *r = nullptr, *up = nullptr;
  std::vector<int> vars;  // left-to-right
  int id = 0;             // in-order position
  bool fat = false;       // gen_partition splits it into (hundreds of) complete terms
  bool leaf() const { return l == nullptr; }
};
struct VTree {  // owns nodes
  std::vector<std::unique_ptr<VT>> pool;
  VT *root = nullptr;
  VT *new_leaf(int var);
  VT *new_node(VT *l, VT *r);
  void finish(VT *root);
  std::vector<VT *> all() const;
};
enum Shape { BALANCED, LEFT, RIGHT, RANDOM, MIXED_SHAPES };
void random_vtree(Rng &rng, const std::vector<int> &order, int shape, VTree *out);
const char *shape_name(int s);
Vtree *to_sdd(const VT *v);  // fresh, properties set
Vtree *to_sdd_mapped(const VT *v, const std::map<int, int> &var_map);
// parallel walk; aborts via returned false on mismatch
bool map_vtree(const VT *a, Vtree *b, std::unordered_map<Vtree *, const VT *> *m,
               std::unordered_map<const VT *, Vtree *> *back = nullptr);
std::string vt_str(const VT *v);
std::string vtree_str(Vtree *v);
bool same_vtree(Vtree *a, Vtree *b);
// n variable ids: kind 0 -> 1..n, 1 -> permutation of 1..n, 2 -> sparse random ids
// up to 65535
std::vector<int> random_vars(Rng &rng, int n, int kind);

// ---------------------------------------------------------------- reference PSDD
enum Kind { LIT = 1, DEC = 2, TOP = 3 };
struct SNode;
struct SElem {
  SNode *p, *s;
  double w;  // log weight
};
struct SNode {
  int kind = 0;
  const VT *vt = nullptr;
  int lit = 0;                // LIT
  double lt = 0, lf = 0;      // TOP: log weights
  std::vector<SElem> el;      // DEC
  int id = 0;
  PsddNode *src = nullptr;    // when imported from the library
};
struct Spec {
  std::vector<std::unique_ptr<SNode>> pool;
  SNode *root = nullptr;
  SNode *lit(const VT *v, bool sign);
  SNode *top(const VT *v, double lt, double lf);
  SNode *dec(const VT *v, std::vector<SElem> el);
  size_t size() const { return pool.size(); }
};
struct ParamStyle {
  // 0 uniform, 1 very skewed (down to 1e-12), 2 ties, 3 near-one,
  // 4 extreme tiny (down to 1e-250), 5 dyadic, 6 with exact zeros
  int style = 0;
};
std::vector<double> random_weights(Rng &rng, int k, int style);  // logs, normalised
// Partition vtree node v into at most k pairwise disjoint nodes.
std::vector<SNode *> gen_partition(Rng &rng, Spec *sp, const VT *v, int k, int style,
                                   bool exhaustive);
// A PSDD whose support is exactly the set bits of the truth table over v->vars
// (v->vars.size() <= 12). bit i of the table <-> assignment with vars[j] = (i>>j)&1.
typedef std::vector<uint8_t> Table;
SNode *gen_from_table(Rng &rng, Spec *sp, const VT *v, const Table &f, int style,
                      double split_prob);
Table random_table(Rng &rng, int n);
// Full random spec
void random_spec(Rng &rng, const VTree &vt, int style, Spec *sp);  // small n: dense
void big_spec(Rng &rng, const VTree &vt, int style, int width, Spec *sp);

// Build through the public API of the manager.
struct Built {
  std::unordered_map<const SNode *, PsddNode *> of;
};
PsddNode *build(const SNode *root, PsddManager *m, uintmax_t flag, Built *b = nullptr,
                Rng *order = nullptr);

// Import a library PSDD through the public accessors.
struct Import {
  Spec spec;
  std::unordered_map<PsddNode *, SNode *> of;
};
// Returns "" or a description of the structural violation.
struct AuditOpts {
  bool normalised = true;    // every local distribution sums to 1
  bool check_flag = true;
  uintmax_t flag = 0;
  bool positive = false;     // no zero parameters
  double tol = 1e-6;
  bool canonical = true;     // no two distinct structurally identical nodes
  bool disjoint = true;      // primes pairwise disjoint
  bool clean = true;         // user_data zero
};
std::string import_audit(PsddNode *root, const std::unordered_map<Vtree *, const VT *> &vm,
                         const AuditOpts &o, Import *imp);

// ---------------------------------------------------------------- oracles
// log probability of partial evidence: ev[var] in {0,1}, absent = free.
typedef std::unordered_map<int, int> Evid;
LD o_logp(const SNode *root, const Evid &ev);
LD o_mpe(const SNode *root);
LD o_mpe(const SNode *root, const Evid &ev);  // among the assignments that agree with ev
bool o_consistent(const SNode *root, const Evid &ev);
// the same for every node below root
std::unordered_map<const SNode *, bool> o_consistent_all(const SNode *root, const Evid &ev);
mpz_class o_count(const SNode *root);
// dense table of log probabilities over root->vt->vars (normal order)
std::vector<LD> o_dense(const SNode *root);
LD lse(LD a, LD b);
bool close(LD a, LD b, double tol);  // logs; -inf only equals -inf
std::string spec_str(const SNode *root, size_t max_nodes = 60);
uint64_t spec_hash(const SNode *root);
size_t spec_reach(const SNode *root, size_t *elements = nullptr);
std::vector<SNode *> spec_nodes(SNode *root);  // children before parents
std::vector<const SNode *> spec_nodes(const SNode *root);

// evidence helpers
Evid random_evid(Rng &rng, const std::vector<int> &vars, double density);
void to_bits(const Evid &ev, Bits *mask, Bits *inst);
Evid assignment(const std::vector<int> &vars, uint64_t i);

// ---------------------------------------------------------------- SDDs
struct SddCtx {  // SDD manager over a vtree with variables 1..n
  SddManager *m = nullptr;
  std::map<int, int> to_sdd_var;    // psdd var -> sdd var
  std::map<int, int> from_sdd_var;  // sdd var -> psdd var
  ~SddCtx();
};
void make_sdd(const VTree &vt, Rng *rng, SddCtx *out);
// table over vars (psdd variable ids)
SddNode *sdd_of_table(SddCtx &c, const std::vector<int> &vars, const Table &f);
bool sdd_eval(SddNode *n, SddCtx &c, const Evid &full);

// ---------------------------------------------------------------- files
std::string write_tmp(Case &c, const std::string &name, const std::string &content);
std::string read_all(const std::string &path);

// live heap bytes as seen by the allocator in use
size_t live_bytes();
// this run gives freed memory back at once; otherwise: whether freed memory is seen as such
bool memory_reused();
bool released(const void *p);

inline LD NEG_INF() { return -std::numeric_limits<LD>::infinity(); }

std::string bits_str(const Table &t);

}  // namespace vh
#endif
