// Vtree constructions from a network.
#include "uai.h"
#include <psdd/hypergraph_decomposition_vtree.h>
#include <psdd/jointree_vtree.h>
#include <psdd/minfill_vtree.h>
#include <sys/stat.h>
extern "C" uint64_t vh_stub_seed;
extern "C" uint64_t vh_stub_calls;
using namespace vh;
namespace vh {
const char *const kProperty = "C21";
const char *const kRule =
    "random factor scopes (1-40, some 41-140, few 100-500 variables, connected, disconnected, chains, grids, stars, "
    "unscoped variables, empty and repeated scopes) with randomised orderings, tree "
    "decompositions and bipartitions from the stand-in libraries; the three constructions, "
    "short and very long working directories; non-trivial = a factor of three or more "
    "variables, distinct by network and construction";
int num_cases(bool t) { return t ? 300000 : 12000; }

static std::string props(Vtree *v) {
  long pos = 0;
  std::string bad;
  std::function<long(Vtree *)> go = [&](Vtree *x) -> long {
    long n = 1;
    if (!sdd_vtree_is_leaf(x)) {
      Vtree *l = sdd_vtree_left(x), *r = sdd_vtree_right(x);
      if (sdd_vtree_parent(l) != x || sdd_vtree_parent(r) != x) bad = "wrong parent";
      n = go(l);
      if (sdd_vtree_position(x) != pos++) bad = "wrong position";
      n += go(r);
    } else if (sdd_vtree_position(x) != pos++) {
      bad = "wrong position";
    }
    if (sdd_vtree_var_count(x) != n) bad = "wrong variable count";
    return n;
  };
  go(v);
  if (sdd_vtree_parent(v)) bad = "the root has a parent";
  if (bad.empty()) bad = vtree_clean(v);
  return bad;
}
static std::vector<std::vector<int>> random_scopes(Rng &r, int n) {
  std::vector<std::vector<int>> f;
  switch (r.below(5)) {
    case 0:  // chain
      for (int v = 1; v < n; ++v) f.push_back({v, v + 1});
      break;
    case 1: {  // grid
      int k = std::max(1, (int)std::sqrt((double)n));
      for (int v = 1; v <= n; ++v) {
        if (v % k && v + 1 <= n) f.push_back({v, v + 1});
        if (v + k <= n) f.push_back({v, v + k});
      }
      break;
    }
    case 2:  // star
      for (int v = 2; v <= n; ++v) f.push_back({1, v});
      break;
    default: {
      int m = r.range(0, 2 * n);
      int amax = std::min(n, r.chance(0.2) ? 8 : 4);
      for (int i = 0; i < m; ++i) {
        int k = r.range(1, amax);
        int base = r.chance(0.4) ? r.range(1, n) : 0;  // local scopes make components
        std::set<int> s;
        for (int t = 0; t < 40 && (int)s.size() < k; ++t)
          s.insert(base ? std::min(n, base + (int)r.below((uint64_t)k + 2)) : r.range(1, n));
        f.emplace_back(s.begin(), s.end());
      }
    }
  }
  if (r.chance(0.3)) {
    int extra = r.range(1, 3);
    for (int i = 0; i < extra; ++i) f.push_back({r.range(1, n)});
  }
  if (!f.empty() && r.chance(0.2)) f.push_back(r.pick(f));
  if (r.chance(0.05)) f.push_back({});
  for (auto &s : f) r.shuffle(s);
  r.shuffle(f);
  return f;
}
void run_case(Case &c) {
  Rng &r = c.rng;
  int n = r.range(1, r.chance(0.15) ? 40 : 10);
  if (c.index % 25 == 12) n = r.range(41, 140);
  if (c.index % 300 == 77) n = r.range(100, 500);
  FactorNet f;
  f.n = n;
  f.scope = random_scopes(r, n);
  std::set<int> scoped;
  std::vector<std::vector<size_t>> sc;
  std::vector<std::vector<PsddParameter>> par;
  std::string what = S(n, " variables, factors");
  bool three = false;
  for (auto &s : f.scope) {
    sc.emplace_back(s.begin(), s.end());
    par.emplace_back((size_t)1 << std::min<size_t>(s.size(), 8),
                     PsddParameter::CreateFromDecimal(0.5));
    what += " (";
    for (int v : s) {
      what += S(v, " ");
      scoped.insert(v);
    }
    what += ")";
    three = three || s.size() > 2;
  }
  c.sample(what.substr(0, 200));
  UaiNetwork net((size_t)n, sc.size(), 1, sc, par);
  int mode = (int)r.below(3);
  if (mode == 2 && scoped.empty()) mode = 0;
  vh_stub_seed = r.chance(0.1) ? 0 : r.u64() | 1;
  Vtree *v = nullptr;
  std::vector<int> want;
  uint64_t calls = vh_stub_calls;
  if (mode == 0) {
    v = MinFillVtree(&net).ConstructVtree();
    what = "minfill, " + what;
  } else if (mode == 1) {
    v = JointreeVtree(&net).ConstructVtree();
    what = "jointree, " + what;
  } else {
    std::string dir = c.scratch;
    if (r.chance(0.05)) {
      int k = r.range(1, 8);
      for (int i = 0; i < k; ++i) {
        dir += "/" + std::string((size_t)r.range(50, 200), 'd');
        mkdir(dir.c_str(), 0700);
      }
      c.count("long_directories");
    }
    v = HypergraphDecompositionVtree(&net, dir.c_str()).ConstructVtree();
    what = S("hypergraph, directory of ", dir.size(), " characters, ", what);
  }
  c.count(mode == 0 ? "minfill" : mode == 1 ? "jointree" : "hypergraph");
  c.count("library_calls", vh_stub_calls - calls);
  if (mode == 2)
    want.assign(scoped.begin(), scoped.end());
  else
    for (int i = 1; i <= n; ++i) want.push_back(i);
  c.check(v != nullptr, "null", what);
  std::string bad = props(v);
  c.check(bad.empty(), "properties", bad + "; " + vtree_str(v) + "; " + what);
  VTree own;
  own.finish(import_vtree(v, &own));
  std::vector<int> got = own.root->vars;
  std::sort(got.begin(), got.end());
  c.check(got == want, "variables", S("the vtree is ", vtree_str(v), "; ", what));
  for (VT *x : own.all()) {
    if (x->leaf()) continue;
    std::set<int> a(x->l->vars.begin(), x->l->vars.end()),
        b(x->r->vars.begin(), x->r->vars.end());
    c.check(suits(f, a, b), "splits-factor",
            S("a factor has several variables on the left and some on the right of ", vt_str(x),
              "; ", what));
    // inner nodes with two inner children separate independent parts
    if (a.size() > 1 && b.size() > 1)
      for (auto &s : f.scope) {
        bool l = false, q = false;
        for (int y : s) {
          l = l || a.count(y);
          q = q || b.count(y);
        }
        c.check(!(l && q), "not-independent", S("a factor spans ", vt_str(x), "; ", what));
      }
  }
  c.check(net.factor_scopes() == sc && net.var_size() == (size_t)n, "network-changed", what);
  sdd_vtree_free(v);
  if (three) c.nontrivial(mix(hash_str(what), vh_stub_seed));
}
}  // namespace vh
