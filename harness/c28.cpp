// Node listings and size.
#include "ops.h"
using namespace vh;
namespace vh {
const char *const kProperty = "C28";
const char *const kRule =
    "random PSDDs and random sets of roots (equal, nested, of different depths, overlapping, "
    "from different flags): listings against an independent traversal: every reachable node "
    "exactly once, parents before children, root first, size; non-trivial = >= 2 roots or a "
    "shared node, distinct by structures";
int num_cases(bool t) { return t ? 100000 : 8000; }
static void reach(PsddNode *x, std::unordered_set<PsddNode *> *seen, bool *shared) {
  std::vector<PsddNode *> st{x};
  while (!st.empty()) {
    PsddNode *y = st.back();
    st.pop_back();
    if (!seen->insert(y).second) {
      *shared = true;
      continue;
    }
    if (auto *d = y->psdd_decision_node())
      for (size_t i = 0; i < d->primes().size(); ++i) {
        st.push_back(d->primes()[i]);
        st.push_back(d->subs()[i]);
      }
  }
}
static std::string order_ok(const std::vector<PsddNode *> &l,
                            const std::unordered_set<PsddNode *> &want) {
  std::unordered_map<PsddNode *, size_t> pos;
  for (size_t i = 0; i < l.size(); ++i) {
    if (!want.count(l[i])) return "lists a node that is not reachable";
    if (!pos.emplace(l[i], i).second) return "lists a node twice";
  }
  if (pos.size() != want.size())
    return S("lists ", pos.size(), " of ", want.size(), " reachable nodes");
  for (auto *x : l)
    if (auto *d = x->psdd_decision_node())
      for (size_t i = 0; i < d->primes().size(); ++i)
        if (pos[d->primes()[i]] < pos[x] || pos[d->subs()[i]] < pos[x])
          return "lists a child before its parent";
  return "";
}
static void huge_case(Case &c) {
  Huge h;
  make_huge(c, &h);
  std::unordered_set<PsddNode *> want;
  bool shared = false;
  reach(h.root, &want, &shared);
  auto l = psdd_node_util::SerializePsddNodes(h.root);
  std::string bad = order_ok(l, want);
  c.check(bad.empty() && l[0] == h.root, "listing", S(bad, h.what));
  uintmax_t size = 0;
  for (auto *y : want) {
    if (y->node_type() == DECISION_NODE_TYPE) size += y->psdd_decision_node()->primes().size() - 1;
    if (y->node_type() == TOP_NODE_TYPE) ++size;
  }
  c.check(psdd_node_util::GetPsddSize(h.root) == size, "size",
          S("size ", psdd_node_util::GetPsddSize(h.root), ", expected ", size, h.what));
  std::vector<PsddNode *> two{l.back(), h.root};
  bad = order_ok(psdd_node_util::SerializePsddNodes(two), want);
  c.check(bad.empty(), "listing-many", S(bad, h.what));
  auto cov = psdd_node_util::GetCoveredPsddNodes(two);
  c.check(cov.size() == want.size(), "covered",
          S(cov.size(), " covered nodes, expected ", want.size(), h.what));
  c.count("nodes", want.size());
  huge_clean(c, h);
}
void run_case(Case &c) {
  Rng &r = c.rng;
  if (huge_index(c)) return huge_case(c);
  World w;
  int n = c.index % 6 == 5 ? r.range(11, c.thorough ? 300 : 80) : r.range(1, 9);
  make_world(c, n, &w);
  std::vector<PsddNode *> pool;
  int k = r.range(1, 4);
  std::vector<std::unique_ptr<Spec>> specs;
  uint64_t h = 0;
  auto all = w.vt.all();
  for (int i = 0; i < k; ++i) {
    specs.emplace_back(new Spec);
    if (i && r.chance(0.4))
      specs.back()->root =
          gen_partition(r, specs.back().get(), r.pick(all), 2, (int)r.below(7), false)[0];
    else
      any_spec(c, w, (int)r.below(7), specs.back().get());
    Built b;
    pool.push_back(build(specs.back()->root, w.m, r.below(2), &b));
    h = mix(h, spec_hash(specs.back()->root));
    if (r.chance(0.5)) pool.push_back(b.of.at(r.pick(spec_nodes(specs.back()->root))));
  }
  std::string what = ctx(w, *specs[0]);
  c.sample(S("n=", n, " roots=", pool.size(), what).substr(0, 300));
  bool any_shared = false;
  for (auto *x : pool) {
    std::unordered_set<PsddNode *> want;
    bool shared = false;
    reach(x, &want, &shared);
    any_shared |= shared;
    auto l = psdd_node_util::SerializePsddNodes(x);
    std::string bad = order_ok(l, want);
    c.check(bad.empty(), "listing", S(bad, what));
    c.check(l[0] == x, "root-first", S("the root is not first", what));
    uintmax_t size = 0;
    for (auto *y : want) {
      if (y->node_type() == DECISION_NODE_TYPE) size += y->psdd_decision_node()->primes().size() - 1;
      if (y->node_type() == TOP_NODE_TYPE) ++size;
    }
    c.check(psdd_node_util::GetPsddSize(x) == size, "size",
            S("size ", psdd_node_util::GetPsddSize(x), ", expected ", size, what));
    c.count("nodes", want.size());
  }
  for (int round = 0; round < 3; ++round) {
    std::vector<PsddNode *> roots;
    for (int i = r.range(1, 6); i > 0; --i) roots.push_back(r.pick(pool));
    std::unordered_set<PsddNode *> want;
    bool shared = false;
    for (auto *x : roots) reach(x, &want, &shared);
    auto l = psdd_node_util::SerializePsddNodes(roots);
    std::string bad = order_ok(l, want);
    c.check(bad.empty(), "listing-many", S(bad, what));
    auto cov = psdd_node_util::GetCoveredPsddNodes(roots);
    c.check(cov.size() == want.size(), "covered",
            S(cov.size(), " covered nodes, expected ", want.size(), what));
    for (auto &p : cov)
      c.check(p.first == p.second->node_index() && want.count(p.second), "covered",
              S("a covered node is wrong", what));
    c.count("root_sets");
  }
  if (pool.size() > 1 || any_shared) c.nontrivial(h);
}
}  // namespace vh
