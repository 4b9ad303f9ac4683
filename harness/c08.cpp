// Single-variable marginals.
#include "ops.h"
using namespace vh;
namespace vh {
const char *const kProperty = "C08";
const char *const kRule =
    "random normalised PSDDs (sampled, learned, multiplied, hand-built; with zeros; up to "
    "hundreds of variables): every variable's reported pair against enumeration or the "
    "reference probability of the two one-variable queries; non-trivial = decision root, "
    "distinct by structure and parameters";
int num_cases(bool t) { return t ? 80000 : 5000; }
static void huge_case(Case &c) {
  Huge h;
  make_huge(c, &h);
  auto got = psdd_node_util::GetMarginals(psdd_node_util::SerializePsddNodes(h.root));
  c.check(got.size() == (size_t)h.w.n(), "variables", S(got.size(), " marginals", h.what));
  for (int v : h.w.vars()) {
    auto it = got.find((uint32_t)v);
    c.check(it != got.end(), "variables", S("no marginal for ", v, h.what));
    if (!c.rng.chance(0.4)) continue;
    LD p = o_logp(h.sp.root, {{v, 1}}), q = o_logp(h.sp.root, {{v, 0}});
    c.check(close(it->second.second.parameter(), p, 1e-4), "true-marginal",
            S("variable ", v, ": log ", it->second.second.parameter(), ", expected ", (double)p,
              h.what));
    c.check(close(it->second.first.parameter(), q, 1e-4), "false-marginal",
            S("variable ", v, ": log ", it->second.first.parameter(), ", expected ", (double)q,
              h.what));
  }
  c.count("marginals", 2 * (uint64_t)h.w.n());
  huge_clean(c, h);
}
void run_case(Case &c) {
  Rng &r = c.rng;
  if (huge_index(c)) return huge_case(c);
  World w;
  bool big = c.index % 8 == 7;
  int n = big ? r.range(15, c.thorough ? 250 : 90) : r.range(1, 9);
  make_world(c, n, &w);
  Spec sp;
  int style = (int)r.below(7);
  any_spec(c, w, style, &sp);
  PsddNode *root = build(sp.root, w.m, any_flag(r), nullptr, &r);
  if (style < 6 && r.chance(0.2)) {
    Spec s2;
    any_spec(c, w, positive_style(r), &s2);
    auto p = w.m->Multiply(root, build(s2.root, w.m, 0), 0);
    if (p.first) root = p.first, c.count("products");
  } else if (r.chance(0.2)) {
    RandomDoubleFromGammaGenerator g(0.3 + r.real(), 1, (uint)r.u64());
    root = w.m->SampleParameters(&g, root, 1);
    c.count("sampled");
  }
  Import imp;
  std::string bad = audit(root, w, raw_opts(), &imp);
  c.check(bad.empty(), "audit", bad);
  const SNode *s = imp.spec.root;
  std::string what = ctx(w, imp.spec);
  c.sample(S("n=", n, what));
  auto ser = psdd_node_util::SerializePsddNodes(root);
  auto got = psdd_node_util::GetMarginals(ser);
  c.check(got.size() == (size_t)n, "variables",
          S(got.size(), " marginals for ", n, " variables", what));
  std::vector<LD> dense;
  LD total = 0;
  if (n <= 9) {
    dense = o_dense(s);
    total = NEG_INF();
    for (LD x : dense) total = lse(total, x);
  } else {
    total = o_logp(s, {});
  }
  double tol = 1e-6 * (n + 2);
  for (size_t j = 0; j < w.vars().size(); ++j) {
    int v = w.vars()[j];
    auto it = got.find((uint32_t)v);
    c.check(it != got.end(), "variables", S("no marginal for ", v, what));
    LD want[2];
    for (int b = 0; b < 2; ++b) {
      if (!dense.empty()) {
        want[b] = NEG_INF();
        for (uint64_t i = 0; i < dense.size(); ++i)
          if ((int)((i >> j) & 1) == b) want[b] = lse(want[b], dense[i]);
      } else {
        want[b] = o_logp(s, {{v, b}});
      }
      if (want[b] != NEG_INF()) want[b] -= total;
      LD g = b ? it->second.second.parameter() : it->second.first.parameter();
      c.check(close(g, want[b], tol), b ? "true-marginal" : "false-marginal",
              S("variable ", v, "=", b, ": log ", (double)g, ", expected ", (double)want[b],
                what));
    }
    c.count("marginals", 2);
  }
  bad = state_clean(imp);
  c.check(bad.empty(), "state", bad);
  if (s->kind == DEC) c.nontrivial(spec_hash(s));
}
}  // namespace vh
