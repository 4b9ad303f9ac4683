// Most probable explanations.
#include "ops.h"
using namespace vh;
namespace vh {
const char *const kProperty = "C07";
const char *const kRule =
    "random PSDDs of all parameter styles (skewed, tied, near-one, tiny, with zeros; up to "
    "1800 variables) x both MPE entry points; the reported value against the maximum "
    "found by enumeration or an independent maximisation and against the value of the "
    "reported assignment; non-trivial = decision root, distinct by structure and parameters";
int num_cases(bool t) { return t ? 120000 : 9000; }
static void huge_case(Case &c) {
  Rng &r = c.rng;
  Huge h;
  make_huge(c, &h, (int)r.below(2));
  auto a = psdd_node_util::GetMPESolution(h.root);
  Evid e;
  for (int v : h.w.vars()) e[v] = a.first[(size_t)v];
  LD best = o_mpe(h.sp.root), v = o_logp(h.sp.root, e);
  c.check(close(a.second.parameter(), best, 1e-4), "value",
          S("reported ", a.second.parameter(), ", maximum ", (double)best, h.what));
  c.check(close(v, best, 1e-4), "assignment",
          S("reported assignment has log probability ", (double)v, ", maximum ", (double)best,
            h.what));
  c.count("mpe");
  huge_clean(c, h);
}
void run_case(Case &c) {
  Rng &r = c.rng;
  if (huge_index(c)) return huge_case(c);
  World w;
  bool big = c.index % 8 == 7;
  int n = big ? r.range(15, c.thorough ? 400 : 150) : r.range(1, 9);
  if (c.index % 400 == 123) n = r.range(900, 1800);  // maxima below the range of double
  make_world(c, n, &w);
  Spec sp;
  any_spec(c, w, (int)r.below(7), &sp);
  PsddNode *root = build(sp.root, w.m, any_flag(r), nullptr, &r);
  if (r.chance(0.15)) {  // a product
    Spec s2;
    any_spec(c, w, 0, &s2);
    auto p = w.m->Multiply(root, build(s2.root, w.m, 0), 0);
    if (p.first) {
      root = p.first;
      c.count("products");
    }
  }
  Import imp;
  std::string bad = audit(root, w, raw_opts(), &imp);
  c.check(bad.empty(), "audit", bad);
  const SNode *s = imp.spec.root;
  std::string what = ctx(w, imp.spec);
  c.sample(S("n=", n, what));
  LD best = o_mpe(s);
  if (n <= 9) {
    LD m = NEG_INF();
    for (LD x : o_dense(s)) m = std::max(m, x);
    c.check(close(m, best, 1e-9), "oracle", "the two references disagree");
  }
  double tol = 1e-6 * (n + 1);
  auto ser = psdd_node_util::SerializePsddNodes(root);
  for (int k = 0; k < 2; ++k) {
    auto a = k ? psdd_node_util::GetMPESolution(ser) : psdd_node_util::GetMPESolution(root);
    Evid e;
    for (int v : w.vars()) e[v] = a.first[(size_t)v];
    Bits m, in;
    to_bits(e, &m, &in);
    c.check((a.first & ~m).none(), "foreign-variables",
            S("assignment sets variables outside the PSDD", what));
    c.check(close(a.second.parameter(), best, tol), "value",
            S("reported ", a.second.parameter(), ", maximum ", (double)best, what));
    LD v = o_logp(s, e);
    c.check(close(v, best, tol), "assignment",
            S("reported assignment ", evid_str(e), " has log probability ", (double)v,
              ", maximum ", (double)best, what));
    LD ev = psdd_node_util::Evaluate(m, in, ser).parameter();
    c.check(close(ev, a.second.parameter(), tol), "evaluate",
            S("reported ", a.second.parameter(), " but the assignment evaluates to ",
              (double)ev, what));
    bad = state_clean(imp);
    c.check(bad.empty(), "state", bad);
  }
  if (best == NEG_INF()) c.count("impossible");
  c.count("mpe", 2);
  if (s->kind == DEC) c.nontrivial(spec_hash(s));
}
}  // namespace vh
