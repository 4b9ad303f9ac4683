// Probability of evidence.
#include "ops.h"
using namespace vh;
namespace vh {
const char *const kProperty = "C01";
const char *const kRule =
    "random vtree (balanced/left/right/random, dense and sparse variable ids) x random "
    "normalised PSDD built through the manager x random evidence; reference = independent "
    "long-double evaluation of the built structure and, up to 12 variables, the full joint "
    "table; non-trivial = structure with at least one decision node, evidence that is "
    "neither empty nor contradicted everywhere; distinct by structure and evidence";
int num_cases(bool t) { return t ? 30000 : 2400; }

static void huge_case(Case &c) {
  Rng &r = c.rng;
  Huge h;
  make_huge(c, &h);
  auto ser = psdd_node_util::SerializePsddNodes(h.root);
  for (int k = 0; k < 10; ++k) {
    Evid e = support_assignment(r, h.sp.root);
    double drop = k < 3 ? 0 : r.real();
    for (int v : h.w.vars())
      if (r.chance(drop)) e.erase(v);
    Bits m, in;
    to_bits(e, &m, &in);
    LD got = psdd_node_util::Evaluate(m, in, ser).parameter(), want = o_logp(h.sp.root, e);
    c.check(close(got, want, 1e-4), "evaluate",
            S("Evaluate(", evid_str(e), ") = ", (double)got, ", reference ", (double)want, h.what));
  }
  c.count("evaluate_calls", 10);
  huge_clean(c, h);
}
void run_case(Case &c) {
  Rng &r = c.rng;
  if (huge_index(c)) return huge_case(c);
  bool big = c.index % 8 == 7;
  int n = big ? r.range(13, c.thorough ? 400 : 150) : r.range(1, c.index % 8 < 5 ? 7 : 10);
  World w;
  make_world(c, n, &w);
  Spec sp;
  int style = (int)r.below(7);
  if (big)
    big_spec(r, w.vt, style, r.range(1, 4), &sp);
  else
    random_spec(r, w.vt, style, &sp);
  // unrelated nodes in the same manager must not matter
  if (r.chance(0.3)) {
    Spec other;
    if (n <= 10) random_spec(r, w.vt, 0, &other);
    else big_spec(r, w.vt, 0, 2, &other);
    build(other.root, w.m, r.below(2));
  }
  PsddNode *root = build(sp.root, w.m, 0, nullptr, &r);
  auto ser = psdd_node_util::SerializePsddNodes(root);
  double tol = 1e-6 * (n + 1);
  c.sample(S("n=", n, " style=", style, " vtree=", vt_str(w.vt.root), " psdd=",
             spec_str(sp.root)));
  uint64_t sh = spec_hash(sp.root);

  auto query = [&](const Evid &e) -> LD {
    Bits mask, inst;
    to_bits(e, &mask, &inst);
    // values of variables outside the mask carry no meaning
    if (r.chance(0.5))
      for (int v : w.vars())
        if (!mask[(size_t)v] && r.chance(0.5)) inst.set((size_t)v);
    // neither do variables the distribution is not about
    if (r.chance(0.2)) {
      int x = r.range(0, 65535);
      if (std::find(w.vars().begin(), w.vars().end(), x) == w.vars().end()) {
        mask.set((size_t)x);
        inst[(size_t)x] = r.chance(0.5);
      }
    }
    LD got;
    if (r.chance(0.5))
      got = psdd_node_util::Evaluate(mask, inst, root).parameter();
    else
      got = psdd_node_util::Evaluate(mask, inst, ser).parameter();
    LD want = o_logp(sp.root, e);
    c.check(close(got, want, tol), "evaluate",
            S("Evaluate(", evid_str(e), ") = ", (double)got, ", reference ", (double)want,
              "; vtree ", vt_str(w.vt.root), " psdd ", spec_str(sp.root)));
    c.count("evaluate_calls");
    if (want == NEG_INF()) c.count("impossible_evidence");
    if (sp.root->kind == DEC && !e.empty() && want != NEG_INF())
      c.nontrivial(mix(sh, hash_str(evid_str(e))));
    return got;
  };

  LD one = query(Evid());
  c.check(close(one, 0, tol), "total", S("probability of no evidence is exp(", (double)one, ")"));
  if (n <= 10) {
    auto dense = o_dense(sp.root);
    LD total = NEG_INF();
    for (uint64_t i = 0; i < dense.size(); ++i) {
      Evid e = assignment(w.vars(), i);
      Bits mask, inst;
      to_bits(e, &mask, &inst);
      LD got = psdd_node_util::Evaluate(mask, inst, ser).parameter();
      c.check(close(got, dense[i], tol), "evaluate-complete",
              S("Evaluate(", evid_str(e), ") = ", (double)got, ", joint table ",
                (double)dense[i], "; vtree ", vt_str(w.vt.root), " psdd ",
                spec_str(sp.root)));
      total = lse(total, got);
    }
    c.count("complete_assignments", dense.size());
    c.check(close(total, 0, tol), "sum-to-one",
            S("complete assignments sum to exp(", (double)total, ")"));
    // partial evidence against the table, not against the structure
    for (int k = 0; k < 12; ++k) {
      Evid e = random_evid(r, w.vars(), r.real());
      LD want = NEG_INF();
      for (uint64_t i = 0; i < dense.size(); ++i) {
        bool ok = true;
        for (size_t j = 0; j < w.vars().size() && ok; ++j) {
          auto it = e.find(w.vars()[j]);
          ok = it == e.end() || it->second == (int)((i >> j) & 1);
        }
        if (ok) want = lse(want, dense[i]);
      }
      LD got = query(e);
      c.check(close(got, want, tol), "marginalise",
              S("P", evid_str(e), " = exp(", (double)got, "), joint table exp(",
                (double)want, ")"));
    }
  }
  // law of total probability
  for (int k = 0; k < (big ? 10 : 6); ++k) {
    Evid e = random_evid(r, w.vars(), r.real());
    std::vector<int> free;
    for (int v : w.vars())
      if (!e.count(v)) free.push_back(v);
    LD p = query(e);
    if (free.empty()) continue;
    int x = r.pick(free);
    Evid e0 = e, e1 = e;
    e0[x] = 0;
    e1[x] = 1;
    LD a = query(e0), b = query(e1);
    c.check(close(lse(a, b), p, tol), "total-probability",
            S("P", evid_str(e), " = exp(", (double)p, ") but splitting on ", x, " gives exp(",
              (double)lse(a, b), ")"));
  }
}
}  // namespace vh
