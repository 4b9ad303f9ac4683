// PSDD -> SDD keeps exactly the support.
#include "ops.h"
using namespace vh;
namespace vh {
const char *const kProperty = "C04";
const char *const kRule =
    "random PSDD (also with zero parameters) converted into an SDD manager over the same or an "
    "unrelated vtree under a random variable renaming, compared on every complete assignment "
    "and by model count, then converted back; a tenth with 12-120 variables on sampled assignments; non-trivial = support neither empty nor full; "
    "distinct by structure";
int num_cases(bool t) { return t ? 30000 : 2500; }
// many variables: sampled assignments and the exact number of models
static void large_case(Case &c) {
  Rng &r = c.rng;
  World w;
  int n = c.index % 20 == 3 ? r.range(40, 120) : r.range(12, 40);
  make_world(c, n, &w);
  Spec sp;
  random_spec(r, w.vt, (int)r.below(7), &sp);
  PsddNode *root = build(sp.root, w.m, any_flag(r), nullptr, &r);
  auto ser = psdd_node_util::SerializePsddNodes(root);
  c.sample(S("n=", n, ctx(w, sp)));
  VTree tv;
  std::function<VT *(const VT *)> cp = [&](const VT *v) {
    return v->leaf() ? tv.new_leaf(v->var) : tv.new_node(cp(v->l), cp(v->r));
  };
  tv.finish(cp(w.vt.root));
  SddCtx s;
  make_sdd(tv, &r, &s);
  std::unordered_map<SddLiteral, SddLiteral> vm;
  for (auto &p : s.to_sdd_var) vm[p.first] = p.second;
  SddNode *f = psdd_node_util::ConvertPsddNodeToSddNode(ser, vm, s.m);
  c.check(f != nullptr, "null", "no SDD returned");
  for (int i = 0; i < 150; ++i) {
    Evid e = i % 3 ? support_assignment(r, sp.root) : assignment(w.vars(), 0);
    if (i % 3 == 0)
      for (int v : w.vars()) e[v] = (int)r.below(2);
    if (i % 3 == 2)
      for (int k = r.range(1, 3); k > 0; --k) e[r.pick(w.vars())] ^= 1;
    bool want = o_consistent(sp.root, e);
    c.check(sdd_eval(f, s, e) == want, "models",
            S("assignment ", evid_str(e), " is ", want ? "lost" : "gained", ctx(w, sp)));
  }
  if (n <= 60) {
    mpz_class want = o_count(sp.root), got((unsigned long)sdd_global_model_count(f, s.m));
    c.check(want == got, "count",
            S(got.get_str(), " models, expected ", want.get_str(), ctx(w, sp)));
  }
  PsddNode *back = w.m->ConvertSddToPsdd(f, sdd_manager_vtree(s.m), any_flag(r));
  Import bi;
  std::string bad = audit(back, w, raw_opts(), &bi);
  c.check(bad.empty(), "audit-back", bad);
  c.check(o_count(bi.spec.root) == o_count(sp.root), "round-trip-count",
          "model count changes" + ctx(w, sp));
  c.count("large");
  c.nontrivial(spec_hash(sp.root));
}
void run_case(Case &c) {
  Rng &r = c.rng;
  if (c.index % 10 == 3) return large_case(c);
  World w;
  int n = c.index % 10 == 0 ? r.range(9, 11) : r.range(1, 8);
  make_world(c, n, &w);
  Spec sp;
  random_spec(r, w.vt, (int)r.below(7), &sp);
  PsddNode *root = build(sp.root, w.m, any_flag(r), nullptr, &r);
  auto ser = psdd_node_util::SerializePsddNodes(root);
  c.sample(S("n=", n, ctx(w, sp)));
  bool same = r.chance(0.5);
  VTree tv;
  if (same) {
    std::function<VT *(const VT *)> cp = [&](const VT *v) {
      return v->leaf() ? tv.new_leaf(v->var) : tv.new_node(cp(v->l), cp(v->r));
    };
    tv.finish(cp(w.vt.root));
  } else {
    std::vector<int> o = w.vars();
    r.shuffle(o);
    random_vtree(r, o, (int)r.below(4), &tv);
  }
  SddCtx s;
  make_sdd(tv, &r, &s);
  std::unordered_map<SddLiteral, SddLiteral> vm;
  for (auto &p : s.to_sdd_var) vm[p.first] = p.second;
  SddNode *f = psdd_node_util::ConvertPsddNodeToSddNode(ser, vm, s.m);
  c.check(f != nullptr, "null", "no SDD returned");
  Table t((size_t)1 << n);
  bool all = true;
  for (uint64_t i = 0; i < t.size(); ++i) {
    Evid e = assignment(w.vars(), i);
    t[i] = o_consistent(sp.root, e);
    all = all && t[i];
    c.check(sdd_eval(f, s, e) == (t[i] != 0), "models",
            S("assignment ", evid_str(e), " is ", t[i] ? "lost" : "gained", ctx(w, sp)));
  }
  c.count("assignments", t.size());
  // a canonical form: the very same node as the function compiled directly
  c.check(f == sdd_of_table(s, w.vars(), t), "canonical", "not the SDD of the support" + ctx(w, sp));
  Import imp;
  AuditOpts o = raw_opts();
  std::string bad = audit(root, w, o, &imp);
  c.check(bad.empty(), "audit", bad);
  bad = state_clean(imp);
  c.check(bad.empty(), "state", bad);
  if (same) {
    PsddNode *back = w.m->ConvertSddToPsdd(f, sdd_manager_vtree(s.m), 7);
    Import bi;
    bad = audit(back, w, o, &bi);
    c.check(bad.empty(), "audit-back", bad);
    auto d = o_dense(bi.spec.root);
    for (uint64_t i = 0; i < t.size(); ++i)
      c.check((d[i] != NEG_INF()) == (t[i] != 0), "round-trip",
              S("round trip changes ", evid_str(assignment(w.vars(), i)), ctx(w, sp)));
    c.check(psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(back)) ==
                psdd_node_util::ModelCount(ser),
            "round-trip-count", "model count changes" + ctx(w, sp));
    c.count("round_trips");
  }
  if (!all) c.nontrivial(spec_hash(sp.root));
}
}  // namespace vh
