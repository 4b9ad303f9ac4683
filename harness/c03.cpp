// SDD -> PSDD keeps exactly the models.
#include "ops.h"
using namespace vh;
namespace vh {
const char *const kProperty = "C03";
const char *const kRule =
    "random Boolean functions (CNFs, cardinality, parity, few/nearly all models, constants) "
    "over a random vtree, as an SDD with its own variable numbering, converted for the whole "
    "vtree or for a sub-vtree given by node or by its variables; every complete assignment is "
    "compared; non-trivial = neither true nor false; distinct by function and vtree";
int num_cases(bool t) { return t ? 40000 : 3000; }
void run_case(Case &c) {
  Rng &r = c.rng;
  World w;
  int n = c.index % 10 == 0 ? r.range(9, 11) : r.range(1, 8);
  make_world(c, n, &w);
  // target: the whole vtree or a sub-vtree
  const VT *target = w.vt.root;
  bool sub = r.chance(0.5);
  if (sub) {
    std::vector<const VT *> all;
    for (VT *v : w.vt.all()) all.push_back(v);
    target = r.pick(all);
  }
  VTree tv;
  std::function<VT *(const VT *)> cp = [&](const VT *v) {
    return v->leaf() ? tv.new_leaf(v->var) : tv.new_node(cp(v->l), cp(v->r));
  };
  tv.finish(cp(target));
  SddCtx s;
  make_sdd(tv, &r, &s);
  const std::vector<int> &vars = target->vars;
  int k = (int)vars.size();
  int rounds = r.range(1, 3);
  for (int round = 0; round < rounds; ++round) {
    Table t;
    uint64_t what = r.below(12);
    if (what == 0)
      t.assign((size_t)1 << k, 0);
    else if (what == 1)
      t.assign((size_t)1 << k, 1);
    else
      t = random_table(r, k);
    bool any = false, all = true;
    for (auto x : t) {
      any = any || x;
      all = all && x;
    }
    SddNode *f = sdd_of_table(s, vars, t);
    uintmax_t flag = any_flag(r);
    Vtree *sv = sdd_manager_vtree(s.m);
    PsddNode *p;
    const char *how;
    if (!sub && r.chance(0.5)) {
      how = "ConvertSddToPsdd";
      p = w.m->ConvertSddToPsdd(f, sv, flag);
    } else if (r.chance(0.5)) {
      how = "FromSdd(vtree)";
      p = w.m->FromSdd(f, sv, flag, w.back.at(target));
    } else {
      how = "FromSdd(variables)";
      std::unordered_set<SddLiteral> u(vars.begin(), vars.end());
      p = w.m->FromSdd(f, sv, flag, u);
    }
    c.count(how);
    std::string where = S(how, " of table ", bits_str(t), " over ", vt_str(target), " in ",
                          vt_str(w.vt.root));
    c.sample(where);
    std::string vc = vtree_clean(sv);
    c.check(vc.empty(), "sdd-vtree-state", S(where, ": ", vc));
    vc = vtree_clean(w.m->vtree());
    c.check(vc.empty(), "vtree-state", S(where, ": ", vc));
    if (!any) {
      c.check(p == nullptr, "false", where + ": an unsatisfiable function has a PSDD");
      continue;
    }
    c.check(p != nullptr, "null", where + ": a satisfiable function has no PSDD");
    AuditOpts o;
    o.normalised = false;
    o.flag = flag;
    Import imp;
    std::string bad = audit(p, w, o, &imp);
    c.check(bad.empty(), "audit", where + ": " + bad);
    c.check(imp.spec.root->vt == target, "root", where + ": not normalised for the target");
    auto dense = o_dense(imp.spec.root);
    auto ser = psdd_node_util::SerializePsddNodes(p);
    mpz_class cnt = 0;
    for (uint64_t i = 0; i < t.size(); ++i) {
      bool model = dense[i] != NEG_INF();
      c.check(model == (t[i] != 0), "models",
              S(where, ": assignment ", evid_str(assignment(vars, i)), " is ",
                model ? "a model of the PSDD only" : "lost"));
      cnt += t[i];
      if (k <= 6 || i % 13 == 0) {
        Bits m, in;
        to_bits(assignment(vars, i), &m, &in);
        c.check(psdd_node_util::IsConsistent(ser, m, in) == (t[i] != 0), "consistent",
                S(where, ": consistency of ", evid_str(assignment(vars, i))));
      }
    }
    c.check(psdd_node_util::ModelCount(ser) == cnt, "count", where + ": model count");
    c.count("assignments", t.size());
    if (!all) c.nontrivial(mix(hash_str(bits_str(t)), hash_str(vt_str(target))));
  }
}
}  // namespace vh
