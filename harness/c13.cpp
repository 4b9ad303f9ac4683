// Loading into another manager and lifting to a larger vtree.
#include "ops.h"
using namespace vh;
namespace vh {
const char *const kProperty = "C13";
const char *const kRule =
    "random PSDDs over a target vtree, or over its projection onto a random subset of the "
    "variables, loaded into managers of the target vtree (root or a covering sub-vtree), and "
    "nodes lifted to ancestors; every complete assignment keeps its weight and unmentioned "
    "variables are free; non-trivial = decision root, distinct by structure and target";
int num_cases(bool t) { return t ? 60000 : 5000; }

static void huge_case(Case &c) {
  Rng &r = c.rng;
  Huge h;
  make_huge(c, &h);
  World other;
  same_world(c, h.w, &other);
  PsddNode *x = other.m->LoadPsddNode(other.m->vtree(), h.root, 3);
  Import got;
  AuditOpts o;
  o.flag = 3;
  o.tol = 1e-4;
  std::string bad = audit(x, other, o, &got);
  c.check(bad.empty(), "audit", S(bad, h.what));
  c.check(spec_reach(got.spec.root) == spec_reach(h.sp.root), "structure",
          S("other number of nodes", h.what));
  std::string d = diff_dist(r, got.spec.root, h.sp.root, h.w.vars(), 1e-6, 8);
  c.check(d.empty(), "distribution", S(d, h.what));
  huge_clean(c, h);
}
void run_case(Case &c) {
  Rng &r = c.rng;
  if (huge_index(c)) return huge_case(c);
  World big;
  bool large = c.index % 8 == 7;
  int n = large ? r.range(11, c.thorough ? 150 : 60) : r.range(1, 9);
  make_world(c, n, &big);
  auto all = big.vt.all();
  if (r.chance(0.3)) {
    // lifting inside one manager
    const VT *v = r.pick(all), *top = v;
    while (top->up && r.chance(0.7)) top = top->up;
    Spec sp;
    sp.root = gen_partition(r, &sp, v, r.range(1, 3), (int)r.below(7), false)[0];
    uintmax_t flag = any_flag(r);
    PsddNode *x = build(sp.root, big.m, flag, nullptr, &r);
    Import imp;
    std::string bad = audit(x, big, raw_opts(), &imp);
    c.check(bad.empty(), "audit", bad);
    PsddNode *y = big.m->NormalizePsddNode(big.back.at(top), x, flag);
    AuditOpts o = raw_opts();
    o.check_flag = true;
    o.flag = flag;
    Import res;
    bad = audit(y, big, o, &res);
    std::string what = S("; from ", vt_str(v), " to ", vt_str(top), ctx(big, sp));
    c.check(bad.empty(), "audit-lifted", S(bad, what));
    c.check(res.spec.root->vt == top, "root", S("not over the target", what));
    c.check(res.of.count(x) == 1, "shared", S("the lifted node is not part of the result", what));
    c.check(y == big.m->NormalizePsddNode(big.back.at(top), x, flag), "repeat",
            S("lifting twice gives different nodes", what));
    if (v == top) c.check(x == y, "identity", S("lifting to its own vtree changed it", what));
    for (int q = 0; q < 30; ++q) {
      Evid e = some_assignment(r, res.spec.root, top->vars), sub;
      for (int u : v->vars) sub[u] = e[u];
      LD a = o_logp(res.spec.root, e), b = o_logp(sp.root, sub);
      c.check(close(a, b, 1e-6 * (n + 2)), "lifted-weight",
              S("at ", evid_str(e), " log weight ", (double)a, ", expected ", (double)b, what));
    }
    c.check(o_count(res.spec.root) ==
                o_count(sp.root) * (mpz_class(1) << (top->vars.size() - v->vars.size())),
            "lifted-support", S("model count", what));
    c.count("lifts");
    if (res.spec.root->kind == DEC && v != top) c.nontrivial(mix(spec_hash(res.spec.root), 3));
    return;
  }
  // choose the source variables
  std::vector<int> keep;
  bool full = r.chance(0.3);
  const VT *area = r.chance(0.5) ? big.vt.root : (const VT *)r.pick(all);
  double dens = 0.2 + 0.8 * r.real();
  for (int v : big.vars()) {
    bool inside = std::find(area->vars.begin(), area->vars.end(), v) != area->vars.end();
    if (full || (inside && r.chance(dens))) keep.push_back(v);
  }
  if (keep.empty()) keep.push_back(r.pick(area->vars));
  std::set<int> in(keep.begin(), keep.end());
  // source vtree: the projection, computed independently
  World src;
  std::function<VT *(const VT *)> proj = [&](const VT *v) -> VT * {
    if (v->leaf()) return in.count(v->var) ? src.vt.new_leaf(v->var) : nullptr;
    VT *a = proj(v->l), *b = proj(v->r);
    return a && b ? src.vt.new_node(a, b) : a ? a : b;
  };
  src.vt.finish(proj(big.vt.root));
  if (r.chance(0.5)) {
    // through the library's projection
    std::vector<SddLiteral> k(keep.begin(), keep.end());
    r.shuffle(k);
    Vtree *p = vtree_util::ProjectVtree(big.m->vtree(), k);
    src.m = PsddManager::GetPsddManagerFromVtree(p);
    sdd_vtree_free(p);
    c.check(map_vtree(src.vt.root, src.m->vtree(), &src.vm, &src.back), "projection",
            S("projection of ", vt_str(big.vt.root), " is ", vtree_str(src.m->vtree()),
              ", expected ", vt_str(src.vt.root)));
    c.count("library_projections");
  } else {
    manager_for(c, src.vt, &src);
  }
  Spec sp;
  int style = (int)r.below(7);
  any_spec(c, src, style, &sp);
  PsddNode *x = build(sp.root, src.m, any_flag(r), nullptr, &r);
  bool normal = true;
  if (src.n() <= 8 && r.chance(0.25)) {
    SddCtx sc;
    make_sdd(src.vt, &r, &sc);
    Table t = random_table(r, src.n());
    t[r.below(t.size())] = 1;
    x = src.m->ConvertSddToPsdd(sdd_of_table(sc, src.vars(), t), sdd_manager_vtree(sc.m), 0);
    normal = false;
  }
  Import imp;
  std::string bad = audit(x, src, raw_opts(), &imp);
  c.check(bad.empty(), "audit", bad);
  const SNode *s = imp.spec.root;
  // the smallest covering node and its ancestors are valid targets
  const VT *lca = nullptr;
  for (const VT *v : all) {
    bool covers = true;
    std::set<int> here(v->vars.begin(), v->vars.end());
    for (int k : keep) covers = covers && here.count(k);
    if (covers && (!lca || v->vars.size() < lca->vars.size())) lca = v;
  }
  const VT *target = big.vt.root;
  if (r.chance(0.4)) {
    target = lca;
    while (target->up && r.chance(0.5)) target = target->up;
  }
  uintmax_t flag = any_flag(r);
  std::string what = S("; into ", vt_str(target), " of ", vt_str(big.vt.root), ctx(src, imp.spec));
  c.sample(what.substr(0, 400));
  // something unrelated already lives in the target
  if (r.chance(0.5)) {
    Spec o;
    any_spec(c, big, 0, &o);
    build(o.root, big.m, any_flag(r));
  }
  PsddNode *y = big.m->LoadPsddNode(big.back.at(target), x, flag);
  AuditOpts o = raw_opts();
  o.check_flag = true;
  o.flag = flag;
  o.normalised = full && normal;
  o.tol = 2e-6;
  Import res;
  bad = audit(y, big, o, &res);
  c.check(bad.empty(), "audit-loaded", S(bad, what));
  c.check(res.spec.root->vt == target, "root", S("not over the target", what));
  bad = state_clean(imp);
  c.check(bad.empty(), "state", bad);
  Import again;
  bad = audit(x, src, raw_opts(), &again);
  c.check(bad.empty() && spec_hash(again.spec.root) == spec_hash(s), "source",
          S("the source changed", what));
  c.check(y == big.m->LoadPsddNode(big.back.at(target), x, flag), "repeat",
          S("loading twice gives different nodes", what));
  double tol = 1e-6 * (n + 2);
  const auto &tv = target->vars;
  auto one = [&](const Evid &e) {
    Evid sub;
    for (int k : keep) sub[k] = e.at(k);
    LD a = o_logp(res.spec.root, e), b = o_logp(s, sub);
    c.check(close(a, b, tol), "weight",
            S("at ", evid_str(e), " log weight ", (double)a, ", expected ", (double)b, what));
  };
  if (tv.size() <= 6) {
    for (uint64_t i = 0; i < (1ull << tv.size()); ++i) one(assignment(tv, i));
  } else {
    for (int q = 0; q < 40; ++q) one(some_assignment(r, res.spec.root, tv));
    for (int q = 0; q < 20; ++q) {
      Evid e = support_assignment(r, s);
      for (int v : tv)
        if (!e.count(v)) e[v] = (int)r.below(2);
      one(e);
    }
  }
  c.check(o_count(res.spec.root) == o_count(s) * (mpz_class(1) << (tv.size() - keep.size())),
          "support", S("model count", what));
  c.count(full ? "full_loads" : "extended_loads");
  if (s->kind == DEC) c.nontrivial(mix(spec_hash(s), hash_str(vt_str(target))));
}
}  // namespace vh
