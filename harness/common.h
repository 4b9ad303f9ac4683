// Set-up shared by the harnesses: a random vtree with a manager over it.
#ifndef VH_COMMON_H
#define VH_COMMON_H
#include "vh.h"
#include <algorithm>
#include <functional>
#include <psdd/cnf.h>
#include <unistd.h>

namespace vh {
struct World {
  VTree vt;
  PsddManager *m = nullptr;
  std::unordered_map<Vtree *, const VT *> vm;
  std::unordered_map<const VT *, Vtree *> back;
  World() {}
  World(const World &) = delete;
  ~World() { delete m; }
  const std::vector<int> &vars() const { return vt.root->vars; }
  int n() const { return (int)vt.root->vars.size(); }
};
// A second manager over the same vtree.
inline void manager_for(Case &c, const VTree &vt, World *w) {
  (void)vt;
  if (c.rng.chance(0.25)) {
    // through an SDD vtree with its own variable numbering
    std::map<int, int> to;
    std::unordered_map<uint32_t, uint32_t> from;
    std::vector<int> ids;
    for (size_t i = 1; i <= w->vt.root->vars.size(); ++i) ids.push_back((int)i);
    c.rng.shuffle(ids);
    for (size_t i = 0; i < ids.size(); ++i) {
      to[w->vt.root->vars[i]] = ids[i];
      from[(uint32_t)ids[i]] = (uint32_t)w->vt.root->vars[i];
    }
    Vtree *v = to_sdd_mapped(w->vt.root, to);
    w->m = PsddManager::GetPsddManagerFromSddVtree(v, from);
    sdd_vtree_free(v);
  } else {
    Vtree *v = to_sdd(w->vt.root);
    w->m = PsddManager::GetPsddManagerFromVtree(v);
    sdd_vtree_free(v);
  }
  w->vm.clear();
  w->back.clear();
  c.check(map_vtree(w->vt.root, w->m->vtree(), &w->vm, &w->back), "manager-vtree",
          S("the manager's vtree ", vtree_str(w->m->vtree()), " is not the requested ",
            vt_str(w->vt.root)));
}
// A vtree with a node whose left child covers nine variables, which PSDDs from
// gen_partition split into hundreds of elements.
inline void fat_vtree(Rng &r, const std::vector<int> &vars, VTree *out, size_t fat_vars = 9) {
  size_t k = std::min(vars.size() - 1, fat_vars);
  size_t at = r.below(vars.size() - k);
  auto join = [&](std::vector<VT *> cur) {
    while (fat_vars > 9 && cur.size() > 4) {  // keep the number of inner terms moderate
      std::vector<VT *> half;
      for (size_t i = 0; i < cur.size(); i += 2)
        half.push_back(i + 1 < cur.size() ? out->new_node(cur[i], cur[i + 1]) : cur[i]);
      cur = half;
    }
    while (cur.size() > 1) {
      size_t i = fat_vars > 9 ? (cur.size() > 2 ? cur.size() - 2 : 0) : r.below(cur.size() - 1);
      cur[i] = out->new_node(cur[i], cur[i + 1]);
      cur.erase(cur.begin() + (long)i + 1);
    }
    return cur[0];
  };
  std::vector<VT *> cur, fat;
  for (size_t i = 0; i < vars.size(); ++i) {
    VT *leaf = out->new_leaf(vars[i]);
    if (i >= at && i < at + k) {
      fat.push_back(leaf);
      continue;
    }
    if (i == at + k) {
      VT *f = join(fat);
      f->fat = true;
      leaf = out->new_node(f, leaf);
    }
    cur.push_back(leaf);
  }
  out->finish(join(cur));
}
inline uintmax_t any_flag(Rng &r);
// Ways to obtain a PSDD from a manager; the same recipe always means the same PSDD.
struct Recipe {
  int kind;
  uint64_t seed;
  uintmax_t flag;
};
inline Recipe any_recipe(Rng &r) {
  return {(int)r.below(10), r.u64(), any_flag(r)};
}
inline void some_spec(Rng &r, const VTree &vt, int style, Spec *sp) {
  if (vt.root->vars.size() <= 10)
    random_spec(r, vt, style, sp);
  else
    big_spec(r, vt, style, 2, sp);
}
// nullptr: the recipe gives the empty (false) PSDD.
inline PsddNode *produce(Case &c, World &w, const Recipe &k, const char **name) {
  Rng r(k.seed);
  std::vector<Vtree *> vs = vtree_util::SerializeVtree(w.m->vtree());
  Spec a, b;
  switch (k.kind) {
    case 0:
      *name = "true node";
      return w.m->GetTrueNode(r.chance(0.6) ? w.m->vtree() : r.pick(vs), k.flag);
    case 1:
      *name = "construction";
      some_spec(r, w.vt, (int)r.below(7), &a);
      return build(a.root, w.m, k.flag);
    case 2: {
      *name = "product";
      some_spec(r, w.vt, (int)r.below(6), &a);
      some_spec(r, w.vt, (int)r.below(6), &b);
      return w.m->Multiply(build(a.root, w.m, 0), build(b.root, w.m, k.flag), k.flag).first;
    }
    case 3: {
      *name = "sampled parameters";
      some_spec(r, w.vt, (int)r.below(6), &a);
      RandomDoubleFromUniformGenerator g(0.1, 1, (uint)r.u64());
      return w.m->SampleParameters(&g, build(a.root, w.m, 0), k.flag);
    }
    case 4: {
      *name = "learning";
      some_spec(r, w.vt, (int)r.below(6), &a);
      size_t N = r.below(12);
      std::unordered_map<int32_t, BatchedPsddValue> ex;
      for (int v : w.vars()) {
        ex[v] = BatchedPsddValue(N, false);
        for (size_t i = 0; i < N; ++i) ex[v][i] = r.chance(0.5);
      }
      return w.m->LearnPsddParameters(build(a.root, w.m, 0), ex, N,
                                      PsddParameter::CreateFromDecimal(0.5), k.flag);
    }
    case 5: {
      *name = "conversion";
      if (w.n() > 8) return nullptr;
      const VT *at = r.chance(0.6) ? w.vt.root : r.pick(w.vt.all());
      VTree tv;
      std::function<VT *(const VT *)> cp = [&](const VT *v) {
        return v->leaf() ? tv.new_leaf(v->var) : tv.new_node(cp(v->l), cp(v->r));
      };
      tv.finish(cp(at));
      SddCtx s;
      make_sdd(tv, &r, &s);
      SddNode *f = sdd_of_table(s, at->vars, random_table(r, (int)at->vars.size()));
      if (at == w.vt.root) return w.m->ConvertSddToPsdd(f, sdd_manager_vtree(s.m), k.flag);
      return w.m->FromSdd(f, sdd_manager_vtree(s.m), k.flag, w.back.at(at));
    }
    case 6: {
      *name = "file";
      some_spec(r, w.vt, (int)r.below(6), &a);
      std::string f = c.scratch + "/produce.psdd";
      psdd_node_util::WritePsddToFile(build(a.root, w.m, 0), f.c_str());
      PsddNode *x = w.m->ReadPsddFile(f.c_str(), k.flag);
      unlink(f.c_str());
      return x;
    }
    case 7: {
      *name = "lifting";
      const VT *at = r.pick(w.vt.all());
      SNode *x = gen_partition(r, &a, at, 2, (int)r.below(6), false)[0];
      return w.m->NormalizePsddNode(w.m->vtree(), build(x, w.m, k.flag), k.flag);
    }
    case 8: {
      *name = "loading";
      some_spec(r, w.vt, (int)r.below(7), &a);
      Vtree *v = to_sdd(w.vt.root);
      std::unique_ptr<PsddManager> m(PsddManager::GetPsddManagerFromVtree(v));
      sdd_vtree_free(v);
      return w.m->LoadPsddNode(w.m->vtree(), build(a.root, m.get(), 1), k.flag);
    }
    default: {
      *name = "clauses";
      std::vector<std::vector<SddLiteral>> cl((size_t)r.range(0, 4));
      for (auto &x : cl)
        for (int i = r.range(1, 3); i; --i)
          x.push_back(r.chance(0.5) ? r.pick(w.vars()) : -r.pick(w.vars()));
      return CNF(cl).Compile(w.m, k.flag);
    }
  }
}
// Leave the manager in a state that earlier work may have left it in.
inline void stir(Case &c, World *w) {
  Rng &r = c.rng;
  std::vector<PsddNode *> held;
  const char *name;
  for (int k = r.range(1, 8); k > 0; --k) {
    if (r.chance(0.25)) {
      std::vector<PsddNode *> keep;
      double p = r.chance(0.5) ? 0 : r.real();
      for (auto *x : held)
        if (r.chance(p)) keep.push_back(x);
      w->m->DeleteUnusedPsddNodes(keep);
      held = keep;
    } else if (PsddNode *x = produce(c, *w, any_recipe(r), &name)) {
      held.push_back(x);
    }
  }
  if (r.chance(0.4)) w->m->DeleteUnusedPsddNodes({});
  c.count("managers_with_a_past");
}
// Create nodes until their numbers pass 65536, so that new nodes and old ones still in use agree
// in the lower 16 bits.
inline void age(Case &c, World *w) {
  Rng &r = c.rng;
  std::vector<PsddNode *> held;
  const char *name;
  uintmax_t last = 0;
  for (int v : w->vars())
    for (int s : {v, -v}) {
      PsddNode *x = w->m->GetPsddLiteralNode(s, 0);
      held.push_back(x);
      last = std::max(last, x->node_index());
    }
  for (int k = r.range(0, 4); k > 0; --k)
    if (PsddNode *x = produce(c, *w, any_recipe(r), &name)) held.push_back(x);
  uintmax_t stop = 65535 - r.below(3);
  for (int i = 1; last < stop && i < 70000; ++i)
    last = std::max(last, w->m->GetPsddTopNode((uint32_t)w->vars()[i % w->vars().size()], 0,
                                               PsddParameter::CreateFromDecimal(i * 1.4e-5),
                                               PsddParameter::CreateFromDecimal(1 - i * 1.4e-5))
                              ->node_index());
  if (r.chance(0.8)) w->m->DeleteUnusedPsddNodes(held);
  c.count("managers_past_65536_nodes");
}
inline void make_world(Case &c, int n, World *w, int kind = -1, int shape = -1) {
  if (kind < 0) kind = (int)c.rng.below(3);
  if (shape < 0 && n >= 12 && c.rng.chance(0.05)) {
    fat_vtree(c.rng, random_vars(c.rng, n, kind), &w->vt);
    manager_for(c, w->vt, w);
    c.count("worlds_with_wide_nodes");
    return;
  }
  if (shape < 0) shape = (int)c.rng.below(4);
  random_vtree(c.rng, random_vars(c.rng, n, kind), shape, &w->vt);
  manager_for(c, w->vt, w);
  if (n <= 40 && c.rng.chance(n <= 10 ? 0.25 : 0.1)) stir(c, w);
  if (n <= 40 && c.rng.chance(0.006)) age(c, w);
}
inline std::string evid_str(const Evid &e) {
  std::map<int, int> m(e.begin(), e.end());
  std::string s;
  for (auto &p : m) s += (s.empty() ? "" : " ") + S(p.first, "=", p.second);
  return "{" + s + "}";
}
// Flags are any number; most callers use small ones.
inline uintmax_t any_flag(Rng &r) {
  static const uintmax_t odd[] = {255, 256, 65535, 65536, 65537, 1ull << 31, (1ull << 32) - 1,
                                  1ull << 32, (1ull << 32) + 1, (1ull << 32) + 2, ~0ull};
  return r.chance(0.12) ? odd[r.below(11)] : r.below(3);
}
inline double logd(const PsddParameter &p) { return p.parameter(); }
}  // namespace vh
#endif
