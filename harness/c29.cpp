// The benchmark command line tool.
#include "ops.h"
using namespace vh;
namespace vh {
const char *const kProperty = "C29";
const char *const kRule =
    "random PSDDs over variables 1 to n (n up to 80; shared nodes, bare literals, zero parameters "
    "by seed) in files of the documented layout, with unused lines and any node numbers, run as a "
    "process of the sanitized tool; reported node count against an own traversal of the "
    "description, termination, sanitizer reports; non-trivial = a PSDD with a decision node, "
    "distinct by description";
int num_cases(bool t) { return t ? 30000 : 3000; }
static std::string psdd_text(Rng &r, const SNode *root) {
  auto nodes = spec_nodes(root);
  std::map<const SNode *, std::vector<size_t>> ids;  // a node may be described more than once
  std::string body;
  size_t next = r.chance(0.5) ? 0 : r.below(1000), lines = 0;
  double again = r.chance(0.4) ? 0.15 : 0;
  for (auto *x : nodes) {
    int times = x != root && r.chance(again) ? 2 : 1;
    for (int t = 0; t < times; ++t) {
      size_t k = next;
      next += r.chance(0.9) ? 1 : r.range(2, 50);
      ++lines;
      if (x->kind == LIT)
        body += S("L ", k, " ", x->vt->id, " ", x->lit, "\n");
      else if (x->kind == TOP)
        body += S("T ", k, " ", x->vt->id, " ", x->vt->var, " ", x->lf, " ", x->lt, "\n");
      else {
        body += S("D ", k, " ", x->vt->id, " ", x->el.size());
        for (auto &e : x->el)
          body += S(" ", r.pick(ids.at(e.p)), " ", r.pick(ids.at(e.s)), " ", e.w);
        body += "\n";
      }
      ids[x].push_back(k);
      if (r.chance(0.02)) body += "c comment\n";
    }
    if (x != root && r.chance(again)) {  // nothing uses this one
      auto *v = nodes[r.below(nodes.size())]->vt;
      if (v->leaf() && ++lines)
        body += S("T ", next++, " ", v->id, " ", v->var, " ", log(0.125), " ", log(0.875), "\n");
    }
  }
  return S(r.chance(0.5) ? "c psdd\n" : "", "psdd ", lines, "\n", body);
}
void run_case(Case &c) {
  Rng &r = c.rng;
  World w;
  int n = c.index % 10 == 3 ? r.range(15, 80) : r.range(1, 12);
  make_world(c, n, &w);
  Spec sp;
  any_spec(c, w, (int)r.below(7), &sp);
  write_tmp(c, "p.psdd", psdd_text(r, sp.root));
  Vtree *v = to_sdd(w.vt.root);
  sdd_vtree_save((c.scratch + "/p.vtree").c_str(), v);
  PsddManager *fresh = PsddManager::GetPsddManagerFromVtree(v);
  sdd_vtree_free(v);
  // nodes of the PSDD: the description's, counted once however often they are described
  std::string before = read_all(c.scratch + "/p.psdd") + read_all(c.scratch + "/p.vtree");
  PsddNode *p = fresh->ReadPsddFile((c.scratch + "/p.psdd").c_str(), 0);
  c.check(p != nullptr, "read", ctx(w, sp));
  std::set<PsddNode *> seen;
  std::vector<PsddNode *> todo{p};
  while (!todo.empty()) {
    PsddNode *x = todo.back();
    todo.pop_back();
    if (!seen.insert(x).second) continue;
    if (auto *d = x->psdd_decision_node())
      for (size_t i = 0; i < d->primes().size(); ++i)
        todo.push_back(d->primes()[i]), todo.push_back(d->subs()[i]);
  }
  delete fresh;
  std::string out, err;
  int st = run_tool({tool("PSDD_INFERENCE_BENCHMARK"), "p.psdd", "p.vtree"}, c.scratch, 30, &out, &err);
  std::string what = S(ctx(w, sp), "\noutput: ", out, err.substr(0, 1500));
  c.check(!sanitizer_report(err), "memory", what);
  c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "status", status_str(st) + "; " + what);
  size_t at = out.find("PSDD size ");
  c.check(at != std::string::npos && strtoull(out.c_str() + at + 10, nullptr, 10) == seen.size(),
          "size", S("expected ", seen.size(), "; ", what));
  c.check(out.find("MpepQueryTime: ") != std::string::npos &&
              out.find("MarQueryTime: ") != std::string::npos,
          "answers", what);
  c.check(read_all(c.scratch + "/p.psdd") + read_all(c.scratch + "/p.vtree") == before, "files",
          "input files changed; " + what);
  c.count("nodes", seen.size());
  c.sample(ctx(w, sp).substr(0, 300));
  if (seen.size() > 2) c.nontrivial(mix(spec_hash(sp.root), hash_str(vt_str(w.vt.root))));
}
}  // namespace vh
