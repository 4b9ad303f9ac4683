// Canonical nodes: one node per structure, parameters and flag.
#include "ops.h"
using namespace vh;
namespace vh {
const char *const kProperty = "C14";
const char *const kRule =
    "random PSDDs constructed repeatedly through different routes (permuted elements, "
    "permuted construction order, files, loading, conversion, multiplication, true nodes, "
    "after clean-ups) in one manager; pointer identity per flag, distinctness of variants "
    "that differ in one literal, child, parameter (> 1e-6 relative) or flag, and unique node "
    "numbers; non-trivial = decision root, distinct by structure";
int num_cases(bool t) { return t ? 50000 : 4000; }

static void huge_case(Case &c) {
  Huge h;
  make_huge(c, &h);
  uintmax_t f = h.root->flag_index();
  PsddNode *again = build(h.sp.root, h.w.m, f, nullptr, &c.rng);
  c.check(again == h.root, "same", S("the same PSDD built twice is two nodes", h.what));
  Import got;
  AuditOpts o = raw_opts();
  o.disjoint = false;
  std::string bad = audit(h.root, h.w, o, &got);
  c.check(bad.empty(), "audit", S(bad, h.what));
  c.check(spec_reach(got.spec.root) == spec_reach(h.sp.root), "same-inner",
          S("nodes were merged or split", h.what));
}
void run_case(Case &c) {
  Rng &r = c.rng;
  if (huge_index(c)) return huge_case(c);
  World w;
  bool large = c.index % 8 == 7;
  int n = large ? r.range(11, c.thorough ? 120 : 50) : r.range(1, 8);
  make_world(c, n, &w);
  Spec sp;
  int style = (int)r.below(7);
  any_spec(c, w, style, &sp);
  std::string what = ctx(w, sp);
  c.sample(S("n=", n, what).substr(0, 400));
  uintmax_t f1 = r.chance(0.2) ? (uintmax_t)r.u64() : r.below(5), f2 = f1;
  while (f2 == f1) f2 = r.chance(0.2) ? f1 ^ (1ull << r.below(64)) : r.below(6);
  Built b1, b2, b3;
  PsddNode *x = build(sp.root, w.m, f1, &b1, &r);
  if (r.chance(0.5)) {
    Spec noise;
    any_spec(c, w, positive_style(r), &noise);
    build(noise.root, w.m, r.below(5), nullptr, &r);
  }
  PsddNode *y = build(sp.root, w.m, f1, &b2, &r);
  c.check(x == y, "same", S("the same PSDD built twice is two nodes", what));
  for (auto &p : b1.of)
    c.check(b2.of.at(p.first) == p.second, "same-inner", S("inner nodes differ", what));
  PsddNode *z = build(sp.root, w.m, f2, &b3, &r);
  std::unordered_set<PsddNode *> under1;
  Import i1, i3;
  AuditOpts o = raw_opts();
  o.check_flag = true;
  o.flag = f1;
  std::string bad = audit(x, w, o, &i1);
  c.check(bad.empty(), "audit", S(bad, what));
  o.flag = f2;
  bad = audit(z, w, o, &i3);
  c.check(bad.empty(), "audit", S(bad, what));
  for (auto &p : i3.of)
    c.check(!i1.of.count(p.first), "flags",
            S("flags ", f1, " and ", f2, " share node ", p.first->node_index(), what));
  // x has exactly the distribution that was asked for (nothing merged wrongly)
  double tol = 1e-6 * (n + 2);
  std::string d = diff_dist(r, i1.spec.root, sp.root, w.vars(), tol, 20);
  c.check(d.empty(), "distribution", S(d, what));
  // re-creating through other routes
  switch (r.below(5)) {
    case 0: {
      PsddNode *l = w.m->LoadPsddNode(w.m->vtree(), x, f1);
      c.check(l == x, "load", S("loading into its own manager copies", what));
      c.check(w.m->LoadPsddNode(w.m->vtree(), x, f2) == z, "load-flag",
              S("loading under another flag is not the PSDD built there", what));
      c.count("loads");
      break;
    }
    case 1: {
      std::string f = c.scratch + "/x.psdd";
      psdd_node_util::WritePsddToFile(x, f.c_str());
      PsddNode *a = w.m->ReadPsddFile(f.c_str(), f1), *b = w.m->ReadPsddFile(f.c_str(), f1);
      c.check(a == b, "read", S("reading a file twice gives two nodes", what));
      c.count("reads");
      break;
    }
    case 2: {
      if (style == 6) break;
      Spec s2;
      any_spec(c, w, positive_style(r), &s2);
      PsddNode *q = build(s2.root, w.m, f2);
      auto a = w.m->Multiply(x, q, f1), b = w.m->Multiply(x, q, f1);
      c.check(a.first == b.first && a.second.parameter() == b.second.parameter(), "multiply",
              S("multiplying twice gives two results", what));
      c.count("products");
      break;
    }
    case 3: {
      auto all = w.vt.all();
      Vtree *v = w.back.at(r.pick(all));
      c.check(w.m->GetTrueNode(v, f1) == w.m->GetTrueNode(v, f1), "true",
              S("two true nodes", what));
      c.check(w.m->GetTrueNode(v, f1) != w.m->GetTrueNode(v, f2), "true-flag",
              S("true nodes shared between flags", what));
      break;
    }
    default: {
      if (n > 9) break;
      SddCtx sc;
      make_sdd(w.vt, &r, &sc);
      SddNode *f = sdd_of_table(sc, w.vars(), random_table(r, n));
      Vtree *sv = sdd_manager_vtree(sc.m);
      PsddNode *a = w.m->ConvertSddToPsdd(f, sv, f1), *b = w.m->ConvertSddToPsdd(f, sv, f1);
      c.check(a == b, "convert", S("converting twice gives two PSDDs", what));
      std::unordered_set<SddLiteral> u(w.vars().begin(), w.vars().end());
      c.check(w.m->FromSdd(f, sv, f1, u) == a, "convert-route",
              S("the two conversions differ", what));
      c.count("conversions");
    }
  }
  // single-point variants are different nodes
  auto nodes = spec_nodes(sp.root);
  for (int k = 0; k < 6; ++k) {
    SNode *t = r.pick(nodes);
    if (t->kind == LIT) {
      PsddNode *a = w.m->GetPsddLiteralNode(t->lit, f1), *b = w.m->GetPsddLiteralNode(-t->lit, f1);
      c.check(a != b, "variant-literal", S("x and -x are one node", what));
      c.check(a == b1.of.at(t), "same-inner", "literal rebuilt differently");
      c.check(a->psdd_literal_node()->literal() == t->lit &&
                  b->psdd_literal_node()->literal() == -t->lit,
              "variant-literal", "wrong literal");
      // never confused with a free variable
      PsddNode *f = w.m->GetPsddTopNode((uint32_t)std::abs(t->lit), f1,
                                        PsddParameter::CreateFromLog(0),
                                        PsddParameter::CreateFromLog(0));
      c.check(f != a && f->node_type() == TOP_NODE_TYPE, "variant-kind", "literal = true node");
    } else if (t->kind == TOP) {
      double lt = t->lt, lf = t->lf;
      double delta = (r.chance(0.5) ? 1 : -1) * (2e-6 + (r.chance(0.5) ? r.real() : 0));
      int which = (int)r.below(3);
      auto bump = [&](double v) { return std::isinf(v) ? -1.0 : v + delta; };
      double lt2 = which != 1 ? bump(lt) : lt, lf2 = which != 0 ? bump(lf) : lf;
      if (r.chance(0.15) && std::fabs(lt - lf) > 1e-5) lt2 = lf, lf2 = lt;  // swapped
      PsddNode *b = w.m->GetPsddTopNode((uint32_t)t->vt->var, f1,
                                        PsddParameter::CreateFromLog(lt2),
                                        PsddParameter::CreateFromLog(lf2));
      c.check(b != b1.of.at(t), "variant-top",
              S("true nodes ", lt, "/", lf, " and ", lt2, "/", lf2, " are one node"));
      c.check(close(b->psdd_top_node()->true_parameter().parameter(), lt2, 1e-6) &&
                  close(b->psdd_top_node()->false_parameter().parameter(), lf2, 1e-6),
              "variant-top", "a true node with other parameters was returned");
      c.count("variants");
    } else {
      std::vector<PsddNode *> p, s;
      std::vector<PsddParameter> q;
      size_t hit = r.below(t->el.size());
      std::string how;
      double delta = (r.chance(0.5) ? 1 : -1) * (2e-6 + (r.chance(0.5) ? r.real() : 0));
      int kind = (int)r.below(3);
      for (size_t i = 0; i < t->el.size(); ++i) {
        p.push_back(b1.of.at(t->el[i].p));
        s.push_back(b1.of.at(t->el[i].s));
        q.push_back(PsddParameter::CreateFromLog(t->el[i].w));
      }
      if (kind == 0 || t->el.size() < 2) {
        double v = t->el[hit].w;
        q[hit] = PsddParameter::CreateFromLog(std::isinf(v) ? -1.0 : v + delta);
      } else if (kind == 1) {
        size_t other = (hit + 1) % t->el.size();
        if (s[hit] == s[other] && close(t->el[hit].w, t->el[other].w, 2e-6)) continue;
        std::swap(s[hit], s[other]);
        std::swap(q[hit], q[other]);
      } else {
        size_t other = (hit + 1) % t->el.size();
        if (close(t->el[hit].w, t->el[other].w, 2e-6)) continue;
        std::swap(q[hit], q[other]);
      }
      PsddNode *b = w.m->GetConformedPsddDecisionNode(p, s, q, f1);
      c.check(b != b1.of.at(t), "variant-decision",
              S("a decision node and a variant of kind ", kind, " are one node", what));
      auto *dn = b->psdd_decision_node();
      for (size_t i = 0; i < p.size(); ++i) {
        bool ok = false;
        for (size_t j = 0; j < dn->primes().size(); ++j)
          ok = ok || (dn->primes()[j] == p[i] && dn->subs()[j] == s[i] &&
                      close(dn->parameters()[j].parameter(), q[i].parameter(), 1e-6));
        c.check(ok && dn->primes().size() == p.size(), "variant-decision",
                S("another decision node was returned", what));
      }
      c.count("variants");
    }
  }
  // clean-up keeps canonicity
  if (r.chance(0.5)) {
    w.m->DeleteUnusedPsddNodes({x});
    Built b4;
    PsddNode *again = build(sp.root, w.m, f1, &b4, &r);
    c.check(again == x, "after-cleanup", S("after a clean-up the kept PSDD is built anew", what));
    PsddNode *z2 = build(sp.root, w.m, f2, nullptr, &r);
    Import i5;
    o.flag = f2;
    bad = audit(z2, w, o, &i5);
    c.check(bad.empty(), "audit-after-cleanup", S(bad, what));
    // node numbers stay unique
    std::unordered_map<uintmax_t, PsddNode *> by;
    bad = audit(x, w, raw_opts(), &i3);
    for (auto *im : {&i1, &i5})
      for (auto &q : im->of) {
        auto it = by.emplace(q.first->node_index(), q.first);
        c.check(it.first->second == q.first, "index",
                S("two nodes have number ", q.first->node_index(), what));
      }
    c.count("cleanups");
  } else {
    std::unordered_map<uintmax_t, PsddNode *> by;
    for (auto *im : {&i1, &i3})
      for (auto &q : im->of) {
        auto it = by.emplace(q.first->node_index(), q.first);
        c.check(it.first->second == q.first, "index",
                S("two nodes have number ", q.first->node_index(), what));
      }
  }
  if (sp.root->kind == DEC) c.nontrivial(spec_hash(sp.root));
}
}  // namespace vh
