// Well-formedness of everything the operations return.
#include "ops.h"
#include <psdd/cnf.h>
using namespace vh;
namespace vh {
const char *const kProperty = "C02";
const char *const kRule =
    "random vtree x random PSDDs put through every node-producing operation (construction, "
    "true node, SDD conversion, normalisation, parameter sampling, learning, multiplication, "
    "loading into another manager, file round trip, chains of these); a structural auditor "
    "walks each result; non-trivial = result with a decision node, distinct by structure, "
    "parameters and producing operation";
int num_cases(bool t) { return t ? 30000 : 2000; }

void run_case(Case &c) {
  Rng &r = c.rng;
  World w;
  bool wide = c.index % 40 == 11;
  int n;
  if (wide) {
    make_wide_world(c, 7, 2, &w);
    n = w.n();
  } else {
    n = c.index % 10 == 9 ? r.range(11, c.thorough ? 150 : 60) : r.range(1, 8);
    make_world(c, n, &w);
  }
  auto look = [&](const char *op, PsddNode *root, uintmax_t flag, bool normalised,
                  const World &in) {
    AuditOpts o;
    o.flag = flag;
    o.normalised = normalised;
    o.tol = 2e-6;
    Import imp;
    std::string bad = audit(root, in, o, &imp);
    c.check(bad.empty(), (std::string("audit-") + op).c_str(),
            S(op, ": ", bad, "; vtree ", vt_str(in.vt.root)));
    c.check(imp.spec.root->vt == in.vt.root, (std::string("root-") + op).c_str(),
            S(op, ": root is not normalised for the vtree root"));
    c.count(op);
    c.count("nodes_audited", imp.of.size());
    if (imp.spec.root->kind == DEC) c.nontrivial(mix(spec_hash(imp.spec.root), hash_str(op)));
  };
  Spec sp;
  if (wide) {
    Table t((size_t)1 << n, 1);
    for (auto &x : t) x = r.chance(0.8);
    t[0] = 1;
    sp.root = gen_from_table(r, &sp, w.vt.root, t, positive_style(r), 1.0);
  } else {
    any_spec(c, w, positive_style(r), &sp);
  }
  PsddNode *cur = build(sp.root, w.m, 0, nullptr, &r);
  c.sample(S("n=", n, ctx(w, sp)));
  look("construct", cur, 0, true, w);
  uintmax_t flag = 0;
  bool normalised = true;
  World other;
  int steps = r.range(2, wide ? 3 : 6);
  for (int k = 0; k < steps; ++k) {
    uintmax_t nf = r.chance(0.5) ? flag : any_flag(r);
    switch (r.below(10)) {
      case 0: {
        RandomDoubleFromGammaGenerator g(0.5 + 2 * r.real(), 1.0, (uint)r.u64());
        cur = w.m->SampleParameters(&g, cur, nf);
        flag = nf;
        normalised = true;
        look("sample", cur, flag, true, w);
        break;
      }
      case 1: {
        // two structures at once
        Spec s2;
        any_spec(c, w, 0, &s2);
        PsddNode *b = build(s2.root, w.m, flag);
        RandomDoubleFromUniformGenerator g(0.05, 1, (uint)r.u64());
        auto v = w.m->SampleParametersForMultiplePsdds(&g, {b, cur}, nf);
        c.check(v.size() == 2, "sample-count", "wrong number of sampled roots");
        look("sample-many", v[0], nf, true, w);
        look("sample-many", v[1], nf, true, w);
        cur = v[1];
        flag = nf;
        normalised = true;
        break;
      }
      case 2: {
        std::unordered_map<int32_t, BatchedPsddValue> ex;
        size_t N = r.below(25);
        Import imp;
        audit(cur, w, raw_opts(), &imp);
        for (int v : w.vars()) ex[v] = BatchedPsddValue(N, false);
        for (size_t i = 0; i < N; ++i)
          for (auto &p : some_assignment(r, imp.spec.root, w.vars()))
            ex[p.first][i] = p.second;
        cur = w.m->LearnPsddParameters(
            cur, ex, N, PsddParameter::CreateFromDecimal(0.01 + r.real()), nf);
        flag = nf;
        normalised = true;
        look("learn", cur, flag, true, w);
        break;
      }
      case 3: {
        Spec s2;
        any_spec(c, w, positive_style(r), &s2);
        PsddNode *b = build(s2.root, w.m, any_flag(r));
        if (wide) break;
        auto p = r.chance(0.5) ? w.m->Multiply(cur, b, nf) : w.m->Multiply(b, cur, nf);
        if (p.first) {
          cur = p.first;
          flag = nf;
          normalised = true;
          look("multiply", cur, flag, true, w);
        } else {
          c.count("empty_products");
        }
        break;
      }
      case 4: {
        if (!other.m) {
          same_world(c, w, &other);
        }
        PsddNode *there = other.m->LoadPsddNode(other.m->vtree(), cur, nf);
        look("load", there, nf, normalised, other);
        cur = w.m->LoadPsddNode(w.m->vtree(), there, nf);
        flag = nf;
        look("load-back", cur, flag, normalised, w);
        break;
      }
      case 5: {
        std::string f = c.scratch + "/x.psdd";
        psdd_node_util::WritePsddToFile(cur, f.c_str());
        PsddNode *back = w.m->ReadPsddFile(f.c_str(), nf);
        AuditOpts o;
        o.flag = nf;
        o.normalised = normalised;
        o.tol = 1e-4;  // six decimals per parameter, up to 128 elements
        Import imp;
        std::string bad = audit(back, w, o, &imp);
        c.check(bad.empty(), "audit-read", S("read: ", bad));
        c.count("read");
        break;
      }
      case 6: {
        PsddNode *t = w.m->GetTrueNode(w.m->vtree(), nf);
        look("true", t, nf, false, w);
        break;
      }
      case 7: {
        if (n > 10) break;
        SddCtx s;
        make_sdd(w.vt, &r, &s);
        SddNode *f = sdd_of_table(s, w.vars(), random_table(r, n));
        PsddNode *p = r.chance(0.5)
                          ? w.m->ConvertSddToPsdd(f, sdd_manager_vtree(s.m), nf)
                          : w.m->FromSdd(f, sdd_manager_vtree(s.m), nf, w.m->vtree());
        look("from-sdd", p, nf, false, w);
        if (r.chance(0.3)) {
          cur = p;
          flag = nf;
          normalised = false;
        }
        break;
      }
      case 8: {
        // elements given at different heights, some of them already normalised
        std::vector<const VT *> inner;
        for (VT *v : w.vt.all())
          if (!v->leaf()) inner.push_back(v);
        if (inner.empty()) break;
        const VT *v = r.pick(inner);
        auto below = [&](const VT *x) {
          while (!x->leaf() && r.chance(0.5)) x = r.chance(0.5) ? x->l : x->r;
          return x;
        };
        Spec s2;
        // disjoint primes over one descendant, subs over a descendant each
        const VT *pv = below(v->l);
        auto part = gen_partition(r, &s2, pv, r.range(1, 4), positive_style(r), false);
        std::vector<PsddNode *> ps, ss;
        std::vector<PsddParameter> ws;
        auto weights = random_weights(r, (int)part.size(), 0);
        auto height = [&](PsddNode *x, const VT *from, const VT *top) {
          std::vector<const VT *> path{from};
          while (path.back() != top) path.push_back(path.back()->up);
          const VT *to = r.chance(0.3) ? from : r.chance(0.5) ? top : r.pick(path);
          return to == from ? x : w.m->NormalizePsddNode(w.back.at(to), x, nf);
        };
        for (size_t i = 0; i < part.size(); ++i) {
          ps.push_back(height(build(part[i], w.m, nf), pv, v->l));
          const VT *sv = below(v->r);
          Spec *keep = &s2;
          auto q = gen_partition(r, keep, sv, r.range(1, 3), positive_style(r), false);
          ss.push_back(height(build(r.pick(q), w.m, nf), sv, v->r));
          ws.push_back(PsddParameter::CreateFromLog(weights[i]));
        }
        PsddNode *d = w.m->GetConformedPsddDecisionNode(ps, ss, ws, nf);
        AuditOpts o;
        o.flag = nf;
        o.normalised = false;  // padding is not
        Import imp;
        std::string bad = audit(d, w, o, &imp);
        c.check(bad.empty(), "audit-conform", S("construction from mixed heights: ", bad));
        c.check(imp.spec.root->vt == v, "root-conform",
                "the node is not at the lowest common vtree node");
        c.check(imp.spec.root->el.size() == part.size(), "conform-elements",
                "elements are lost");
        c.count("conform");
        c.count("nodes_audited", imp.of.size());
        break;
      }
      default: {
        // a constrained sub-vtree, normalised for the root
        std::vector<const VT *> subs;
        for (VT *v : w.vt.all()) subs.push_back(v);
        const VT *v = r.pick(subs);
        Spec s2;
        s2.root = gen_partition(r, &s2, v, r.range(1, 3), positive_style(r), false)[0];
        PsddNode *b = build(s2.root, w.m, nf);
        look("normalise", w.m->NormalizePsddNode(w.m->vtree(), b, nf), nf, false, w);
      }
    }
  }
}
}  // namespace vh
