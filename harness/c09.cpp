// Parameter learning from complete data.
#include "ops.h"
using namespace vh;
namespace vh {
const char *const kProperty = "C09";
const char *const kRule =
    "random PSDD structures x complete data sets (0..80, some 63..150000 examples, repeated, inside and "
    "outside the support) x smoothing constants (tiny to large, and zero when every node is "
    "reached); learned parameters against an independent per-node count of the examples, "
    "and against the data likelihood of competing parameters; non-trivial = decision root "
    "and at least one supported example";
int num_cases(bool t) { return t ? 60000 : 4500; }

void run_case(Case &c) {
  Rng &r = c.rng;
  World w;
  bool big = c.index % 8 == 7;
  int n = big ? r.range(12, c.thorough ? 80 : 40) : r.range(1, 8);
  bool mass = c.index % 150 == 77;  // many examples
  bool exact = c.index % 150 == 127;  // block-sized data sets, and one more or less
  if (mass || exact) n = r.range(1, 5);
  make_world(c, n, &w);
  Spec sp;
  any_spec(c, w, positive_style(r), &sp);
  PsddNode *root = build(sp.root, w.m, any_flag(r), nullptr, &r);
  if (!big && r.chance(0.2)) {
    SddCtx sc;
    make_sdd(w.vt, &r, &sc);
    Table t = random_table(r, n);
    t[r.below(t.size())] = 1;
    root = w.m->ConvertSddToPsdd(sdd_of_table(sc, w.vars(), t), sdd_manager_vtree(sc.m), 0);
    c.count("from_constraints");
  }
  Import imp;
  std::string bad = audit(root, w, raw_opts(), &imp);
  c.check(bad.empty(), "audit", bad);
  SNode *s = imp.spec.root;
  size_t N = r.chance(0.1) ? 0 : r.chance(0.3) ? r.below(4) : r.below(80);
  std::vector<Evid> data;
  if (mass) {  // some with counts beyond 16 bits
    N = (size_t)(c.index % 1500 == 77 ? r.range(66000, 150000) : r.range(200, 12000));
    c.count("mass_data");
  }
  if (exact) {
    static const size_t round[] = {64,   100,  128,  256,  512,   1000,  1024,  2048, 4096,
                                   5000, 8192, 10000, 16384, 32768, 65536, 65536, 100000};
    N = round[c.index / 150 % 17] + r.below(3) - 1;
    mass = true;
    c.count("round_sizes");
  }
  size_t kinds = (size_t)r.range(1, 4);
  std::vector<size_t> which(N), times;  // example -> row, row -> number of examples
  for (size_t i = 0; i < N; ++i) {
    if (mass && i >= kinds) {
      // the last example may be of a kind of its own
      if (i + 1 == N && r.chance(0.5)) {
        which[i] = data.size();
        times.push_back(1);
        data.push_back(support_assignment(r, s));
        continue;
      }
      which[i] = r.chance(0.7) ? 0 : r.below(kinds);
      ++times[which[i]];
      continue;
    }
    which[i] = data.size();
    times.push_back(1);
    if (!data.empty() && r.chance(0.2))
      data.push_back(r.pick(data));
    else if (r.chance(0.15))
      data.push_back(random_evid(r, w.vars(), 1.0));
    else
      data.push_back(support_assignment(r, s));
  }
  // independent counts
  std::unordered_map<const SNode *, std::vector<double>> cnt;
  std::unordered_set<const SNode *> reached;
  size_t supported = 0;
  double t = 1;
  std::unordered_map<const SNode *, bool> ok;
  std::function<void(const SNode *, const Evid &)> walk = [&](const SNode *x,
                                                              const Evid &e) {
    reached.insert(x);
    auto &k = cnt[x];
    if (x->kind == TOP) {
      k.resize(2);
      k[e.at(x->vt->var) ? 1 : 0] += t;
    } else if (x->kind == DEC) {
      k.resize(x->el.size());
      for (size_t i = 0; i < x->el.size(); ++i)
        if (ok.at(x->el[i].p) && ok.at(x->el[i].s)) {
          k[i] += t;
          walk(x->el[i].p, e);
          walk(x->el[i].s, e);
          return;
        }
    }
  };
  for (size_t i = 0; i < data.size(); ++i)
    if ((ok = o_consistent_all(s, data[i])).at(s)) {
      supported += times[i];
      t = (double)times[i];
      walk(s, data[i]);
    }
  auto nodes = spec_nodes(s);
  bool all = true;
  for (SNode *x : nodes)
    if (x->kind != LIT && !reached.count(x)) all = false;
  double alpha = r.chance(0.2)   ? 1
                 : r.chance(0.2) ? 1e-6
                 : r.chance(0.1) ? 1e-12
                 : r.chance(0.1) ? 1e6
                                 : 0.01 + 3 * r.real();
  if (all && supported && r.chance(0.6)) alpha = 0;
  uintmax_t flag = any_flag(r);
  std::unordered_map<int32_t, BatchedPsddValue> ex;
  if (N || r.chance(0.5))
    for (int v : w.vars()) ex[v] = BatchedPsddValue(N, false);
  if (N && r.chance(0.2)) ex[70000] = BatchedPsddValue(r.below(3), true);  // unrelated column
  for (size_t i = 0; i < N; ++i)
    for (auto &p : data[which[i]]) ex[p.first][i] = p.second;
  auto ex_copy = ex;
  std::string what = S("; N=", N, " (", supported, " supported) alpha=", alpha, ctx(w, imp.spec));
  c.sample(S("n=", n, what).substr(0, 500));
  PsddNode *got =
      w.m->LearnPsddParameters(root, ex, N, PsddParameter::CreateFromDecimal(alpha), flag);
  c.check(ex == ex_copy, "data-changed", "the data set was modified");
  AuditOpts o;
  o.flag = flag;
  o.tol = 2e-6;
  Import res;
  bad = audit(got, w, o, &res);
  c.check(bad.empty(), "audit-result", S(bad, what));
  bad = state_clean(imp);
  c.check(bad.empty(), "state", bad);
  // expected parameters
  std::vector<std::pair<const SNode *, std::vector<double>>> original;
  Spec want;
  std::unordered_map<const SNode *, SNode *> to;
  for (SNode *x : nodes) {
    auto &k = cnt[x];
    if (x->kind == LIT) {
      to[x] = want.lit(x->vt, x->lit > 0);
    } else if (x->kind == TOP) {
      k.resize(2);
      double t = k[0] + k[1] + 2 * alpha;
      to[x] = want.top(x->vt, std::log((k[1] + alpha) / t), std::log((k[0] + alpha) / t));
    } else {
      k.resize(x->el.size());
      double t = alpha * (double)x->el.size();
      for (double q : k) t += q;
      std::vector<SElem> el;
      for (size_t i = 0; i < x->el.size(); ++i)
        el.push_back({to[x->el[i].p], to[x->el[i].s], std::log((k[i] + alpha) / t)});
      to[x] = want.dec(x->vt, el);
    }
  }
  want.root = to[s];
  double tol = 1e-6 * (n + 2);
  std::string d = diff_dist(r, res.spec.root, want.root, w.vars(), tol);
  c.check(d.empty(), "distribution", S(d, what));
  // every node of the structure carries the smoothed counts (also the unreachable ones)
  std::unordered_map<const SNode *, SNode *> twin;
  std::function<std::string(SNode *, SNode *)> pair = [&](SNode *a, SNode *b) -> std::string {
    auto it = twin.find(a);
    if (it != twin.end()) return "";
    twin[a] = b;
    if (a->kind != b->kind || a->vt != b->vt) return "node kinds differ";
    if (a->kind == LIT) return a->lit == b->lit ? "" : "literals differ";
    if (a->kind == TOP)
      return close(a->lt, b->lt, 1e-6) && close(a->lf, b->lf, 1e-6)
                 ? ""
                 : S("variable ", a->vt->var, ": learned ", b->lt, "/", b->lf, ", expected ",
                     a->lt, "/", a->lf);
    if (a->el.size() != b->el.size()) return "element counts differ";
    // match elements by a satisfying assignment of the prime
    std::vector<char> used(b->el.size());
    for (auto &x : a->el) {
      auto fits = o_consistent_all(b, support_assignment(r, x.p));
      bool hit = false;
      for (size_t j = 0; j < b->el.size() && !hit; ++j)
        if (!used[j] && fits.at(b->el[j].p)) {
          used[j] = hit = true;
          if (!close(x.w, b->el[j].w, 1e-6))
            return S("element weight ", b->el[j].w, ", expected ", x.w);
          std::string m = pair(x.p, b->el[j].p);
          if (m.empty()) m = pair(x.s, b->el[j].s);
          if (!m.empty()) return m;
        }
      if (!hit) return "an element has no counterpart";
    }
    return "";
  };
  if (alpha > 0) {
    d = pair(want.root, res.spec.root);
    c.check(d.empty(), "parameters", S(d, what));
  }
  // learning again from the same inputs gives the same result
  if (r.chance(0.3)) {
    PsddNode *again =
        w.m->LearnPsddParameters(root, ex, N, PsddParameter::CreateFromDecimal(alpha), flag);
    c.check(again == got, "repeat", S("learning twice gave different PSDDs", what));
  }
  // maximum likelihood: with negligible smoothing no other parameters fit better
  if (supported && alpha <= 1e-6 && !big) {
    LD mine = 0, theirs = 0;
    Import samp;
    RandomDoubleFromGammaGenerator g(1, 1, (uint)r.u64());
    audit(w.m->SampleParameters(&g, root, 9), w, raw_opts(), &samp);
    for (size_t i = 0; i < data.size(); ++i)
      if (o_consistent(s, data[i])) {
        mine += (LD)times[i] * o_logp(res.spec.root, data[i]);
        theirs += (LD)times[i] * o_logp(samp.spec.root, data[i]);
      }
    c.check(mine >= theirs - 1e-3 * (LD)supported, "likelihood",
            S("log likelihood ", (double)mine, " below ", (double)theirs, what));
    c.count("likelihood_comparisons");
  }
  c.count("examples", N);
  c.count("unsupported_examples", N - supported);
  if (alpha == 0) c.count("unsmoothed");
  if (s->kind == DEC && supported) c.nontrivial(mix(spec_hash(s), mix(N, supported)));
}
}  // namespace vh
