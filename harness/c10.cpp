// Random parameters.
#include "ops.h"
using namespace vh;
namespace vh {
const char *const kProperty = "C10";
const char *const kRule =
    "random structures x gamma/uniform/constant/adversarial generators, one root or several "
    "roots of different depths, nested and repeated; support, normalisation, flag, sharing, "
    "provenance of every parameter from the recorded draws, each draw used once, determinism across fresh managers and first moments of the drawn parameters; "
    "non-trivial = structure with a free parameter, distinct by structure and generator";
int num_cases(bool t) { return t ? 40000 : 3500; }
struct Constant : RandomDoubleGenerator {
  double v;
  explicit Constant(double x) : v(x) {}
  double generate() override { return v; }
};
struct Wild : RandomDoubleGenerator {  // orders of magnitude apart
  Rng r;
  explicit Wild(uint64_t s) : r(s) {}
  double generate() override { return std::exp(-40 * r.real()); }
};
struct Recorder : RandomDoubleGenerator {  // remembers what it gave out
  Rng r;
  double span;
  std::vector<double> given;
  Recorder(uint64_t s, double span) : r(s), span(span) {}
  double generate() override {
    given.push_back(std::exp(-span * r.real()));
    return given.back();
  }
};
// Every distribution consists of draws divided by their sum, and no draw serves twice.
static void check_draws(Case &c, std::vector<double> d, const std::vector<std::vector<double>> &dists,
                        const std::string &what) {
  std::sort(d.begin(), d.end());
  std::vector<char> used(d.size());
  std::vector<size_t> stamp(d.size());
  size_t now = 0;
  auto find = [&](double x) -> size_t {  // a draw of this value, best one not used yet
    size_t best = d.size();
    for (auto it = std::lower_bound(d.begin(), d.end(), x * (1 - 1e-12));
         it != d.end() && *it <= x * (1 + 1e-12); ++it) {
      size_t k = (size_t)(it - d.begin());
      if (stamp[k] == now) continue;
      if (best == d.size() || !used[k]) best = k;
      if (!used[k]) break;
    }
    return best;
  };
  for (auto &p : dists) {
    bool hit = false, again = false;
    for (size_t a = 0; a < d.size() && !hit; ++a) {
      std::vector<size_t> at{a};
      double sum = d[a];
      stamp[a] = ++now;
      for (size_t i = 1; i < p.size() && at.size() == i; ++i) {
        size_t k = find(d[a] * std::exp(p[i] - p[0]));
        if (k < d.size()) stamp[k] = now, at.push_back(k), sum += d[k];
      }
      if (at.size() < p.size() || std::fabs(std::log(d[a] / sum) - p[0]) > 1e-9) continue;
      bool fresh = true;
      for (size_t k : at) fresh &= !used[k];
      again |= !fresh;
      if (!fresh) continue;
      hit = true;
      for (size_t k : at) used[k] = 1;
    }
    c.check(hit, again ? "draws-reused" : "draws",
            S("a distribution of ", p.size(), " parameters ", p[0], " ", p[1],
              again ? " is made of draws used for another one"
                    : " is not made of numbers from the generator",
              what));
  }
  c.count("distributions_traced", dists.size());
}

static void huge_case(Case &c) {
  Rng &r = c.rng;
  Huge h;
  make_huge(c, &h);
  Recorder g(r.u64(), 3);
  PsddNode *x = h.w.m->SampleParameters(&g, h.root, 7);
  Import got;
  AuditOpts o;
  o.flag = 7;
  o.tol = 1e-3;
  o.disjoint = false;
  std::string bad = audit(x, h.w, o, &got);
  c.check(bad.empty(), "audit", S(bad, h.what));
  c.check(o_count(got.spec.root) == o_count(h.sp.root), "support",
          S("another number of models", h.what));
  size_t a = 0, b = 0, na = spec_reach(got.spec.root, &a), nb = spec_reach(h.sp.root, &b);
  c.check(na == nb && a == b, "structure", S("other structure", h.what));
  std::vector<std::vector<double>> dists;
  for (SNode *y : spec_nodes(got.spec.root))
    if (y->kind == DEC && y->el.size() >= 50) {
      dists.emplace_back();
      for (auto &e : y->el) dists.back().push_back(e.w);
      if (dists.size() == 20) break;
    }
  check_draws(c, g.given, dists, h.what);
}
void run_case(Case &c) {
  Rng &r = c.rng;
  if (huge_index(c)) return huge_case(c);
  if (c.index % 50 == 3) {  // the generators themselves
    double lo = -5 + 10 * r.real(), hi = lo + 0.01 + 5 * r.real();
    uint seed = (uint)r.u64();
    RandomDoubleFromUniformGenerator a(lo, hi, seed), b(lo, hi, seed);
    c.check(a.min() == lo && a.max() == hi, "uniform-bounds", "min()/max() are not the bounds");
    double sum = 0;
    int N = 20000;
    for (int i = 0; i < N; ++i) {
      double x = a.generate();
      c.check(x == b.generate(), "uniform-deterministic", "same seed, different numbers");
      c.check(x >= lo && x <= hi, "uniform-range", S(x, " outside [", lo, ",", hi, "]"));
      sum += x;
    }
    double sd = (hi - lo) / std::sqrt(12.0 * N);
    c.check(std::fabs(sum / N - (lo + hi) / 2) < 8 * sd, "uniform-mean",
            S("mean ", sum / N, " for [", lo, ",", hi, "]"));
    double al = 0.5 + 4 * r.real(), be = 0.2 + 3 * r.real();
    RandomDoubleFromGammaGenerator g(al, be, seed), h(al, be, seed), d1(al, be), d2(al, be);
    sum = 0;
    for (int i = 0; i < N; ++i) {
      double x = g.generate();
      c.check(x == h.generate() && d1.generate() == d2.generate(), "gamma-deterministic",
              "same seed, different numbers");
      c.check(x >= 0, "gamma-range", "negative draw");
      sum += x;
    }
    c.check(std::fabs(sum / N - al * be) < 8 * be * std::sqrt(al / N), "gamma-mean",
            S("mean ", sum / N, " for Gamma(", al, ",", be, ")"));
    c.count("generator_checks");
    return;
  }
  World w;
  bool big = c.index % 8 == 7;
  int n = big ? r.range(12, c.thorough ? 200 : 90) : r.range(1, 8);
  make_world(c, n, &w);
  int roots = r.chance(0.4) ? 1 : r.range(1, 5);
  std::vector<std::unique_ptr<Spec>> sp;
  std::vector<PsddNode *> in;
  std::vector<int> recipe;  // how each root was made, to repeat it in another manager
  auto make_roots = [&](World &x, std::vector<PsddNode *> *out) {
    for (size_t i = 0; i < sp.size(); ++i)
      out->push_back(recipe[i] >= 0 ? (*out)[(size_t)recipe[i]]
                                    : build(sp[i]->root, x.m, (uintmax_t)(i % 2)));
  };
  World w2;
  same_world(c, w, &w2);
  auto all_vt = w.vt.all();
  for (int i = 0; i < roots; ++i) {
    sp.emplace_back(new Spec);
    recipe.push_back(-1);
    if (i && r.chance(0.15)) {
      recipe.back() = (int)r.below((uint64_t)i);
      sp.back()->root = sp[(size_t)recipe.back()]->root;
      // share ownership simply by never using the empty pool
      continue;
    }
    if (i == 0 || r.chance(0.4))
      any_spec(c, w, positive_style(r), sp.back().get());
    else if (r.chance(0.3)) {
      // a node inside an earlier root
      int j = (int)r.below((uint64_t)i);
      auto ns = spec_nodes(sp[(size_t)j]->root);
      sp.back()->root = r.pick(ns);
      c.count("nested_roots");
    } else {
      const VT *v = r.pick(all_vt);
      sp.back()->root =
          gen_partition(r, sp.back().get(), v, 2, positive_style(r), false)[0];
    }
  }
  make_roots(w, &in);
  // specs are stated over w's vtree; both managers share its shape
  std::vector<std::unique_ptr<Import>> before;
  for (auto *x : in) {
    before.emplace_back(new Import);
    std::string bad = audit(x, w, raw_opts(), before.back().get());
    c.check(bad.empty(), "audit-argument", bad);
  }
  uintmax_t flag = any_flag(r);
  uint seed = (uint)r.u64();
  int gk = (int)r.below(5);
  uint64_t ws = r.u64();
  double ga = 0.3 + 3 * r.real(), cv = r.chance(0.5) ? 1.0 : 0.001 + 10 * r.real();
  double span = r.pick(std::vector<double>{0.5, 3, 12});
  auto gen = [&]() -> std::unique_ptr<RandomDoubleGenerator> {
    switch (gk) {
      case 0: return std::unique_ptr<RandomDoubleGenerator>(
                  new RandomDoubleFromGammaGenerator(ga, 1, seed));
      case 1: return std::unique_ptr<RandomDoubleGenerator>(
                  new RandomDoubleFromUniformGenerator(0.01, 1, seed));
      case 2: return std::unique_ptr<RandomDoubleGenerator>(new Constant(cv));
      case 3: return std::unique_ptr<RandomDoubleGenerator>(new Recorder(ws, span));
      default: return std::unique_ptr<RandomDoubleGenerator>(new Wild(ws));
    }
  };
  std::string what = S("; generator ", gk, " roots ", roots, ctx(w, *sp[0]));
  c.sample(S("n=", n, what).substr(0, 500));
  std::vector<double> draws;
  auto sample = [&](World &x, std::vector<PsddNode *> &args) {
    auto g = gen();
    std::vector<PsddNode *> out;
    if (args.size() == 1 && seed % 2)
      out.push_back(x.m->SampleParameters(g.get(), args[0], flag));
    else
      out = x.m->SampleParametersForMultiplePsdds(g.get(), args, flag);
    if (gk == 3) draws = static_cast<Recorder *>(g.get())->given;
    return out;
  };
  auto out = sample(w, in);
  c.check(out.size() == in.size(), "count", "one result per root expected");
  std::vector<std::unique_ptr<Import>> imps;
  std::map<PsddNode *, PsddNode *> image;
  std::map<PsddNode *, std::vector<double>> dist_of;
  double tsum = 0;
  size_t tcount = 0, degenerate = 0, multi = 0;
  for (size_t i = 0; i < out.size(); ++i) {
    imps.emplace_back(new Import);
    AuditOpts o;
    o.flag = flag;
    o.positive = true;
    std::string bad = audit(out[i], w, o, imps.back().get());
    c.check(bad.empty(), "audit", S(bad, what));
    SNode *a = imps.back()->spec.root, *b = before[i]->spec.root;
    c.check(a->vt == b->vt, "vtree", S("result ", i, " is over another vtree node", what));
    // same support
    mpz_class ca = o_count(a), cb = o_count(b);
    c.check(ca == cb, "support", S(ca.get_str(), " models, expected ", cb.get_str(), what));
    const auto &vars = a->vt->vars;
    for (int q = 0; q < 12; ++q) {
      Evid e = some_assignment(r, q % 2 ? a : b, vars);
      c.check(o_consistent(a, e) == o_consistent(b, e), "support",
              S("support differs at ", evid_str(e), what));
    }
    // a root given twice, or inside another, is sampled once
    auto it = image.find(in[i]);
    if (it != image.end())
      c.check(it->second == out[i], "sharing", S("a repeated root was sampled twice", what));
    image[in[i]] = out[i];
    for (SNode *x : spec_nodes(a)) {
      std::vector<double> p;
      if (x->kind == TOP) p = {x->lt, x->lf};
      if (x->kind == DEC)
        for (auto &e : x->el) p.push_back(e.w);
      if (p.size() < 2) continue;
      ++multi;
      bool same = true;
      for (double q : p) same &= std::fabs(q - p[0]) < 1e-9;
      degenerate += same;
      if (gk == 2)
        c.check(same, "uniform",
                S("equal draws gave unequal parameters ", p[0], " ", p[1], what));
      if (x->kind == TOP || p.size() == 2) tsum += std::exp(p[0]), ++tcount;
    }
  }
  c.count("free_distributions", multi);
  if (gk == 3 && draws.size() <= 6000) {
    for (auto &im : imps)
      for (auto &q : im->of) {
        std::vector<double> p;
        if (q.second->kind == TOP) p = {q.second->lt, q.second->lf};
        if (q.second->kind == DEC)
          for (auto &e : q.second->el) p.push_back(e.w);
        if (p.size() > 1) dist_of[q.first] = p;
      }
    std::vector<std::vector<double>> dists;
    for (auto &q : dist_of) dists.push_back(q.second);
    check_draws(c, draws, dists, what);
  }
  // a root nested in another root is the same node as the other result's part
  for (size_t i = 0; i < in.size(); ++i)
    for (size_t j = 0; j < in.size(); ++j)
      if (before[i]->of.count(in[j]))
        c.check(imps[i]->of.count(out[j]), "sharing",
                S("root ", j, " lies inside root ", i, " but not in its result", what));
  if (gk != 2) {
    c.check(degenerate <= multi / 1000 + 1, "degenerate",
            S(degenerate, " of ", multi, " distributions are exactly uniform", what));
  }
  if ((gk == 0 || gk == 1) && tcount > 100) {
    double sd = 0.5 / std::sqrt((double)tcount);
    c.check(std::fabs(tsum / (double)tcount - 0.5) < 7.5 * sd, "mean",
            S("mean parameter ", tsum / (double)tcount, " over ", tcount, what));
    c.count("moment_checks");
  }
  for (auto &b : before) {
    std::string bad = state_clean(*b);
    c.check(bad.empty(), "state", bad);
  }
  // the same seed gives the same PSDDs in a fresh manager
  if (r.chance(0.5)) {
    World w3, w4;
    same_world(c, w, &w3);
    same_world(c, w, &w4);
    std::vector<PsddNode *> i3, i4;
    make_roots(w3, &i3);
    make_roots(w4, &i4);
    auto o3 = sample(w3, i3), o4 = sample(w4, i4);
    for (size_t i = 0; i < o3.size(); ++i) {
      Import a, b;
      audit(o3[i], w3, raw_opts(), &a);
      audit(o4[i], w4, raw_opts(), &b);
      for (int q = 0; q < 10; ++q) {
        Evid e = support_assignment(r, a.spec.root);
        LD x = o_logp(a.spec.root, e), y = o_logp(b.spec.root, e);
        c.check(close(x, y, 1e-9), "deterministic",
                S("same seed, but ", (double)x, " and ", (double)y, " at ", evid_str(e), what));
      }
    }
    c.count("repeats");
  }
  if (multi) c.nontrivial(mix(spec_hash(before[0]->spec.root), mix((uint64_t)gk, seed)));
}
}  // namespace vh
