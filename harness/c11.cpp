// Sampling assignments.
#include "ops.h"
using namespace vh;
namespace vh {
const char *const kProperty = "C11";
const char *const kRule =
    "random normalised PSDDs (all parameter styles, zeros included) sampled with uniform "
    "generators over several ranges and with adversarial draws (smallest, largest, on and "
    "next to cumulative weights); support of every sample, 8-sigma bounds on every "
    "assignment's frequency and on marginals; nodes of up to 2048 rare elements; non-trivial = decision root with >= 2 models";
int num_cases(bool t) { return t ? 12000 : 1100; }
struct Forced : RandomDoubleFromUniformGenerator {
  Rng r;
  int mode;
  double lo, hi;
  Forced(double a, double b, uint64_t s, int m)
      : RandomDoubleFromUniformGenerator(a, b, 1), r(s), mode(m), lo(a), hi(b) {}
  double generate() override {
    int m = mode == 4 ? (int)r.below(4) : mode;
    double x;
    switch (m) {
      case 0: x = 0; break;
      case 1: x = 1 - 1e-16 * 2; break;
      case 2: x = 1 - 1e-8 * r.real(); break;
      default: x = r.chance(0.5) ? 0.5 : r.real(); break;
    }
    double v = lo + (hi - lo) * x;
    return v < hi ? v : std::nextafter(hi, lo);
  }
};

// A node of many elements, each of them rare.
static void rare_elements(Case &c) {
  Rng &r = c.rng;
  World w;
  const int nl = 11;
  make_wide_world(c, nl, r.range(1, 3), &w);
  const VT *at = w.vt.root;
  const std::vector<int> &lv = at->l->vars;
  std::map<int, int> bit;
  for (int i = 0; i < nl; ++i) bit[lv[(size_t)i]] = i;
  Spec sp;
  std::map<std::pair<const VT *, unsigned>, SNode *> made;
  std::function<SNode *(const VT *, unsigned)> term = [&](const VT *v, unsigned x) {
    unsigned mask = 0;
    for (int y : v->vars) mask |= 1u << bit[y];
    SNode *&t = made[{v, x & mask}];
    if (!t)
      t = v->leaf() ? sp.lit(v, x >> bit[v->var] & 1)
                    : sp.dec(v, {{term(v->l, x), term(v->r, x), 0}});
    return t;
  };
  std::vector<SNode *> subs;
  for (int i = 0; i < 3; ++i) subs.push_back(gen_partition(r, &sp, at->r, 1, 0, true)[0]);
  std::vector<unsigned> xs;
  for (unsigned x = 0; x < 1u << nl; ++x) xs.push_back(x);
  r.shuffle(xs);
  xs.resize((size_t)r.range(300, 1 << nl));
  size_t k = xs.size();
  // a heavy element among the rare ones, or none
  double heavy = r.chance(0.5) ? 0 : r.real() * 0.8;
  double rest = 0;
  std::vector<double> p(k);
  for (size_t i = 1; i < k; ++i) rest += p[i] = 0.2 + r.real();
  for (size_t i = 1; i < k; ++i) p[i] *= (1 - heavy) / rest;
  p[0] = heavy ? heavy : p[1];
  if (!heavy)
    for (double &y : p) y /= 1 + p[1];
  std::vector<SElem> el;
  for (size_t i = 0; i < k; ++i)
    el.push_back({term(at->l, xs[i]), r.pick(subs), std::log(p[i])});
  sp.root = sp.dec(at, el);
  PsddNode *root = build(sp.root, w.m, any_flag(r), nullptr, &r);
  RandomDoubleFromUniformGenerator g(0, 1, (uint)r.u64());
  std::map<unsigned, size_t> index;
  for (size_t i = 0; i < k; ++i) index[xs[i]] = i;
  const int bins = 16, N = 4000;
  std::vector<int> bin(k);
  std::vector<double> mass(bins), got(bins);
  for (size_t i = 0; i < k; ++i) mass[(size_t)(bin[i] = i ? (int)r.below(bins) : 0)] += p[i];
  for (int j = 0; j < N; ++j) {
    Bits b;
    root->DirectSample(&b, &g);
    unsigned x = 0;
    for (int i = 0; i < nl; ++i) x |= (unsigned)b[(size_t)lv[(size_t)i]] << i;
    auto it = index.find(x);
    c.check(it != index.end(), "support", "an impossible assignment was drawn from a wide node");
    if (it != index.end()) got[(size_t)bin[it->second]] += 1;
  }
  for (int i = 0; i < bins; ++i) {
    double q = std::min(1.0, mass[(size_t)i]), sd = std::sqrt(N * q * (1 - q));
    c.check(std::fabs(got[(size_t)i] - N * q) <= 8 * sd + 12, "frequency",
            S("a sixteenth of ", k, " elements drawn ", got[(size_t)i], " times of ", N,
              ", probability ", q));
  }
  c.sample(S("node of ", k, " elements, one of weight ", heavy));
  c.count("samples", N);
  c.count("rare_element_nodes");
  c.nontrivial(mix(spec_hash(sp.root), k));
}
void run_case(Case &c) {
  if (c.index % 40 == 13) return rare_elements(c);
  Rng &r = c.rng;
  World w;
  bool big = c.index % 6 == 5;
  int n = big ? r.range(10, c.thorough ? 200 : 80) : r.range(1, 6);
  make_world(c, n, &w);
  Spec sp;
  int style = (int)r.below(7);
  any_spec(c, w, style, &sp);
  PsddNode *root = build(sp.root, w.m, 0, nullptr, &r);
  Import imp;
  std::string bad = audit(root, w, raw_opts(), &imp);
  c.check(bad.empty(), "audit", bad);
  const SNode *s = imp.spec.root;
  std::string what = ctx(w, imp.spec);
  c.sample(S("n=", n, what).substr(0, 500));
  double lo = 0, hi = 1;
  if (r.chance(0.4)) lo = -10 + 20 * r.real(), hi = lo + 0.1 + 20 * r.real();
  Bits mine;
  for (int v : w.vars()) mine.set((size_t)v);
  Bits junk;  // variables the PSDD does not mention
  for (int i = 0; i < 5; ++i) {
    size_t v = r.below(MAX_VAR);
    if (!mine[v]) junk.set(v);
  }
  auto draw = [&](RandomDoubleFromUniformGenerator &g, Evid *e, const char *how) {
    Bits b = junk;
    root->DirectSample(&b, &g);
    if ((b & ~mine) != junk)
      c.check(false, "foreign-variables", S("sampling touched other variables", what));
    for (int v : w.vars()) (*e)[v] = b[(size_t)v];
    LD p = o_logp(s, *e);
    if (p == NEG_INF())
      c.check(false, "support",
              S(how, " draws gave the impossible assignment ", evid_str(*e), what));
    c.checks += 2;
  };
  // adversarial draws stay inside the support
  for (int m = 0; m < 5; ++m)
    for (int k = 0; k < 6; ++k) {
      Forced g(lo, hi, r.u64(), m);
      Evid e;
      draw(g, &e, "extreme");
      c.count("adversarial_samples");
    }
  // frequencies
  uint seed = (uint)r.u64();
  RandomDoubleFromUniformGenerator g(lo, hi, seed), g2(lo, hi, seed);
  int N = big ? 300 : (c.thorough ? 20000 : 4000);
  std::vector<uint32_t> freq(big ? 0 : (size_t)1 << n);
  std::vector<uint32_t> ones((size_t)n);
  for (int i = 0; i < N; ++i) {
    Evid e;
    if (big) {
      draw(g, &e, "uniform");
    } else {
      Bits b;
      root->DirectSample(&b, &g);
      for (int v : w.vars()) e[v] = b[(size_t)v];
    }
    uint64_t idx = 0;
    for (int j = 0; j < n; ++j)
      if (e[w.vars()[(size_t)j]]) {
        ++ones[(size_t)j];
        if (!big) idx |= 1ull << j;
      }
    if (!big) ++freq[idx];
    if (i < 20) {
      Bits b;
      root->DirectSample(&b, &g2);
      for (int v : w.vars())
        c.check((int)b[(size_t)v] == e[v], "deterministic", "same seed, different samples");
    }
  }
  c.count("samples", (uint64_t)N);
  auto bound = [&](double k, LD logp, const std::string &of) {
    double p = (double)std::exp(logp);
    if (p > 1) p = 1;
    double mean = N * p, sd = std::sqrt(N * p * (1 - p));
    c.check(std::fabs(k - mean) <= 8 * sd + 12, "frequency",
            S(of, " sampled ", k, " times of ", N, ", probability ", p, what));
    if (logp == NEG_INF())
      c.check(k == 0, "support", S("impossible ", of, " sampled ", k, " times", what));
  };
  if (!big) {
    auto dense = o_dense(s);
    for (uint64_t i = 0; i < dense.size(); ++i)
      bound(freq[i], dense[i], evid_str(assignment(w.vars(), i)));
  }
  for (int j = 0; j < n; ++j)
    bound(ones[(size_t)j], o_logp(s, {{w.vars()[(size_t)j], 1}}), S("variable ", w.vars()[(size_t)j]));
  bad = state_clean(imp);
  c.check(bad.empty(), "state", bad);
  if (s->kind == DEC && o_count(s) > 1) c.nontrivial(spec_hash(s));
}
}  // namespace vh
