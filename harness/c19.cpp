// Factor graphs compiled to PSDDs.
#include "uai.h"
#include <psdd/pgm_compiler.h>
extern "C" uint64_t vh_stub_seed;
using namespace vh;
namespace vh {
const char *const kProperty = "C19";
const char *const kRule =
    "random factor graphs (1-10 binary variables, arity 0-5, zero/tiny/huge entries, repeated "
    "scopes, none, one or many factors) compiled by each strategy and garbage collection "
    "rate over random vtree files and the three vtree constructions; every complete "
    "assignment against the product of the factors; single factors likewise; networks of "
    "20-80 variables, of 200-700 factors and with factors over 12-18 variables on sampled "
    "assignments and against variable elimination; non-trivial = "
    "at least two factors and a positive sum, distinct by network, vtree and strategy";
int num_cases(bool t) { return t ? 40000 : 2500; }

// many variables with local factors (style 0), many factors (1), one factor over many
// variables (2, 3): sampled assignments and the sum by variable elimination
static void large_case(Case &c, int style) {
  Rng &r = c.rng;
  int n = style == 0 ? r.range(20, 80) : style == 1 ? r.range(2, 8)
          : style == 2 ? r.range(12, 14) : r.range(15, 18);
  std::vector<int> order;
  for (int v = 1; v <= n; ++v) order.push_back(v);
  r.shuffle(order);
  FactorNet f;
  f.n = n;
  double zeros = r.pick(std::vector<double>{0, 0, 0.03});
  if (style == 3) zeros = 0.999;
  Evid planted;
  for (int v : order) planted[v] = (int)r.below(2);
  auto add = [&](std::vector<int> s) {
    r.shuffle(s);
    std::vector<double> t;
    for (size_t i = 0; i < (size_t)1 << s.size(); ++i)
      t.push_back(r.chance(zeros) ? 0 : style == 1 ? 0.5 + r.real() : r.real() + 1e-4);
    size_t keep = 0;  // one assignment stays possible
    for (int v : s) keep = 2 * keep + (size_t)planted[v];
    if (t[keep] == 0) t[keep] = 0.5;
    f.scope.push_back(s);
    f.val.push_back(t);
  };
  if (style >= 2) {
    add(order);
    for (int i = r.range(0, 2); i > 0; --i) add({r.pick(order)});
  } else {
    int m = style == 0 ? r.range(n, 3 * n) : r.range(200, 700);
    for (int v : order) add({v});
    for (int i = 0; i < m; ++i) {
      size_t a = r.below((size_t)n), k = (size_t)r.range(1, 3);
      std::vector<int> s;
      for (size_t j = a; j < a + k && j < (size_t)n; ++j) s.push_back(order[j]);
      add(s);
    }
  }
  std::string text = uai_text(f);
  int mode = style != 1 ? 0 : r.pick(std::vector<int>{0, 0, 1, 2, 4});
  vh_stub_seed = r.u64() | 1;
  PgmCompiler pc(c.scratch);
  pc.read_uai_file(write_tmp(c, "n.uai", text).c_str());
  if (mode == 0) {
    // variables one by one on the left, in the order in which the factors are local
    VTree vt;
    VT *t = vt.new_leaf(order.back());
    for (size_t i = order.size() - 1; i-- > 0;) t = vt.new_node(vt.new_leaf(order[i]), t);
    vt.finish(t);
    Vtree *v = to_sdd(vt.root);
    std::string p = c.scratch + "/n.vtree";
    sdd_vtree_save(p.c_str(), v);
    pc.init_psdd_manager_from_vtree(p.c_str());
    sdd_vtree_free(v);
  } else {
    pc.init_psdd_manager((char)mode);
  }
  VTree own;
  own.finish(import_vtree(pc.psdd_manager()->vtree(), &own));
  std::unordered_map<Vtree *, const VT *> vm;
  map_vtree(own.root, pc.psdd_manager()->vtree(), &vm);
  std::vector<int> vars = own.root->vars;
  std::string what = S(n, " variables, ", f.scope.size(), " factors, vtree by ", mode);
  c.sample(what);
  LD z = eliminate(f, order);
  size_t gc = r.pick(std::vector<int>{1, 7, 100, 1000});
  int strategy = (int)r.below(3);
  auto res = strategy == 0   ? pc.compile_network(gc)
             : strategy == 1 ? pc.compile_network_with_vtree(gc)
                             : pc.compile_network_dc(gc);
  what += S(", strategy ", strategy, ", clean-up rate ", gc);
  c.check(res.first != nullptr, "lost", "no distribution although the sum is positive; " + what);
  double tol = 1e-6 * (double)(f.scope.size() + (size_t)n + 2);
  c.check(close(res.second.parameter(), z, tol), "constant",
          S("constant exp(", res.second.parameter(), "), expected exp(", (double)z, "); ", what));
  AuditOpts o;
  o.positive = true;
  Import imp;
  std::string bad = import_audit(res.first, vm, o, &imp);
  c.check(bad.empty(), "audit", bad + "; " + what);
  c.check(imp.spec.root->vt == own.root, "root", "not over all variables; " + what);
  for (int i = 0; i < 100; ++i) {
    Evid e = i % 3 == 0 ? planted : support_assignment(r, imp.spec.root);
    for (int k = i % 3 == 2 ? r.range(1, 3) : i % 3 == 0 ? r.range(0, 4) : 0; k > 0; --k)
      e[r.pick(vars)] ^= 1;
    LD x = log_product(f, e), p = x == NEG_INF() ? x : x - z, got = o_logp(imp.spec.root, e);
    c.check(close(got, p, tol), "distribution",
            S("P(", evid_str(e), ") = exp(", (double)got, "), expected exp(", (double)p, "); ",
              what));
  }
  c.count(style == 0 ? "large_networks" : style == 1 ? "many_factors" : "large_factors");
  c.nontrivial(mix(hash_str(text + vt_str(own.root)), (uint64_t)strategy * 1000 + gc));
}

void run_case(Case &c) {
  Rng &r = c.rng;
  if (c.index == 0) {
    // known finding: a vtree where two variables of a larger factor sit together on a left side
    std::string u = write_tmp(c, "k.uai", "MARKOV\n3\n2 2 2\n1\n3 0 1 2\n\n8\n1 2 3 4 5 6 7 8\n");
    std::string t = write_tmp(c, "k.vtree",
                              "vtree 5\nL 0 1\nL 2 2\nI 1 0 2\nL 4 3\nI 3 1 4\n"), err;
    int st = in_child(
        [&] {
          PgmCompiler pc(c.scratch);
          pc.read_uai_file(u.c_str());
          pc.init_psdd_manager_from_vtree(t.c_str());
          auto res = pc.compile_network_dc(1);
          if (res.first == nullptr || std::fabs(res.second.parameter() - std::log(36.0)) > 1e-9)
            _exit(3);
        },
        20, &err);
    c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "vtree-two-left",
            S("a factor over 1,2,3 and the vtree ((1 2) 3): ", status_str(st)));
  }
  if (c.index % 50 == 17) return large_case(c, 0);
  if (c.index % 50 == 37) return large_case(c, 1);
  if (c.index % 500 == 227) return large_case(c, 2);
  if (c.index % 500 == 477) return large_case(c, 3);
  int mode = r.chance(0.5) ? 0 : r.pick(std::vector<int>{1, 2, 4});
  int n = r.range(1, c.index % 20 == 3 ? 10 : 7);
  FactorNet f = random_factors(r, n, mode == 1);
  f.bayes = r.chance(0.3);
  if (mode == 1 && f.scope.empty()) mode = 0;
  std::string text = uai_text(f);
  vh_stub_seed = r.chance(0.1) ? 0 : r.u64() | 1;
  PgmCompiler pc(c.scratch);
  pc.read_uai_file(write_tmp(c, "n.uai", text).c_str());
  if (mode == 0) {
    VTree vt;
    std::vector<int> order;
    for (int v = 1; v <= n; ++v) order.push_back(v);
    r.shuffle(order);
    suited_vtree(r, f, order, &vt);
    Vtree *v = to_sdd(vt.root);
    std::string p = c.scratch + "/n.vtree";
    sdd_vtree_save(p.c_str(), v);
    pc.init_psdd_manager_from_vtree(p.c_str());
    std::unordered_map<Vtree *, const VT *> m;
    c.check(map_vtree(vt.root, pc.psdd_manager()->vtree(), &m), "vtree",
            S("the manager has ", vtree_str(pc.psdd_manager()->vtree()), " instead of ",
              vt_str(vt.root)));
    sdd_vtree_free(v);
    c.count("vtree_file");
  } else {
    pc.init_psdd_manager((char)mode);
    c.count(mode == 1 ? "hypergraph" : mode == 2 ? "jointree" : "minfill");
  }
  VTree own;
  own.finish(import_vtree(pc.psdd_manager()->vtree(), &own));
  std::unordered_map<Vtree *, const VT *> vm;
  map_vtree(own.root, pc.psdd_manager()->vtree(), &vm);
  std::vector<int> vars = own.root->vars;
  std::string what = S("vtree ", vt_str(own.root), " network\n", text.substr(0, 1200));
  c.sample(what.substr(0, 200));
  {
    std::vector<int> s = vars;
    std::sort(s.begin(), s.end());
    std::vector<int> all;
    for (int v = 1; v <= n; ++v) all.push_back(v);
    c.check(s == all, "variables", "not every variable once in the vtree; " + what);
  }
  AuditOpts o;
  o.positive = true;
  auto examine = [&](const std::pair<PsddNode *, PsddParameter> &res, const char *how,
                     std::function<LD(const Evid &)> want, LD z) {
    std::string w = S(how, ": ", what);
    if (z == NEG_INF()) {
      c.check(res.first == nullptr, "zero", "a distribution although the sum is zero; " + w);
      c.check(res.second.parameter() == (double)NEG_INF(), "zero-constant",
              S("constant exp(", res.second.parameter(), ") although the sum is zero; ", w));
      c.count("zero_networks");
      return;
    }
    c.check(res.first != nullptr, "lost", "no distribution although the sum is positive; " + w);
    Import imp;
    std::string bad = import_audit(res.first, vm, o, &imp);
    c.check(bad.empty(), "audit", bad + "; " + w);
    c.check(imp.spec.root->vt == own.root, "root", "not over all variables; " + w);
    auto d = o_dense(imp.spec.root);
    LD lz = res.second.parameter();
    double tol = 1e-6 * (double)(f.scope.size() + 2);
    for (uint64_t i = 0; i < d.size(); ++i) {
      Evid e = assignment(vars, i);
      LD x = want(e);
      LD p = x == NEG_INF() ? x : x - z;
      c.check(close(d[i], p, tol), "distribution",
              S("P(", evid_str(e), ") = exp(", (double)d[i], "), expected exp(", (double)p,
                "); ", w));
      if (x != NEG_INF())
        c.check(close(d[i] + lz, x, tol), "constant",
                S("constant exp(", (double)lz, ") times P(", evid_str(e), ") is exp(",
                  (double)(d[i] + lz), "), the factors multiply to exp(", (double)x, "); ", w));
    }
    c.count("assignments", d.size());
  };
  // single factors
  for (size_t i = 0; i < f.scope.size(); ++i) {
    if (i >= 3 && !r.chance(0.3)) continue;
    auto one = [&](const Evid &e) { return log_factor(f, i, e); };
    LD z = NEG_INF();
    for (uint64_t k = 0; k < (1ull << vars.size()); ++k)
      z = lse(z, one(assignment(vars, k)));
    auto res = pc.compile_factor(i);
    if (z != NEG_INF() || !f.scope[i].empty()) {
      // a factor's distribution; its constant is over its own variables
      if (z == NEG_INF()) {
        c.check(res.first == nullptr, "zero-factor", S("factor ", i, " ", what));
      } else {
        LD zs = z - (LD)(vars.size() - f.scope[i].size()) * logl(2.0L);
        c.check(res.first != nullptr, "lost-factor", S("factor ", i, " ", what));
        c.check(close(res.second.parameter(), zs, 1e-6), "factor-constant",
                S("factor ", i, " sums to exp(", res.second.parameter(), "), expected exp(",
                  (double)zs, "); ", what));
        Import imp;
        AuditOpts fo = o;
        fo.normalised = false;
        std::string bad = import_audit(res.first, vm, fo, &imp);
        c.check(bad.empty(), "factor-audit", bad + "; " + what);
        auto d = o_dense(imp.spec.root);
        for (uint64_t k = 0; k < d.size(); ++k) {
          LD x = one(assignment(vars, k));
          c.check((d[k] == NEG_INF()) == (x == NEG_INF()), "factor-support",
                  S("factor ", i, " at ", evid_str(assignment(vars, k)), "; ", what));
        }
        for (uint64_t k = 0; k + 1 < d.size(); ++k) {
          LD x = one(assignment(vars, k)), y = one(assignment(vars, k + 1));
          if (x != NEG_INF() && y != NEG_INF())
            c.check(close(d[k] - d[k + 1], x - y, 1e-6), "factor-ratio",
                    S("factor ", i, " at ", evid_str(assignment(vars, k)), "; ", what));
        }
      }
    }
    c.count("factors");
  }
  auto product = [&](const Evid &e) { return log_product(f, e); };
  LD z = log_z(f, vars);
  std::vector<int> strategies{0, 1, 2};
  r.shuffle(strategies);
  int runs = r.range(1, 3);
  for (int k = 0; k < runs; ++k) {
    int s = strategies[(size_t)k];
    size_t gc = r.pick(std::vector<int>{1, 1, 2, 3, 100});
    if (s == 0) examine(pc.compile_network(gc), "sequential", product, z);
    if (s == 1) examine(pc.compile_network_with_vtree(gc), "by vtree", product, z);
    if (s == 2) examine(pc.compile_network_dc(gc), "divide and conquer", product, z);
    c.count(s == 0 ? "sequential" : s == 1 ? "by_vtree" : "divide_conquer");
    if (z != NEG_INF() && f.scope.size() > 1)
      c.nontrivial(mix(hash_str(text + vt_str(own.root)), (uint64_t)s * 1000 + gc));
  }
}
}  // namespace vh
