// CNF files and their compilation.
#include "ops.h"
#include <psdd/cnf.h>
using namespace vh;
namespace vh {
const char *const kProperty = "C24";
const char *const kRule =
    "random clause sets (unit, empty, duplicate and tautological clauses included) over the "
    "variables of a random vtree, given as objects and as files in varied layouts, compiled "
    "and compared with the models by brute force (up to 11 variables) or on sampled "
    "assignments and planted solutions (up to 40; some clauses with 120-720 literals, some "
    "sets of 120-10000 clauses, lines up to 65000 characters); missing files in a child process; "
    "non-trivial = satisfiable and not valid, distinct by clauses and vtree";
int num_cases(bool t) { return t ? 40000 : 2000; }
typedef std::vector<std::vector<SddLiteral>> Clauses;
static bool sat(const Clauses &cl, const Evid &e) {
  for (auto &k : cl) {
    bool ok = false;
    for (SddLiteral l : k)
      if (e.at((int)std::labs(l)) == (l > 0)) ok = true;
    if (!ok) return false;
  }
  return true;
}
static std::string str(const Clauses &cl) {
  std::string s;
  for (auto &k : cl) {
    s += "(";
    for (auto l : k) s += S(l, " ");
    s += ")";
  }
  return s;
}
static std::string text_of(Rng &r, const Clauses &cl, int n) {
  std::string s;
  const char *nl = r.chance(0.25) ? "\r\n" : "\n";
  auto noise = [&] {
    while (r.chance(0.2)) {
      switch (r.below(4)) {
        case 0:
          s += "c 1 2 -3 0";
          if (r.chance(0.02))  // a comment longer than any line buffer
            for (int left = (int)r.pick(std::vector<int>{255, 1024, 4096, 65536}); left > 0; left -= 7)
              s += " 1 -2 0";
          break;
        case 1: s += "c"; break;
        case 2: break;  // blank
        default: s += r.chance(0.5) ? "   " : "\t"; break;
      }
      s += nl;
    }
  };
  noise();
  if (r.chance(0.8)) s += S("p cnf ", n, " ", cl.size()) + nl;
  for (size_t i = 0; i < cl.size(); ++i) {
    noise();
    if (r.chance(0.2)) s += r.chance(0.5) ? " " : "\t";
    bool wide = r.chance(0.003);  // padded far beyond a line buffer
    for (auto l : cl[i]) {
      if (wide) s += std::string((size_t)r.range(100, 9000), ' ');
      s += S(l) + (r.chance(0.1) ? "  " : r.chance(0.1) ? "\t" : " ");
    }
    if (cl[i].empty() || r.chance(0.85)) s += "0";
    if (r.chance(0.1)) s += " ";
    if (i + 1 < cl.size() || r.chance(0.7)) s += nl;
  }
  if (!s.empty() && s.back() == '\n') noise();
  return s;
}
// clauses with hundreds of literals, or hundreds of clauses
static void mass_case(Case &c, bool round) {
  Rng &r = c.rng;
  World w;
  bool longc = r.chance(0.6);
  int n = longc ? r.range(130, 320) : r.range(6, 9);
  static const int lens[] = {128, 200, 256, 256, 300, 400, 500, 512, 700};
  static const int sets[] = {256, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 10000};
  int len1 = 0, m1 = 0;
  if (round) {  // at and around round sizes
    longc = c.index / 100 % 2 == 0;
    len1 = lens[c.index / 200 % 9] + r.range(0, 1);
    m1 = sets[c.index / 200 % 10] + r.range(0, 1);
    n = longc ? len1 + r.range(0, 20) : r.range(6, 9);
  }
  make_world(c, n, &w);
  const auto &vars = w.vars();
  Evid planted = assignment(vars, 0);
  for (int v : vars) planted[v] = (int)r.below(2);
  Clauses cl;
  int m = longc ? r.range(1, 3) : round ? m1 : r.range(120, 600);
  int last = r.chance(0.5) ? m - 1 : -1;  // the last clause may say more than the others
  for (int i = 0; i < m; ++i) {
    std::vector<int> o = vars;
    r.shuffle(o);
    int len = longc ? (i == 0 ? round ? len1 : r.range(120, n) : r.range(1, 4))
                    : i == last ? 1 : r.range(std::max(2, n - 3), n);
    std::vector<SddLiteral> k;
    bool ok = false;
    for (int j = 0; j < len; ++j) {
      // nearly all literals miss the planted solution: the last ones decide
      bool hit = j == len - 1 || r.chance(0.02);
      int v = o[(size_t)j];
      ok = ok || hit;
      k.push_back(planted[v] == (hit ? 1 : 0) ? v : -v);
    }
    cl.push_back(k);
  }
  std::string text = text_of(r, cl, n);
  std::string what = S(m, " clauses, ", n, " variables");
  c.sample(what);
  CNF file(write_tmp(c, "f.cnf", text).c_str());
  c.check(file.clauses() == cl, "parse", "not the clauses of the file; " + what);
  uintmax_t flag = any_flag(r);
  PsddNode *p = file.Compile(w.m, flag);
  c.check(p != nullptr, "planted", "no result; " + what);
  Import imp;
  AuditOpts o;
  o.normalised = false;
  o.flag = flag;
  std::string e = audit(p, w, o, &imp);
  c.check(e.empty(), "audit", e + "; " + what);
  for (int i = 0; i < 200; ++i) {
    Evid q = planted;
    if (i % 4 == 1) q = support_assignment(r, imp.spec.root);
    if (i % 4 == 2 && !cl.empty()) {  // falsify one clause, but for one literal perhaps
      auto &k = r.pick(cl);
      for (auto l : k) q[(int)std::labs(l)] = l < 0;
      if (r.chance(0.5)) q[(int)std::labs(r.pick(k))] ^= 1;
    }
    if (i % 4 == 3)
      for (int v : vars) q[v] = (int)r.below(2);
    c.check(o_consistent(imp.spec.root, q) == sat(cl, q), "models",
            S("assignment ", evid_str(q), "; ", what));
  }
  if (!longc) {
    uint64_t models = 0;
    for (uint64_t i = 0; i < 1ull << n; ++i) models += sat(cl, assignment(vars, i));
    c.check(o_count(imp.spec.root) == mpz_class((unsigned long)models), "count",
            S(o_count(imp.spec.root).get_str(), " models, expected ", models, "; ", what));
  }
  c.count(longc ? "long_clauses" : "many_clauses");
  c.nontrivial(mix(hash_str(text), hash_str(vt_str(w.vt.root))));
}
void run_case(Case &c) {
  Rng &r = c.rng;
  if (c.index % 100 == 57) return mass_case(c, false);
  if (c.index % 100 == 7) return mass_case(c, true);
  World w;
  bool big = c.index % 12 == 5;
  int n = big ? r.range(12, 40) : r.range(1, c.index % 12 == 6 ? 11 : 8);
  // (over many variables constraints can be too large to compile)
  make_world(c, n, &w, -1, big ? (int)r.below(4) : -1);
  const auto &vars = w.vars();
  Evid planted = assignment(vars, 0);
  for (int v : vars) planted[v] = (int)r.below(2);
  Clauses cl;
  int m = r.chance(0.08) ? 0 : r.range(1, big ? (n > 24 ? 5 : 7) : 2 * n);
  for (int i = 0; i < m; ++i) {
    std::vector<SddLiteral> k;
    int len = r.chance(0.02) ? 0 : r.chance(0.15) ? 1 : r.range(1, std::min(n, 5));
    if (big && len == 0) len = 1;
    for (int j = 0; j < len; ++j) k.push_back(r.pick(vars) * (r.chance(0.5) ? 1 : -1));
    if (big || r.chance(0.5)) {  // keep a known solution
      bool ok = false;
      for (auto l : k) ok = ok || planted[(int)std::labs(l)] == (l > 0);
      if (!ok && !k.empty()) k[r.below(k.size())] *= -1;
      ok = false;
      for (auto l : k) ok = ok || planted[(int)std::labs(l)] == (l > 0);
      if (!ok && !k.empty()) {
        int v = r.pick(vars);
        k.push_back(planted[v] ? v : -v);
      }
    }
    cl.push_back(k);
  }
  if (!cl.empty() && r.chance(0.1)) cl.push_back(r.pick(cl));
  // clauses that are alike: another order, all signs turned, the same
  // length and the same sum or sum of squares of their literals
  if (!cl.empty() && n >= 2 && r.chance(big ? 0.1 : 0.3)) {
    for (int i = r.range(1, big ? 2 : 5); i > 0; --i) {
      auto k = r.pick(cl);
      if (k.empty()) continue;
      int how = (int)r.below(big ? 2 : 5);
      if (how <= 1) r.shuffle(k);
      if (how == 2 || how == 3)
        for (auto &l : k)
          if (how == 2 || r.chance(0.5)) l = -l;
      if (how == 4) {  // keep the sum: one literal up, another one down
        std::vector<SddLiteral> pos(vars.begin(), vars.end());
        std::sort(pos.begin(), pos.end());
        size_t x = r.below(k.size()), y = r.below(k.size());
        auto ok = [&](SddLiteral l) {
          return l != 0 && std::binary_search(pos.begin(), pos.end(), std::labs(l));
        };
        if (x != y && ok(k[x] + 1) && ok(k[y] - 1)) ++k[x], --k[y];
      }
      cl.push_back(k);
    }
    c.count("alike_clauses");
  }
  std::string text = text_of(r, cl, n);
  std::string what = S(str(cl), " over ", vt_str(w.vt.root));
  c.sample(what);
  CNF file(write_tmp(c, "f.cnf", text).c_str());
  c.check(file.clauses() == cl, "parse",
          S("read ", str(file.clauses()), " from\n", text, "\nexpected ", str(cl)));
  CNF obj(cl);
  c.check(obj.clauses() == cl, "clauses", what);
  uintmax_t flag = any_flag(r);
  PsddNode *p = file.Compile(w.m, flag);
  PsddNode *q = obj.Compile(w.m, flag);
  std::string bad = vtree_clean(w.m->vtree());
  c.check(bad.empty(), "vtree-state", bad);
  c.check(p == q, "same-node", "equal clause sets compile to different nodes; " + what);
  Import imp;
  if (p) {
    AuditOpts o;
    o.normalised = false;
    o.flag = flag;
    std::string e = audit(p, w, o, &imp);
    c.check(e.empty(), "audit", e + "; " + what);
    c.check(imp.spec.root->vt == w.vt.root, "root", "not over all variables; " + what);
  }
  if (n <= 11) {
    uint64_t models = 0, total = 1ull << n;
    std::vector<LD> d;
    if (p) d = o_dense(imp.spec.root);
    for (uint64_t i = 0; i < total; ++i) {
      bool want = sat(cl, assignment(vars, i));
      models += want;
      c.check((p && d[i] != NEG_INF()) == want, "models",
              S("assignment ", evid_str(assignment(vars, i)), want ? " lost" : " invented",
                "; ", what));
    }
    c.check((p == nullptr) == (models == 0), "unsat", S(models, " models; ", what));
    c.count(models == 0 ? "unsat" : models == total ? "valid" : "contingent");
    if (models && models < total)
      c.nontrivial(mix(hash_str(str(cl)), hash_str(vt_str(w.vt.root))));
  } else {
    c.check(p != nullptr && sat(cl, planted), "planted", "no result; " + what);
    mpz_class cnt = o_count(imp.spec.root);
    for (int i = 0; i < 200; ++i) {
      Evid e = i == 0 ? planted : i % 3 ? support_assignment(r, imp.spec.root) : planted;
      int flips = i % 3 ? (int)r.below(2) : i ? r.range(1, 6) : 0;
      for (int k = 0; k < flips; ++k) e[r.pick(vars)] ^= 1;
      c.check(o_consistent(imp.spec.root, e) == sat(cl, e), "models",
              S("assignment ", evid_str(e), "; ", what));
    }
    // number of models by exact case split
    std::function<mpz_class(Clauses, std::vector<int>)> count =
        [&](Clauses k, std::vector<int> left) -> mpz_class {
      for (auto &x : k)
        if (x.empty()) return 0;
      if (k.empty()) {
        mpz_class z = 1;
        return z << left.size();
      }
      int v = (int)std::labs(k[0][0]);
      left.erase(std::find(left.begin(), left.end(), v));
      mpz_class sum = 0;
      for (int s : {1, -1}) {
        Clauses k2;
        for (auto &x : k) {
          std::vector<SddLiteral> y;
          bool done = false;
          for (auto l : x) {
            if (l == s * v) done = true;
            if (l != -s * v && l != s * v) y.push_back(l);
          }
          if (!done) k2.push_back(y);
        }
        sum += count(k2, left);
      }
      return sum;
    };
    mpz_class want = count(cl, vars);
    c.check(cnt == want, "count", S(cnt.get_str(), " models, expected ", want.get_str(), "; ", what));
    c.count("large");
    c.nontrivial(mix(hash_str(str(cl)), hash_str(vt_str(w.vt.root))));
  }
  if (c.index % 60 == 2) {
    std::string err;
    int st = in_child([&] { CNF x((c.scratch + "/none.cnf").c_str()); }, 10, &err);
    c.check(WIFEXITED(st) && WEXITSTATUS(st) == 1 && !sanitizer_report(err), "missing-file",
            S("a missing file ends with ", status_str(st)));
    c.count("missing_files");
  }
}
}  // namespace vh
