// The network compiler command line tool, and the pipeline network -> PSDD -> queries.
#include "uai.h"
#include <sys/stat.h>
using namespace vh;
namespace vh {
const char *const kProperty = "C27";
const char *const kRule =
    "random networks (1-8 binary variables, up to 270 factors, zero/tiny/huge entries; some of 30-140 variables) compiled by the sanitized "
    "tool with each vtree method and with vtree files, from short, long and blank-containing "
    "paths; the files it writes and the printed constant against the product of the factors, "
    "and the inference tool's marginals on those files against exact ones; non-trivial = at "
    "least two factors and a positive sum, distinct by network and method";
int num_cases(bool t) { return t ? 15000 : 3000; }
static bool near6(double got, LD want) {
  if (want == NEG_INF() || std::isinf(got)) return std::isinf(got) && want == NEG_INF();
  return fabsl((LD)got - want) <= 2e-5L * fabsl(want) + 6e-5L;
}
static int lines_with(const std::string &out, const char *prefix, std::string *last) {
  std::istringstream is(out);
  std::string line;
  int k = 0;
  while (std::getline(is, line)) {
    size_t at = line.find(prefix);  // progress output may precede it on the line
    if (at != std::string::npos) {
      ++k;
      *last = line.substr(at + strlen(prefix));
    }
  }
  return k;
}
// many variables with local factors, over a vtree file in the same order
static void large_case(Case &c) {
  Rng &r = c.rng;
  int n = r.range(30, 140);
  std::vector<int> order;
  for (int v = 1; v <= n; ++v) order.push_back(v);
  r.shuffle(order);
  FactorNet f;
  f.n = n;
  f.bayes = r.chance(0.3);
  double zeros = r.pick(std::vector<double>{0, 0, 0.03});
  int scale = r.pick(std::vector<int>{0, 0, 1, 2});
  Evid planted;
  for (int v : order) planted[v] = (int)r.below(2);
  bool none = r.chance(0.08);
  auto add = [&](std::vector<int> s) {
    r.shuffle(s);
    std::vector<double> t;
    for (size_t i = 0; i < (size_t)1 << s.size(); ++i)
      t.push_back(r.chance(zeros) ? 0
                                  : (r.real() + 1e-4) * (scale == 0 ? 1 : scale == 1 ? 1e-9 : 1e8));
    size_t keep = 0;  // one assignment stays possible
    for (int v : s) keep = 2 * keep + (size_t)planted[v];
    if (t[keep] == 0) t[keep] = 0.5;
    f.scope.push_back(s);
    f.val.push_back(t);
  };
  for (int m = r.range(n / 2, 3 * n); m > 0; --m) {
    size_t a = r.below((size_t)n), k = (size_t)r.range(1, 3);
    std::vector<int> s;
    for (size_t j = a; j < a + k && j < (size_t)n; ++j) s.push_back(order[j]);
    add(s);
  }
  if (none) {  // a contradiction
    int v = r.pick(order);
    f.scope.push_back({v});
    f.val.push_back({0, 1});
    f.scope.push_back({v});
    f.val.push_back({1, 0});
  }
  VTree vt;
  VT *t = vt.new_leaf(order.back());
  for (size_t i = order.size() - 1; i-- > 0;) t = vt.new_node(vt.new_leaf(order[i]), t);
  vt.finish(t);
  Vtree *v = to_sdd(vt.root);
  std::string uai = c.scratch + "/big.uai", vp = c.scratch + "/big.in.vtree", out, err, part, un;
  sdd_vtree_save(vp.c_str(), v);
  sdd_vtree_free(v);
  write_tmp(c, "big.uai", uai_text(f));
  unlink((uai + ".psdd").c_str());
  unlink((uai + ".vtree").c_str());
  int st = run_tool({tool("UAI_COMPILER"), uai, vp}, c.scratch, 30, &out, &err);
  std::string what = S(n, " variables, ", f.scope.size(), " factors; ", status_str(st), "; ",
                       out.size() > 400 ? out.substr(out.size() - 400) : out, err.substr(0, 1500));
  c.sample(S(n, " variables, ", f.scope.size(), " factors"));
  c.check(!sanitizer_report(err), "memory", what);
  c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "status", what);
  LD z = eliminate(f, order);
  int has_un = lines_with(out, "UNSATISFIED", &un), has_z = lines_with(out, "Log Partition ", &part);
  c.count("large_networks");
  if (z == NEG_INF()) {
    c.check(has_un == 1 && has_z == 0 && access((uai + ".psdd").c_str(), F_OK) != 0, "unsatisfied",
            what);
    c.count("unsatisfied");
    return;
  }
  c.check(has_un == 0 && has_z == 1, "answer", what);
  c.check(access((uai + ".psdd").c_str(), R_OK) == 0 && access((uai + ".vtree").c_str(), R_OK) == 0,
          "files", "the output files are missing; " + what);
  v = sdd_vtree_read((uai + ".vtree").c_str());
  c.check(v != nullptr, "vtree-file", what);
  PsddManager *m = PsddManager::GetPsddManagerFromVtree(v);
  std::unique_ptr<PsddManager> own_m(m);
  sdd_vtree_free(v);
  std::unordered_map<Vtree *, const VT *> vm;
  c.check(map_vtree(vt.root, m->vtree(), &vm), "vtree-given", what);
  PsddNode *root = m->ReadPsddFile((uai + ".psdd").c_str(), 0);
  c.check(root != nullptr, "psdd-file", what);
  Import imp;
  AuditOpts o;
  o.normalised = false;
  std::string bad = import_audit(root, vm, o, &imp);
  c.check(bad.empty(), "audit", bad + "; " + what);
  c.check(imp.spec.root->vt == vt.root, "root", what);
  double tol = 1e-6 * (2 * n + (double)f.scope.size() + 4);
  c.check(near6(strtod(part.c_str(), nullptr), z), "partition",
          S("printed ", part, ", expected ", (double)z, "; ", what));
  for (int i = 0; i < 80; ++i) {
    Evid e = i % 3 == 0 ? planted : support_assignment(r, imp.spec.root);
    for (int k = i % 3 == 2 ? r.range(1, 3) : i % 3 == 0 ? r.range(0, 4) : 0; k > 0; --k)
      e[r.pick(order)] ^= 1;
    LD x = log_product(f, e), p = x == NEG_INF() ? x : x - z, got = o_logp(imp.spec.root, e);
    c.check(close(got, p, tol), "distribution",
            S("P(", evid_str(e), ") = exp(", (double)got, "), expected exp(", (double)p, "); ",
              what));
  }
  c.nontrivial(hash_str(uai_text(f)));
  if (!r.chance(0.5)) return;
  st = run_tool({tool("PSDD_INFERENCE_MAIN"), "--mar_query", uai + ".psdd", uai + ".vtree"},
                c.scratch, 20, &out, &err);
  std::string body, item;
  c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0 && !sanitizer_report(err) &&
              lines_with(out, "MAR result=", &body) == 1,
          "pipeline", status_str(st) + out.substr(0, 500) + err + what);
  std::istringstream bs(body);
  int seen = 0;
  while (std::getline(bs, item, ',')) {
    int var = atoi(item.c_str());
    size_t a = item.find(':'), b = item.find('|');
    c.check(a != std::string::npos && b != std::string::npos && var >= 1 && var <= n,
            "pipeline-format", body.substr(0, 500));
    ++seen;
    if (!r.chance(0.3)) continue;
    for (int k = 0; k < 2; ++k) {
      FactorNet g = f;
      g.scope.push_back({var});
      g.val.push_back({k ? 0. : 1., k ? 1. : 0.});
      LD x = eliminate(g, order), want = x == NEG_INF() ? x : x - z;
      double got = strtod(item.c_str() + (k ? b : a) + 1, nullptr);
      c.check(near6(got, want), "pipeline-marginal",
              S("variable ", var, "=", k, ": ", got, ", expected ", (double)want, "; ", what));
    }
  }
  c.check(seen == n, "pipeline-format", S(seen, " variables; ", body.substr(0, 500)));
  c.count("pipelines");
}
void run_case(Case &c) {
  Rng &r = c.rng;
  if (c.index % 100 == 31) return large_case(c);
  int method = r.pick(std::vector<int>{0, 1, 2, 4});
  int n = r.range(1, 8);
  FactorNet f = random_factors(r, n, method == 1);
  f.bayes = r.chance(0.3);
  if (r.chance(0.08)) {  // more factors than products between two clean-ups of the tool
    for (int k = r.range(100, 260); k > 0; --k) {
      std::vector<int> s;
      for (int want = std::min(n, r.range(1, 3)); (int)s.size() < want;) {
        int v = r.range(1, n);
        if (std::find(s.begin(), s.end(), v) == s.end()) s.push_back(v);
      }
      std::vector<double> t;
      for (size_t i = 0; i < (size_t)1 << s.size(); ++i)
        t.push_back(0.5 + r.real());
      f.scope.push_back(s);
      f.val.push_back(t);
    }
    c.count("many_factors");
  }
  if (method == 1 && f.scope.empty()) method = 2;
  std::string dir = c.scratch;
  if (r.chance(0.12)) {
    int k = r.range(1, 5);
    for (int i = 0; i < k; ++i) {
      dir += "/" + std::string((size_t)r.range(20, 180), 'p');
      mkdir(dir.c_str(), 0700);
    }
    c.count("long_paths");
  }
  std::string name = r.chance(0.1) ? "a network.uai" : r.chance(0.1) ? std::string(120, 'n') : "n.uai";
  std::string uai = dir + "/" + name;
  std::string text = uai_text(f);
  write_tmp(c, uai.substr(c.scratch.size() + 1), text);
  unlink((uai + ".psdd").c_str());
  unlink((uai + ".vtree").c_str());
  std::string marg = S(method), given_vtree;
  if (method == 0) {
    VTree vt;
    std::vector<int> order;
    for (int v = 1; v <= n; ++v) order.push_back(v);
    suited_vtree(r, f, order, &vt);
    Vtree *v = to_sdd(vt.root);
    given_vtree = vt_str(vt.root);
    marg = dir + "/in.vtree";
    std::string plain = r.pick(std::vector<std::string>{"1", "2", "4", "1.vtree", "2.vtree", "4.vtree", "4a", "11", "0", "3", "vtree", "-1"});
    if (r.chance(0.5)) marg = dir + "/" + plain;
    if (r.chance(0.4) && !(plain == "1" || plain == "2" || plain == "4")) {
      marg = plain;  // the tool runs in the scratch directory
    }
    std::string to = marg.find('/') == std::string::npos ? c.scratch + "/" + marg : marg;
    c.count(marg.find('/') == std::string::npos ? "vtree_names_alone" : "vtree_paths");
    sdd_vtree_save(to.c_str(), v);
    sdd_vtree_free(v);
  }
  setenv("VH_STUB_SEED", S(r.chance(0.1) ? 0 : (r.u64() >> 1) | 1).c_str(), 1);
  // the tool runs in c.scratch: the same file under other names
  std::string arg = uai;
  if (r.chance(0.4)) {
    std::string rel = uai.substr(c.scratch.size() + 1);
    arg = r.chance(0.4) ? rel : r.chance(0.5) ? "./" + rel : dir == c.scratch ? "./././" + rel
        : "." + dir.substr(c.scratch.size()) + "/../" + dir.substr(dir.rfind('/') + 1) + "/" + name;
    c.count("relative_paths");
  }
  std::vector<std::string> argv{tool("UAI_COMPILER"), arg, marg};
  std::string elsewhere = c.scratch + "/elsewhere";
  mkdir(elsewhere.c_str(), 0700);
  if (r.chance(0.5)) argv.push_back(r.chance(0.4) ? dir : r.chance(0.5) ? elsewhere : "elsewhere");
  std::string out, err;
  int st = run_tool(argv, c.scratch, 30, &out, &err);
  std::string what = S("method ", method, ", path of ", uai.size(), " characters, network\n",
                       text.substr(0, 1000), "\noutput: ",
                       out.size() > 600 ? out.substr(out.size() - 600) : out,
                       err.substr(0, 1500));
  c.sample(S("method ", method, " ", text.substr(0, 150)));
  c.check(!sanitizer_report(err), "memory", what);
  c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "status", status_str(st) + "; " + what);
  std::vector<int> all;
  for (int v = 1; v <= n; ++v) all.push_back(v);
  LD z = log_z(f, all);
  std::string part, un;
  int has_un = lines_with(out, "UNSATISFIED", &un);
  int has_z = lines_with(out, "Log Partition ", &part);
  c.count(method == 0 ? "vtree_file" : method == 1 ? "hypergraph" : method == 2 ? "jointree" : "minfill");
  if (z == NEG_INF()) {
    c.check(has_un == 1 && has_z == 0, "unsatisfied", what);
    c.check(access((uai + ".psdd").c_str(), F_OK) != 0, "unsatisfied-file",
            "a distribution is written; " + what);
    c.count("unsatisfied");
    return;
  }
  c.check(has_un == 0 && has_z == 1, "answer", what);
  c.check(access((uai + ".psdd").c_str(), R_OK) == 0 && access((uai + ".vtree").c_str(), R_OK) == 0,
          "files", "the output files are missing; " + what);
  Vtree *v = sdd_vtree_read((uai + ".vtree").c_str());
  c.check(v != nullptr, "vtree-file", what);
  PsddManager *m = PsddManager::GetPsddManagerFromVtree(v);
  std::unique_ptr<PsddManager> own_m(m);
  sdd_vtree_free(v);
  VTree own;
  own.finish(import_vtree(m->vtree(), &own));
  std::vector<int> vs = own.root->vars;
  std::sort(vs.begin(), vs.end());
  c.check(vs == all, "vtree-file", "not every variable once; " + what);
  c.check(given_vtree.empty() || vt_str(own.root) == given_vtree, "vtree-given",
          S("the vtree file is ", vt_str(own.root), ", given was ", given_vtree, "; ", what));
  std::unordered_map<Vtree *, const VT *> vm;
  map_vtree(own.root, m->vtree(), &vm);
  PsddNode *root = m->ReadPsddFile((uai + ".psdd").c_str(), 0);
  c.check(root != nullptr, "psdd-file", what);
  Import imp;
  AuditOpts o;
  o.normalised = false;
  std::string bad = import_audit(root, vm, o, &imp);
  c.check(bad.empty(), "audit", bad + "; " + what);
  c.check(imp.spec.root->vt == own.root, "root", what);
  double lz = strtod(part.c_str(), nullptr);
  auto d = o_dense(imp.spec.root);
  const auto &vars = own.root->vars;
  LD cz = 0;  // the printed constant belongs to this distribution
  bool have = false;
  double tol = 1e-6 * (2 * n + (double)f.scope.size() + 4);
  for (uint64_t i = 0; i < d.size(); ++i) {
    Evid e = assignment(vars, i);
    LD x = log_product(f, e);
    LD p = x == NEG_INF() ? x : x - z;
    c.check(close(d[i], p, tol), "distribution",
            S("P(", evid_str(e), ") = exp(", (double)d[i], "), expected exp(", (double)p, "); ",
              what));
    if (x != NEG_INF() && !have) {
      cz = x - p;
      have = true;
    }
  }
  c.check(near6(lz, cz), "partition",
          S("printed ", lz, ", expected ", (double)cz, "; ", what));
  c.count("assignments", d.size());
  if (r.chance(0.5)) {
    st = run_tool({tool("PSDD_INFERENCE_MAIN"), "--mar_query", uai + ".psdd", uai + ".vtree"},
                  c.scratch, 20, &out, &err);
    std::string body;
    c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0 && !sanitizer_report(err) &&
                lines_with(out, "MAR result=", &body) == 1,
            "pipeline", status_str(st) + out + err + what);
    std::istringstream bs(body);
    std::string item;
    int seen = 0;
    while (std::getline(bs, item, ',')) {
      int var = atoi(item.c_str());
      size_t a = item.find(':'), b = item.find('|');
      c.check(a != std::string::npos && b != std::string::npos && var >= 1 && var <= n,
              "pipeline-format", body);
      LD p[2] = {NEG_INF(), NEG_INF()};
      for (uint64_t k = 0; k < (1ull << n); ++k) {
        LD x = log_product(f, assignment(all, k));
        p[k >> (var - 1) & 1] = lse(p[k >> (var - 1) & 1], x);
      }
      for (int k = 0; k < 2; ++k) {
        double got = strtod(item.c_str() + (k ? b : a) + 1, nullptr);
        LD want = p[k] == NEG_INF() ? p[k] : p[k] - z;
        c.check(near6(got, want), "pipeline-marginal",
                S("variable ", var, "=", k, ": ", got, ", expected ", (double)want, "; ", what));
      }
      ++seen;
    }
    c.check(seen == n, "pipeline-format", body);
    c.count("pipelines");
  }
  if (f.scope.size() > 1) c.nontrivial(mix(hash_str(text), (uint64_t)method));
  if (c.index % 50 == 9) {
    std::string o2, e2;
    st = run_tool({tool("UAI_COMPILER"), uai + ".none", "4"}, c.scratch, 20, &o2, &e2);
    c.check(st != -1 && !(WIFEXITED(st) && WEXITSTATUS(st) == 0), "missing-file",
            status_str(st) + o2 + e2);
  }
}
}  // namespace vh
