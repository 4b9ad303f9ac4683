// The inference command line tool.
#include "ops.h"
using namespace vh;
namespace vh {
const char *const kProperty = "C25";
const char *const kRule =
    "random PSDD and vtree files written by the harness, random CNF evidence (satisfiable, "
    "contradictory, outside the support, over few variables; up to 9 variables, some 12-90 with evidence on single variables), every combination of queries "
    "and argument spellings, run as a process of the sanitized tool; printed answers against "
    "exact conditioning; missing files; non-trivial = a query answered, distinct by inputs";
int num_cases(bool t) { return t ? 20000 : 1500; }
typedef std::vector<std::vector<int>> Clauses;
static std::string psdd_text(const SNode *root) {
  auto nodes = spec_nodes(root);
  std::map<const SNode *, size_t> id;
  std::string s = S("c psdd\npsdd ", nodes.size(), "\n");
  for (auto *x : nodes) {
    size_t k = id.size();
    id[x] = k;
    if (x->kind == LIT)
      s += S("L ", k, " ", x->vt->id, " ", x->lit, "\n");
    else if (x->kind == TOP)
      s += S("T ", k, " ", x->vt->id, " ", x->vt->var, " ", x->lf, " ", x->lt, "\n");
    else {
      s += S("D ", k, " ", x->vt->id, " ", x->el.size());
      for (auto &e : x->el) s += S(" ", id.at(e.p), " ", id.at(e.s), " ", e.w);
      s += "\n";
    }
  }
  return s;
}
static bool sat(const Clauses &cl, const Evid &e) {
  for (auto &k : cl) {
    bool ok = false;
    for (int l : k) ok = ok || e.at(std::abs(l)) == (l > 0);
    if (!ok) return false;
  }
  return true;
}
static bool near6(double got, LD want) {  // six significant digits of a computed logarithm
  if (want == NEG_INF() || std::isinf(got)) return std::isinf(got) && want == NEG_INF();
  return fabsl((LD)got - want) <= 2e-5L * fabsl(want) + 2e-5L;
}
void run_case(Case &c) {
  Rng &r = c.rng;
  World w;
  bool large = c.index % 12 == 7;  // evidence on single variables, answers by the structure
  int n = large ? r.range(12, 90) : r.range(1, 9);
  make_world(c, n, &w);
  Spec sp;
  bool with_cnf = r.chance(0.6);
  any_spec(c, w, (int)r.below(7), &sp);
  const auto &vars = w.vars();
  std::vector<int> sorted = vars;
  std::sort(sorted.begin(), sorted.end());
  write_tmp(c, "p.psdd", psdd_text(sp.root));
  Vtree *v = to_sdd(w.vt.root);
  sdd_vtree_save((c.scratch + "/p.vtree").c_str(), v);
  sdd_vtree_free(v);
  Clauses cl;
  Evid ev;
  if (large && with_cnf) {
    Evid s = support_assignment(r, sp.root);
    int m = r.chance(0.1) ? n : r.range(0, std::min(n, 12));
    for (int i = 0; i < m; ++i) {
      int x = r.pick(vars);
      if (!ev.count(x)) ev[x] = r.chance(0.97) ? s[x] : 1 - s[x];
      cl.push_back({ev[x] ? x : -x});
      if (r.chance(0.2)) {  // implied clauses change nothing
        cl.back().push_back(r.pick(vars));
        cl.push_back({ev[x] ? x : -x});
      }
    }
  } else if (with_cnf) {
    int m = r.range(0, r.chance(0.2) ? 3 * n : 3);
    Evid s = support_assignment(r, sp.root);
    bool keep = r.chance(0.6);
    for (int i = 0; i < m; ++i) {
      std::vector<int> k;
      int len = r.range(1, 3);
      for (int j = 0; j < len; ++j) k.push_back(r.pick(vars) * (r.chance(0.5) ? 1 : -1));
      bool ok = false;
      for (int l : k) ok = ok || s[std::abs(l)] == (l > 0);
      if (keep && !ok) k[0] = -k[0];
      cl.push_back(k);
    }
  }
  if (with_cnf) {
    std::string t = r.chance(0.5) ? "c evidence\n" : "";
    t += S("p cnf ", n, " ", cl.size(), "\n");
    for (auto &k : cl) {
      for (int l : k) t += S(l, " ");
      t += "0\n";
    }
    write_tmp(c, "e.cnf", t);
  }
  // exact conditional distribution
  std::vector<LD> d;
  if (!large) d = o_dense(sp.root);
  LD z = large ? o_logp(sp.root, ev) : NEG_INF();
  for (uint64_t i = 0; i < d.size(); ++i) {
    if (!sat(cl, assignment(vars, i))) d[i] = NEG_INF();
    z = lse(z, d[i]);
  }
  bool mpe = r.chance(0.7), mar = r.chance(0.7);
  std::vector<std::string> opts;
  std::string exe = tool("PSDD_INFERENCE_MAIN");
  std::vector<std::vector<std::string>> groups;
  if (mpe) groups.push_back({"--mpe_query"});
  if (mar) groups.push_back({"--mar_query"});
  if (with_cnf) {
    if (r.chance(0.5))
      groups.push_back({"--cnf_evid", "e.cnf"});
    else
      groups.push_back({"--cnf_evid=" + c.scratch + "/e.cnf"});
  }
  r.shuffle(groups);
  std::vector<std::string> argv{exe};
  for (auto &g : groups) argv.insert(argv.end(), g.begin(), g.end());
  argv.push_back("p.psdd");
  argv.push_back("p.vtree");
  std::string cmd;
  for (size_t i = 1; i < argv.size(); ++i) cmd += argv[i] + " ";
  std::string out, err;
  int st = run_tool(argv, c.scratch, 20, &out, &err);
  std::string cs;
  for (auto &k : cl) {
    cs += "(";
    for (int l : k) cs += S(l, " ");
    cs += ")";
  }
  std::string what = S(cmd, "cnf ", cs, ctx(w, sp), "\noutput: ", out, err.substr(0, 1500));
  c.sample(cmd + cs + ctx(w, sp).substr(0, 200));
  c.check(!sanitizer_report(err), "memory", what);
  c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "status", status_str(st) + "; " + what);
  // answers are lines of their own; anything else printed is progress information
  auto answers = [&](const char *prefix, std::string *last) {
    std::istringstream is(out);
    std::string line;
    int k = 0;
    while (std::getline(is, line)) {
      size_t cr = line.rfind('\r');
      if (cr != std::string::npos) line = line.substr(cr + 1);
      if (line.compare(0, strlen(prefix), prefix) == 0) {
        ++k;
        if (last) *last = line.substr(strlen(prefix));
      }
    }
    return k;
  };
  bool un = z == NEG_INF();
  c.check(answers("UNSATISFIED", nullptr) == un, "unsatisfied", what);
  c.check(answers("MPE result=", nullptr) == (mpe && !un) &&
              answers("MPE pr=", nullptr) == (mpe && !un) &&
              answers("MAR result=", nullptr) == (mar && !un),
          "answers", what);
  if (un) {
    c.count("unsatisfied");
  } else {
    auto expect = [&](const char *prefix) {
      std::string l;
      answers(prefix, &l);
      return l;
    };
    if (mpe) {
      std::string body = expect("MPE result=");
      std::istringstream bs(body);
      std::string item;
      size_t i = 0;
      Evid e;
      while (std::getline(bs, item, ',')) {
        int var = -1, val = -1;
        c.check(sscanf(item.c_str(), "%d:%d", &var, &val) == 2 && (val == 0 || val == 1) &&
                    i < sorted.size() && sorted[i] == var,
                "mpe-format", what);
        e[var] = val;
        ++i;
      }
      c.check(i == sorted.size(), "mpe-format", what);
      double pr = strtod(expect("MPE pr=").c_str(), nullptr);
      LD best = large ? o_mpe(sp.root, ev) : NEG_INF();
      for (LD x : d) best = std::max(best, x);
      LD mine = sat(cl, e) ? o_logp(sp.root, e) : NEG_INF();
      c.check(close(mine, best, 1e-6 * (n + 1)), "mpe",
              S("reported assignment has weight exp(", (double)mine, "), the best is exp(",
                (double)best, "); ", what));
      c.check(near6(pr, best - z), "mpe-probability",
              S("reported ", pr, ", expected ", (double)(best - z), "; ", what));
      c.count("mpe");
    }
    if (mar) {
      std::string body = expect("MAR result=");
      std::istringstream bs(body);
      std::string item;
      size_t i = 0;
      while (std::getline(bs, item, ',')) {
        size_t a = item.find(':'), b = item.find('|');
        c.check(a != std::string::npos && b != std::string::npos && i < sorted.size() &&
                    atoi(item.c_str()) == sorted[i],
                "mar-format", what);
        LD p[2] = {NEG_INF(), NEG_INF()};
        size_t pos = (size_t)(std::find(vars.begin(), vars.end(), sorted[i]) - vars.begin());
        if (large)
          for (int k = 0; k < 2; ++k) {
            Evid q = ev;
            if (ev.count(sorted[i]) && ev[sorted[i]] != k) continue;
            q[sorted[i]] = k;
            p[k] = o_logp(sp.root, q);
          }
        for (uint64_t k = 0; k < d.size(); ++k) p[k >> pos & 1] = lse(p[k >> pos & 1], d[k]);
        for (int k = 0; k < 2; ++k) {
          double got = strtod(item.c_str() + (k ? b : a) + 1, nullptr);
          c.check(near6(got, p[k] - z), "marginal",
                  S("variable ", sorted[i], "=", k, ": ", got, ", expected ",
                    (double)(p[k] - z), "; ", what));
        }
        ++i;
      }
      c.check(i == sorted.size(), "mar-format", what);
      c.count("mar", i);
    }
    if (mpe || mar) c.nontrivial(mix(hash_str(cmd + cs), spec_hash(sp.root)));
  }
  if (c.index % 50 == 9) {
    std::string o2, e2;
    st = run_tool({exe}, c.scratch, 20, &o2, &e2);
    c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0 && o2.find("USAGE") != std::string::npos,
            "usage", o2 + e2);
    st = run_tool({exe, "--cnf_evid", "nothere.cnf", "p.psdd", "p.vtree"}, c.scratch, 20, &o2, &e2);
    c.check(st != -1 && !(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !sanitizer_report(e2),
            "missing-cnf", status_str(st) + o2 + e2);
    st = run_tool({exe, "--mpe_query", "nothere.psdd", "p.vtree"}, c.scratch, 20, &o2, &e2);
    c.check(st != -1 && !(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !sanitizer_report(e2),
            "missing-psdd", status_str(st) + o2 + e2);
    c.count("error_runs", 3);
  }
}
}  // namespace vh
