// UAI network files.
#include "ops.h"
#include <psdd/uai_network.h>
using namespace vh;
namespace vh {
const char *const kProperty = "C18";
const char *const kRule =
    "random networks (1-30, some 200-3000 variables, 0-40, some 200-1200 factors of arity 0-12, some of 65536 variables, factors or entries, zero, tiny and huge entries) "
    "written in random layouts (entries split over lines, blank and whitespace-only lines, "
    "carriage returns, tabs, number formats), read into fresh and used objects and compared "
    "entry by entry; files cut at a random token read in a child process; non-trivial = at "
    "least two factors, distinct by text";
int num_cases(bool t) { return t ? 400000 : 16000; }

struct Net {
  int vars = 1;
  bool bayes = false;
  std::vector<std::vector<int>> scope;  // 0-based
  std::vector<std::vector<std::string>> num;
  bool oneline = false, shortlines = false;
};
static std::string number(Rng &r) {
  char b[64];
  double x = r.real();
  switch (r.below(9)) {
    case 0: return r.chance(0.5) ? "0" : r.chance(0.5) ? "0.0" : "0.000000";
    case 1: return r.chance(0.5) ? "1" : "1.0";
    case 2: snprintf(b, sizeof b, "%.3e", x * 1e-200); break;
    case 3: snprintf(b, sizeof b, "%.5E", x * 1e100); break;
    case 4: snprintf(b, sizeof b, "%d", r.range(1, 1000)); break;
    case 5: snprintf(b, sizeof b, "%.17g", x); break;
    case 6: snprintf(b, sizeof b, "%.2f", x); break;
    case 7: snprintf(b, sizeof b, ".%03d", r.range(1, 999)); break;
    default: snprintf(b, sizeof b, "%.6f", 100 * x); break;
  }
  return b;
}
// large tables (0), many factors (1), many variables (2); short lines only
static Net huge_net(Rng &r, int style) {
  Net n;
  static const int round[] = {4096, 10000, 16384, 32768, 65536, 65536, 70000, 100000};
  int big = round[r.below(8)] + r.range(-1, 1);
  n.vars = style == 2 ? big : r.range(17, 30);
  n.bayes = r.chance(0.5);
  int f = style == 1 ? big : r.range(1, 3);
  for (int i = 0; i < f; ++i) {
    int k = style == 0 ? r.range(13, i ? 14 : 17) : r.range(1, 2);
    std::set<int> s;
    while ((int)s.size() < k)
      s.insert(s.empty() && r.chance(0.3) ? n.vars - 1 : (int)r.below((uint64_t)n.vars));
    n.scope.push_back(std::vector<int>(s.begin(), s.end()));
    r.shuffle(n.scope.back());
    std::vector<std::string> t;
    for (int j = 0; j < (1 << k); ++j) t.push_back(style ? S((i + j) % 97 + 1) : number(r));
    n.num.push_back(t);
  }
  n.shortlines = true;
  return n;
}
static Net random_net(Rng &r) {
  Net n;
  bool wide = r.chance(0.01), many = r.chance(0.01);
  if (r.chance(0.004)) {  // one long line
    int k = 12;  // reading one line takes time quadratic in its length
    n.vars = r.range(k, k + 3);
    n.bayes = r.chance(0.5);
    std::vector<int> s;
    for (int v = 0; v < n.vars; ++v) s.push_back(v);
    r.shuffle(s);
    s.resize((size_t)k);
    n.scope.push_back(s);
    std::vector<std::string> t;
    for (int j = 0; j < (1 << k); ++j) {
      char b[40];
      snprintf(b, sizeof b, "%.17g", (double)r.range(1, 999999) / 1000003.0);
      t.push_back(b);
    }
    n.num.push_back(t);
    n.oneline = true;
    return n;
  }
  n.vars = many ? r.range(200, 3000) : wide ? r.range(12, 70) : r.range(1, r.chance(0.2) ? 30 : 8);
  n.bayes = r.chance(0.5);
  int f = r.chance(0.03) ? 0 : many ? r.range(200, 1200) : wide ? 2 : r.range(1, r.chance(0.1) ? 40 : 6);
  for (int i = 0; i < f; ++i) {
    int k = r.chance(0.08) ? 0 : wide ? r.range(9, 12) : r.range(1, std::min(n.vars, many ? 2 : r.chance(0.1) ? 8 : 4));
    std::vector<int> s;
    while ((int)s.size() < k) {
      int v = (int)r.below((uint64_t)n.vars);
      if (std::find(s.begin(), s.end(), v) == s.end()) s.push_back(v);
    }
    n.scope.push_back(s);
    std::vector<std::string> t;
    for (int j = 0; j < (1 << k); ++j) t.push_back(number(r));
    n.num.push_back(t);
  }
  return n;
}
// Pieces of the text; `keep` tokens of the tables (and all before) survive a cut.
static std::string render(Rng &r, const Net &n, bool cut) {
  std::string nl = r.chance(0.25) ? "\r\n" : "\n", s;
  auto sep = [&] { return std::string(r.chance(0.1) ? "  " : r.chance(0.05) ? "\t" : " "); };
  auto trail = [&] { return std::string(r.chance(0.15) ? " " : r.chance(0.03) ? "\t" : ""); };
  s += std::string(n.bayes ? "BAYES" : "MARKOV") + trail() + nl;
  size_t pre0 = s.size();
  s += S(n.vars) + trail() + nl;
  for (int i = 0; i < n.vars; ++i) s += std::string(i ? " " : "") + "2";
  s += trail() + nl;
  size_t pre1 = s.size();
  s += S(n.scope.size()) + trail() + nl;
  std::vector<size_t> cuts{pre0, pre1};
  for (auto &x : n.scope) {
    cuts.push_back(s.size());
    s += S(x.size());
    for (int v : x) s += sep() + S(v);
    s += trail() + nl;
  }
  auto blank = [&](double p) {
    while (r.chance(p)) s += std::string(r.chance(0.3) ? r.chance(0.5) ? "  " : "\t" : "") + nl;
  };
  int layout = n.oneline ? 4 * (int)r.below(2) : n.shortlines ? r.range(1, 3) : (int)r.below(5);
  for (auto &t : n.num) {
    blank(0.4);
    cuts.push_back(s.size());
    s += S(t.size());
    if (layout == 4) {  // size and entries on one line
      s += " ";
    } else {
      s += trail() + nl;
      blank(0.1);
    }
    size_t row = layout == 0 ? t.size() : layout == 1 ? 2 : layout == 2 ? 1 : 3;
    for (size_t i = 0; i < t.size(); ++i) {
      cuts.push_back(s.size());
      if (i % row == 0 && r.chance(0.3)) s += " ";
      s += t[i];
      if (i + 1 == t.size()) break;
      if ((i + 1) % row == 0) {
        s += trail() + nl;
        blank(0.05);
      } else {
        s += sep();
      }
    }
    s += trail();
    if (&t != &n.num.back() || r.chance(0.8)) s += nl;
  }
  if (cut) {
    return s.substr(0, r.pick(cuts));
  }
  blank(0.2);
  return s;
}
static std::string compare(UaiNetwork &u, const Net &n) {
  if (u.var_size() != (size_t)n.vars) return S(u.var_size(), " variables");
  if (u.factor_size() != n.scope.size()) return S(u.factor_size(), " factors");
  if (u.network_type() != (n.bayes ? BAYESIAN_NETWORK_TYPE : MARKOV_NETWORK_TYPE))
    return "wrong type";
  if (u.factor_scopes().size() != n.scope.size() || u.params().size() != n.scope.size())
    return S(u.factor_scopes().size(), " scopes and ", u.params().size(), " tables");
  for (size_t i = 0; i < n.scope.size(); ++i) {
    auto &s = u.factor_scopes()[i];
    bool ok = s.size() == n.scope[i].size();
    for (size_t j = 0; ok && j < s.size(); ++j) ok = s[j] == (size_t)n.scope[i][j] + 1;
    if (!ok) return S("scope of factor ", i);
    auto &p = u.params()[i];
    if (p.size() != n.num[i].size()) return S("factor ", i, " has ", p.size(), " entries");
    for (size_t j = 0; j < p.size(); ++j) {
      double x = strtod(n.num[i][j].c_str(), nullptr);
      LD want = x == 0 ? NEG_INF() : logl((LD)x);
      LD got = p[j].parameter();
      if (want == NEG_INF() || got == NEG_INF() ? want != got : fabsl(got - want) > 1e-11L)
        return S("entry ", j, " of factor ", i, " is exp(", (double)got, "), the file says ",
                 n.num[i][j]);
    }
  }
  return "";
}
void run_case(Case &c) {
  Rng &r = c.rng;
  bool huge = c.index % 2000 == 999;
  int style = (int)(c.index / 2000 % 3);
  Net n = huge ? huge_net(r, style) : random_net(r);
  if (huge) c.count(style == 0 ? "huge_tables" : style == 1 ? "huge_factor_lists" : "huge_variable_lists");
  std::string text = render(r, n, false);
  std::string f = write_tmp(c, "n.uai", text);
  c.sample(text.substr(0, 120));
  UaiNetwork u;
  if (r.chance(0.3)) {
    Net o = random_net(r);
    u.read_file(write_tmp(c, "o.uai", render(r, o, false)).c_str());
    c.count("used_object");
  }
  u.read_file(f.c_str());
  std::string bad = compare(u, n);
  c.check(bad.empty(), "read", S(bad, "; text:\n", text.substr(0, 1500)));
  if (r.chance(0.4)) {
    u.read_file(f.c_str());
    bad = compare(u, n);
    c.check(bad.empty(), "read-twice", S(bad, "; text:\n", text.substr(0, 1500)));
    c.count("twice");
  }
  if (r.chance(0.3)) {
    std::vector<std::vector<size_t>> sc;
    for (auto &s : n.scope) {
      sc.emplace_back();
      for (int v : s) sc.back().push_back((size_t)v + 1);
    }
    UaiNetwork m((size_t)n.vars, n.scope.size(), n.bayes ? 2 : 1, sc, u.params());
    bad = compare(m, n);
    c.check(bad.empty(), "construct", bad);
  }
  size_t entries = 0;
  for (auto &t : n.num) entries += t.size();
  c.count("entries", entries);
  if (n.scope.size() > 1) c.nontrivial(hash_str(text));
  if (c.index % 25 == 3 && !n.scope.empty()) {
    std::string part = render(r, n, true);
    std::string pf = write_tmp(c, "cut.uai", part), err;
    int st = in_child(
        [&] {
          UaiNetwork x;
          x.read_file(pf.c_str());
        },
        5, &err);
    c.check(st != -1, "truncated-hang", S("no end within 5s of CPU; file:\n", part));
    c.check(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), "truncated-accepted",
            S("a cut file is accepted:\n", part));
    c.check(!sanitizer_report(err), "truncated-memory", S(err, "\nfile:\n", part));
    c.count("cut_files");
  }
  if (c.index % 100 == 4) {
    std::string err;
    int st = in_child(
        [&] {
          UaiNetwork x;
          x.read_file((c.scratch + "/none.uai").c_str());
        },
        5, &err);
    c.check(st != -1 && !(WIFEXITED(st) && WEXITSTATUS(st) == 0) && !sanitizer_report(err),
            "missing-file", S("a missing file ends with ", status_str(st)));
    c.count("missing_files");
  }
}
}  // namespace vh
