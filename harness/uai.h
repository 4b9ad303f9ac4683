// Random factor graphs and their semantics by direct multiplication.
#ifndef VH_UAI_H
#define VH_UAI_H
#include "ops.h"
namespace vh {
struct FactorNet {
  int n = 1;                            // variables 1..n
  std::vector<std::vector<int>> scope;  // 1-based
  std::vector<std::vector<double>> val;
  bool bayes = false;
};
inline FactorNet random_factors(Rng &r, int n, bool cover) {
  FactorNet f;
  f.n = n;
  int m = r.chance(0.05) ? 0 : r.chance(0.08) ? 1 : r.range(1, 2 * n + 1);
  int style = (int)r.below(5);
  double zeros = r.pick(std::vector<double>{0, 0, 0.05, 0.2, 0.4});
  std::vector<bool> used((size_t)n + 1);
  auto add = [&](std::vector<int> s) {
    for (int v : s) used[(size_t)v] = true;
    std::vector<double> t;
    for (size_t i = 0; i < ((size_t)1 << s.size()); ++i) {
      double x = r.real() + 1e-6;
      switch (style) {
        case 1: x = std::pow(10.0, -12 * r.real()); break;
        case 2: x = (double)r.range(1, 3); break;
        case 3: x = std::pow(10.0, 60 * (r.real() - 0.6)); break;
        case 4: x = r.chance(0.5) ? 1.0 : x; break;
        default: break;
      }
      if (r.chance(zeros)) x = 0;
      t.push_back(x);
    }
    f.scope.push_back(s);
    f.val.push_back(t);
  };
  for (int i = 0; i < m; ++i) {
    int k = r.chance(0.05) ? 0 : r.range(1, std::min(n, r.chance(0.15) ? 5 : 3));
    std::vector<int> s;
    while ((int)s.size() < k) {
      int v = r.range(1, n);
      if (std::find(s.begin(), s.end(), v) == s.end()) s.push_back(v);
    }
    add(s);
    if (r.chance(0.1)) {  // same scope again, perhaps in another order
      r.shuffle(s);
      add(s);
    }
  }
  if (cover)
    for (int v = 1; v <= n; ++v)
      if (!used[(size_t)v]) add({v});
  if (!f.val.empty() && r.chance(0.03))  // a factor that is zero everywhere
    for (double &x : f.val[r.below(f.val.size())]) x = 0;
  return f;
}
inline std::string fnum(double x) {
  char b[40];
  snprintf(b, sizeof b, "%.17g", x);
  return b;
}
inline std::string uai_text(const FactorNet &f) {
  std::string s = S(f.bayes ? "BAYES" : "MARKOV", "\n", f.n, "\n");
  for (int i = 0; i < f.n; ++i) s += i ? " 2" : "2";
  s += S("\n", f.scope.size(), "\n");
  for (auto &x : f.scope) {
    s += S(x.size());
    for (int v : x) s += S(" ", v - 1);
    s += "\n";
  }
  for (auto &t : f.val) {
    s += S("\n", t.size(), "\n");
    for (size_t i = 0; i < t.size(); ++i) s += (i ? " " : "") + fnum(t[i]);
    s += "\n";
  }
  return s;
}
// log f_i at a complete assignment; the last variable of the scope is the lowest bit
inline LD log_factor(const FactorNet &f, size_t i, const Evid &e) {
  size_t idx = 0;
  for (int v : f.scope[i]) idx = 2 * idx + (size_t)e.at(v);
  double x = f.val[i][idx];
  return x == 0 ? NEG_INF() : logl((LD)x);
}
inline LD log_product(const FactorNet &f, const Evid &e) {
  LD s = 0;
  for (size_t i = 0; i < f.scope.size(); ++i) s += log_factor(f, i, e);
  return s;
}
inline LD log_z(const FactorNet &f, const std::vector<int> &vars) {
  LD z = NEG_INF();
  for (uint64_t i = 0; i < (1ull << vars.size()); ++i)
    z = lse(z, log_product(f, assignment(vars, i)));
  return z;
}
// log of the sum over all assignments, by eliminating one variable after the other
inline LD eliminate(const FactorNet &f, const std::vector<int> &order) {
  typedef std::pair<std::vector<int>, std::vector<LD>> Tab;
  auto at = [](const Tab &t, const Evid &e) {
    size_t i = 0;
    for (int v : t.first) i = 2 * i + (size_t)e.at(v);
    return t.second[i];
  };
  std::vector<Tab> tabs;
  LD z = 0;
  for (size_t i = 0; i < f.scope.size(); ++i) {
    Tab t;
    t.first = f.scope[i];
    for (double x : f.val[i]) t.second.push_back(x == 0 ? NEG_INF() : logl((LD)x));
    tabs.push_back(t);
  }
  for (int v : order) {
    std::vector<Tab> in, out;
    std::set<int> vs;
    for (auto &t : tabs)
      if (std::find(t.first.begin(), t.first.end(), v) != t.first.end()) {
        in.push_back(t);
        vs.insert(t.first.begin(), t.first.end());
      } else {
        out.push_back(t);
      }
    vs.erase(v);
    if (in.empty()) {
      z += logl(2.0L);
      continue;
    }
    Tab n;
    n.first.assign(vs.begin(), vs.end());
    for (uint64_t k = 0; k < 1ull << n.first.size(); ++k) {
      Evid e;
      for (size_t j = 0; j < n.first.size(); ++j)
        e[n.first[j]] = (int)(k >> (n.first.size() - 1 - j) & 1);
      LD sum = NEG_INF();
      for (int b = 0; b < 2; ++b) {
        e[v] = b;
        LD x = 0;
        for (auto &t : in) x += at(t, e);
        sum = lse(sum, x);
      }
      n.second.push_back(sum);
    }
    out.push_back(n);
    tabs = out;
  }
  for (auto &t : tabs) z += t.second[0];
  return z;
}
// A vtree that suits the factors: wherever a factor has variables on both sides of an
// inner node, exactly one of them is on the left.
inline bool suits(const FactorNet &f, const std::set<int> &a, const std::set<int> &b) {
  for (auto &s : f.scope) {
    int x = 0, y = 0;
    for (int v : s) {
      x += (int)a.count(v);
      y += (int)b.count(v);
    }
    if (x && y && x > 1) return false;
  }
  return true;
}
inline void suited_vtree(Rng &r, const FactorNet &f, const std::vector<int> &vars, VTree *out) {
  std::function<VT *(std::vector<int>)> go = [&](std::vector<int> v) -> VT * {
    if (v.size() == 1) return out->new_leaf(v[0]);
    r.shuffle(v);
    for (int tries = 0; tries < 6; ++tries) {
      size_t k = 1 + r.below(v.size() - 1);
      std::set<int> a(v.begin(), v.begin() + (long)k), b(v.begin() + (long)k, v.end());
      if (suits(f, a, b))
        return out->new_node(go(std::vector<int>(a.begin(), a.end())),
                             go(std::vector<int>(b.begin(), b.end())));
      r.shuffle(v);
    }
    return out->new_node(out->new_leaf(v[0]), go(std::vector<int>(v.begin() + 1, v.end())));
  };
  out->finish(go(vars));
}
// the library's vtree -> own model
inline VT *import_vtree(Vtree *v, VTree *out) {
  if (sdd_vtree_is_leaf(v)) return out->new_leaf((int)sdd_vtree_var(v));
  VT *l = import_vtree(sdd_vtree_left(v), out);
  VT *r = import_vtree(sdd_vtree_right(v), out);
  return out->new_node(l, r);
}
}  // namespace vh
#endif
