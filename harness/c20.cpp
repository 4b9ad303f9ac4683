// Vtree utilities.
#include "ops.h"
using namespace vh;
namespace vh {
const char *const kProperty = "C20";
const char *const kRule =
    "random vtrees (1-60 leaves, some up to 2000 deep, some of up to 65537) of five shapes with consecutive, "
    "permuted and sparse variables; every utility applied to the root and to random inner "
    "nodes, in random sequence on the same tree, against an own model of the tree; "
    "non-trivial = at least three leaves, distinct by tree and request";
int num_cases(bool t) { return t ? 400000 : 20000; }

// positions, variable counts and parents describe exactly this tree
static std::string props(Vtree *v) {
  long pos = 0;
  std::string bad;
  std::function<long(Vtree *)> go = [&](Vtree *x) -> long {
    long n = 1;
    if (!sdd_vtree_is_leaf(x)) {
      Vtree *l = sdd_vtree_left(x), *r = sdd_vtree_right(x);
      if (sdd_vtree_parent(l) != x || sdd_vtree_parent(r) != x) bad = "wrong parent";
      n = go(l);
      if (sdd_vtree_position(x) != pos++) bad = "wrong position";
      n += go(r);
    } else if (sdd_vtree_position(x) != pos++) {
      bad = "wrong position";
    }
    if (sdd_vtree_var_count(x) != n) bad = "wrong variable count";
    return n;
  };
  go(v);
  if (sdd_vtree_parent(v)) bad = "the root has a parent";
  return bad;
}

// Vtrees are not bound to variables below MAX_VAR; numbers may agree in their lower bits.
static std::vector<int> numbers(Rng &r, int n) {
  std::vector<int> v = random_vars(r, n, (int)r.below(3));
  if (r.chance(0.8) || n > 3000) return v;
  std::set<int> used;
  for (int &x : v) {
    int y;
    do {
      y = r.chance(0.3) ? x : r.chance(0.5) ? x + (r.range(1, 300) << 16) : r.range(1, 2000000000);
      if (!used.empty() && r.chance(0.4))
        y = (r.pick(std::vector<int>(used.begin(), used.end())) & 0xffffff) + (1 << r.pick(std::vector<int>{8, 16, 24}));
    } while (!used.insert(y).second);
    x = y;
  }
  return v;
}
void run_case(Case &c) {
  Rng &r = c.rng;
  VTree vt;
  int n = r.range(1, 14);
  if (r.chance(0.1)) n = r.range(15, 60);
  if (c.index % 250 == 11) n = r.range(300, 2500);
  bool vast = c.index % 4000 == 3511;
  if (vast) {
    static const int round[] = {16384, 32768, 50000, 65536, 65536};
    n = round[c.index / 4000 % 5] / (r.chance(0.3) ? 2 : 1) + r.range(-1, 1);
    std::vector<int> order;
    for (int i = 0, step = r.range(1, 40); i < n; ++i) order.push_back(1 + i * step);
    r.shuffle(order);
    random_vtree(r, order, BALANCED, &vt);
    c.count("vast_vtrees");
  } else {
    random_vtree(r, numbers(r, n), (int)r.below(5) % 4, &vt);
  }
  auto str = [&](const VT *x) {
    return vast ? S("a balanced vtree of ", x->vars.size(), " variables") : vt_str(x);
  };
  Vtree *root = to_sdd(vt.root);
  std::unordered_map<Vtree *, const VT *> vm;
  std::unordered_map<const VT *, Vtree *> back;
  if (!map_vtree(vt.root, root, &vm, &back)) abort();
  std::vector<const VT *> all;
  for (VT *v : vt.all()) all.push_back(v);
  std::string tree = str(vt.root);
  c.sample(tree);
  auto intact = [&](const std::string &op) {
    std::unordered_map<Vtree *, const VT *> m2;
    c.check(map_vtree(vt.root, root, &m2) && m2 == vm && props(root).empty(), "input-changed",
            S(op, " changed its argument ", tree));
    std::string s = vtree_clean(root);
    c.check(s.empty(), "scratch", S(op, ": ", s, "; ", tree));
  };
  int ops = vast ? 5 : n > 100 ? 3 : r.range(2, 8);
  for (int k = 0; k < ops; ++k) {
    const VT *at = r.chance(0.4) ? vt.root : r.pick(all);
    Vtree *v = back.at(at);
    uint64_t which = r.below(7);
    std::string where = S("at ", str(at), " of ", tree);
    uint64_t h = mix(hash_str(where), which);
    if (which == 0) {
      auto s = vtree_util::SerializeVtree(v);
      std::unordered_map<Vtree *, size_t> pos;
      for (size_t i = 0; i < s.size(); ++i)
        c.check(pos.emplace(s[i], i).second, "serialize", "a node is listed twice " + where);
      c.check(s.size() == 2 * at->vars.size() - 1 && s[0] == v, "serialize",
              S(s.size(), " nodes ", where));
      for (Vtree *x : s) {
        if (x == v) continue;
        auto p = pos.find(sdd_vtree_parent(x));
        c.check(p != pos.end() && p->second < pos[x], "serialize",
                "a node before its parent " + where);
      }
      c.count("serialize");
    } else if (which == 1) {
      auto s = vtree_util::VariablesUnderVtree(v);
      std::vector<int> got(s.begin(), s.end()), want = at->vars;
      std::sort(got.begin(), got.end());
      std::sort(want.begin(), want.end());
      c.check(got == want, "variables", "wrong variables " + where);
      c.count("variables");
    } else if (which == 2) {
      auto s = vtree_util::LeftToRightLeafTraverse(v);
      c.check(std::vector<int>(s.begin(), s.end()) == at->vars, "left-to-right",
              "wrong leaf order " + where);
      c.count("left_to_right");
    } else if (which == 3) {
      Vtree *cp = vtree_util::CopyVtree(v);
      std::unordered_map<Vtree *, const VT *> m2;
      c.check(cp && map_vtree(at, cp, &m2), "copy", S("copy ", vtree_str(cp), " ", where));
      for (auto &p : m2) c.check(!vm.count(p.first), "copy-shared", "shares nodes " + where);
      std::string bad = props(cp);
      if (bad.empty()) bad = vtree_clean(cp);
      c.check(bad.empty(), "copy-properties", S(bad, " ", where));
      sdd_vtree_free(cp);
      c.count("copy");
    } else if (which == 4) {
      std::unordered_map<SddLiteral, SddLiteral> map;
      std::vector<int> to = numbers(r, n);
      for (int i = 0; i < n; ++i) map[vt.root->vars[(size_t)i]] = to[(size_t)i];
      Vtree *cp = vtree_util::CopyVtree(v, map);
      std::function<bool(const VT *, Vtree *)> eq = [&](const VT *a, Vtree *b) {
        if (!b || a->leaf() != (bool)sdd_vtree_is_leaf(b) || vm.count(b)) return false;
        if (a->leaf()) return sdd_vtree_var(b) == map[a->var];
        return eq(a->l, sdd_vtree_left(b)) && eq(a->r, sdd_vtree_right(b));
      };
      c.check(cp && eq(at, cp), "rename", S("renamed copy ", vtree_str(cp), " ", where));
      std::string bad = props(cp);
      if (bad.empty()) bad = vtree_clean(cp);
      c.check(bad.empty(), "rename-properties", S(bad, " ", where));
      sdd_vtree_free(cp);
      c.count("rename");
    } else if (which == 5) {
      std::vector<SddLiteral> keep;
      double d = r.pick(std::vector<double>{0.1, 0.5, 0.9});
      for (int x : at->vars)
        if (r.chance(d)) keep.push_back(x);
      if (keep.empty()) keep.push_back(r.pick(at->vars));
      std::set<int> ks(keep.begin(), keep.end());
      if (r.chance(0.3)) keep.push_back(keep[0]);
      if (r.chance(0.3)) {
        std::set<int> have(at->vars.begin(), at->vars.end());
        int other = r.range(1, 65535);
        if (!have.count(other)) keep.push_back(other);
      }
      r.shuffle(keep);
      Vtree *p = vtree_util::ProjectVtree(v, keep);
      std::function<std::string(const VT *)> want = [&](const VT *a) -> std::string {
        if (a->leaf()) return ks.count(a->var) ? S(a->var) : "";
        std::string l = want(a->l), q = want(a->r);
        return l.empty() ? q : q.empty() ? l : "(" + l + " " + q + ")";
      };
      std::string w = want(at);
      for (int x : keep) h = mix(h, (uint64_t)x);
      c.check(p && vtree_str(p) == w, "project",
              S("projection ", vtree_str(p), ", expected ", w, " ", where));
      std::function<bool(Vtree *)> own = [&](Vtree *x) {
        return !vm.count(x) && (sdd_vtree_is_leaf(x) ||
                                (own(sdd_vtree_left(x)) && own(sdd_vtree_right(x))));
      };
      c.check(own(p), "project-shared", "shares nodes " + where);
      std::string bad = props(p);
      if (bad.empty()) bad = vtree_clean(p);
      c.check(bad.empty(), "project-properties", S(bad, " ", where));
      sdd_vtree_free(p);
      c.count("project");
    } else {
      // variables of some node, possibly spoiled
      const VT *t = r.pick(all);
      std::unordered_set<SddLiteral> u(t->vars.begin(), t->vars.end());
      switch (r.below(5)) {
        case 0: u.erase(r.pick(t->vars)); break;
        case 1: u.insert(r.pick(vt.root->vars)); break;
        case 2: u.insert(r.range(1, 65535)); break;
        case 3: {
          const VT *t2 = r.pick(all);
          u.insert(t2->vars.begin(), t2->vars.end());
          break;
        }
        default: break;
      }
      const VT *want = nullptr;
      std::vector<const VT *> st{at};
      while (!st.empty()) {
        const VT *x = st.back();
        st.pop_back();
        if (x->vars.size() == u.size()) {
          bool eq = true;
          for (int y : x->vars) eq = eq && u.count(y);
          if (eq) want = x;
        }
        if (!x->leaf()) st.push_back(x->l), st.push_back(x->r);
      }
      Vtree *got = vtree_util::SubVtreeByVariables(v, u);
      for (auto x : u) h = mix(h, (uint64_t)x * 31);
      c.check(got == (want ? back.at(want) : nullptr), "sub",
              S("node for ", u.size(), " variables is ", vtree_str(got), ", expected ",
                want ? vt_str(want) : "none", " ", where));
      c.count(want ? "sub_found" : "sub_none");
    }
    intact(S("operation ", which, " ", where));
    if (n >= 3) c.nontrivial(h);
  }
  sdd_vtree_free(root);
}
}  // namespace vh
