// PSDD files.
#include "ops.h"
#include <fstream>
using namespace vh;
namespace vh {
const char *const kProperty = "C12";
const char *const kRule =
    "random PSDDs (all styles, zeros, sub-vtree roots, wide nodes) written and read back in "
    "the same and in a fresh manager; the text is parsed independently; files written by the "
    "harness with arbitrary ids, orders, comments and number formats are read; non-trivial = "
    "decision root, distinct by structure and direction";
int num_cases(bool t) { return t ? 50000 : 2500; }

// own reader of the documented format
static std::string parse(const std::string &text, const VTree &vt,
                         const std::map<int, const VT *> &by_var, Spec *sp, size_t *lines) {
  (void)vt;
  std::istringstream in(text);
  std::string line;
  std::map<long, SNode *> ids;
  long declared = -1;
  size_t n = 0;
  while (std::getline(in, line)) {
    if (line.empty()) return "empty line";
    if (line[0] == 'c') continue;
    std::istringstream is(line);
    std::string kind, a, b;
    is >> kind;
    if (kind == "psdd") {
      if (declared >= 0) return "two header lines";
      if (!(is >> declared)) return "header without a count";
      continue;
    }
    if (declared < 0) return "node before the header";
    ++n;
    long id, vid;
    if (!(is >> id >> vid)) return "bad node line: " + line;
    if (ids.count(id)) return S("id ", id, " defined twice");
    SNode *x;
    if (kind == "L") {
      int lit;
      if (!(is >> lit) || !by_var.count(std::abs(lit))) return "bad literal: " + line;
      x = sp->lit(by_var.at(std::abs(lit)), lit > 0);
    } else if (kind == "T") {
      int var;
      if (!(is >> var >> a >> b) || !by_var.count(var)) return "bad true node: " + line;
      x = sp->top(by_var.at(var), strtod(b.c_str(), nullptr), strtod(a.c_str(), nullptr));
    } else if (kind == "D") {
      size_t k;
      if (!(is >> k) || k == 0) return "bad decision node: " + line;
      std::vector<SElem> el;
      for (size_t i = 0; i < k; ++i) {
        long p, s;
        if (!(is >> p >> s >> a)) return "short decision node: " + line;
        if (!ids.count(p) || !ids.count(s)) return "child after parent: " + line;
        el.push_back({ids[p], ids[s], strtod(a.c_str(), nullptr)});
      }
      const VT *up = el[0].p->vt->up;
      for (auto &e : el)
        if (!up || e.p->vt != up->l || e.s->vt != up->r)
          return "elements of different vtree nodes: " + line;
      x = sp->dec(up, el);
    } else {
      return "unknown line: " + line;
    }
    if (is >> a) return "trailing text: " + line;
    if (vid != x->vt->id) return S("vtree id ", vid, ", expected ", x->vt->id, ": ", line);
    ids[id] = x;
    sp->root = x;
  }
  if (declared != (long)n) return S("header says ", declared, " nodes, file has ", n);
  *lines = n;
  return sp->root ? "" : "no nodes";
}
static std::string num(Rng &r, double x) {
  if (std::isinf(x)) return r.chance(0.7) ? "-inf" : "-INF";
  char b[64];
  const char *f[] = {"%.17g", "%.12e", "%.15f", "%.9f"};
  snprintf(b, sizeof b, f[r.below(4)], x);
  return b;
}

static void huge_case(Case &c) {
  Rng &r = c.rng;
  Huge h;
  make_huge(c, &h);
  std::string path = c.scratch + "/huge.psdd";
  psdd_node_util::WritePsddToFile(h.root, path.c_str());
  PsddNode *back = h.w.m->ReadPsddFile(path.c_str(), 1);
  unlink(path.c_str());
  c.check(back != nullptr, "read-null", "nothing was read");
  Import got;
  AuditOpts o = raw_opts();
  o.disjoint = false;
  std::string bad = audit(back, h.w, o, &got);
  c.check(bad.empty(), "audit-read", S(bad, h.what));
  c.check(spec_reach(got.spec.root) == spec_reach(h.sp.root), "roundtrip",
          S("other number of nodes", h.what));
  std::string d = diff_dist(r, got.spec.root, h.sp.root, h.w.vars(), 1e-4, 8);
  c.check(d.empty(), "roundtrip", S(d, h.what));
  c.count("roundtrips");
  huge_clean(c, h);
}
void run_case(Case &c) {
  Rng &r = c.rng;
  if (huge_index(c)) return huge_case(c);
  World w, fresh;
  int style = (int)r.below(7);
  int n;
  bool wide = c.index % 60 == 7;
  if (wide) {
    make_wide_world(c, 7, 2, &w);
    n = w.n();
  } else {
    n = c.index % 8 == 7 ? r.range(12, c.thorough ? 200 : 70) : r.range(1, 8);
    make_world(c, n, &w);
  }
  Spec sp;
  if (wide) {
    Table t((size_t)1 << n, 1);
    for (auto &x : t) x = r.chance(0.8);
    t[0] = 1;
    sp.root = gen_from_table(r, &sp, w.vt.root, t, style, 1.0);
  } else if (r.chance(0.15)) {
    auto all = w.vt.all();
    sp.root = gen_partition(r, &sp, r.pick(all), 2, style, false)[0];
  } else {
    any_spec(c, w, style, &sp);
  }
  same_world(c, w, &fresh);
  uintmax_t flag = any_flag(r);
  std::map<int, const VT *> by_var;
  for (VT *v : w.vt.all())
    if (v->leaf()) by_var[v->var] = v;
  std::map<int, const VT *> by_var2;
  for (VT *v : fresh.vt.all())
    if (v->leaf()) by_var2[v->var] = v;
  const std::vector<int> &vars = sp.root->vt->vars;
  // six decimals per parameter and at most 2n-1 parameters on a path
  double tol = 1e-6 * (2 * n + 2);
  std::string what = ctx(w, sp);
  c.sample(S("n=", n, " style=", style, what).substr(0, 400));
  std::string path = c.scratch + (r.chance(0.5) ? "/p.psdd" : "/a b.psdd");
  if (r.chance(0.7)) {
    PsddNode *root = build(sp.root, w.m, flag, nullptr, &r);
    Import imp;
    std::string bad = audit(root, w, raw_opts(), &imp);
    c.check(bad.empty(), "audit", bad);
    if (r.chance(0.3)) write_tmp(c, path.substr(c.scratch.size() + 1), std::string(200000, 'x'));
    psdd_node_util::WritePsddToFile(root, path.c_str());
    std::string text = read_all(path);
    Spec mine;
    size_t lines = 0;
    bad = parse(text, w.vt, by_var, &mine, &lines);
    c.check(bad.empty(), "format", S(bad, what));
    c.check(lines == imp.of.size(), "format", S(lines, " node lines for ", imp.of.size(), what));
    std::string d = diff_dist(r, mine.root, sp.root, vars, tol);
    c.check(d.empty(), "written", S("the file says otherwise: ", d, what));
    bad = state_clean(imp);
    c.check(bad.empty(), "state", bad);
    uintmax_t f2 = any_flag(r);
    PsddNode *back[2] = {w.m->ReadPsddFile(path.c_str(), f2),
                         fresh.m->ReadPsddFile(path.c_str(), f2)};
    for (int k = 0; k < 2; ++k) {
      World &in = k ? fresh : w;
      c.check(back[k] != nullptr, "read-null", "nothing was read");
      AuditOpts o = raw_opts();
      o.check_flag = true;
      o.flag = f2;
      Import got;
      bad = audit(back[k], in, o, &got);
      c.check(bad.empty(), "audit-read", S(bad, what));
      d = diff_dist(r, got.spec.root, sp.root, vars, tol);
      c.check(d.empty(), "roundtrip", S(d, what));
      c.check(o_count(got.spec.root) == o_count(sp.root), "support",
              S("model count changed", what));
      // what was read is a fixed point of writing and reading
      std::string p2 = c.scratch + "/q.psdd";
      psdd_node_util::WritePsddToFile(back[k], p2.c_str());
      PsddNode *again = in.m->ReadPsddFile(p2.c_str(), f2);
      c.check(again == back[k], "fixed-point",
              S("writing and reading again gives another PSDD", what));
    }
    c.count("roundtrips", 2);
    if (sp.root->kind == DEC) c.nontrivial(mix(spec_hash(sp.root), 1));
  } else {
    // a file by someone else
    std::vector<const SNode *> order;
    {  // random topological order, root last
      auto nodes = spec_nodes((const SNode *)sp.root);
      std::set<const SNode *> done;
      std::vector<const SNode *> left(nodes.begin(), nodes.end());
      while (!left.empty()) {
        std::vector<size_t> ready;
        for (size_t i = 0; i < left.size() && ready.size() < 12; ++i) {
          bool ok = true;
          for (auto &e : left[i]->el) ok = ok && done.count(e.p) && done.count(e.s);
          if (ok) ready.push_back(i);
        }
        size_t i = r.pick(ready);
        done.insert(left[i]);
        order.push_back(left[i]);
        left.erase(left.begin() + (long)i);
      }
    }
    std::map<const SNode *, long> id;
    std::set<long> used;
    // small, dense or beyond 32 bits
    uint64_t most = r.chance(0.5) ? 4 * order.size() : r.chance(0.5) ? 2000000000ull : 1ull << 62;
    for (auto *x : order) {
      long k;
      do k = (long)r.below(r.chance(0.2) ? 4 * order.size() : most);
      while (!used.insert(k).second);
      id[x] = k;
    }
    std::string text;
    auto comments = [&] {
      while (r.chance(0.15)) text += r.chance(0.5) ? "c\n" : "c a comment L 1 2 3 D\n";
    };
    comments();
    text += S("psdd ", order.size(), "\n");
    for (auto *x : order) {
      comments();
      if (x->kind == LIT)
        text += S("L ", id[x], " ", x->vt->id, " ", x->lit);
      else if (x->kind == TOP)
        text += S("T ", id[x], " ", x->vt->id, " ", x->vt->var, " ", num(r, x->lf), " ",
                  num(r, x->lt));
      else {
        auto el = x->el;
        r.shuffle(el);
        text += S("D ", id[x], " ", x->vt->id, " ", el.size());
        for (auto &e : el) text += S(" ", id[e.p], " ", id[e.s], " ", num(r, e.w));
      }
      if (x != order.back() || r.chance(0.7)) text += "\n";
    }
    std::ofstream(path) << text;
    uintmax_t f2 = any_flag(r);
    PsddNode *got = fresh.m->ReadPsddFile(path.c_str(), f2);
    c.check(got != nullptr, "read-null", "nothing was read");
    AuditOpts o = raw_opts();
    o.check_flag = true;
    o.flag = f2;
    Import imp;
    std::string bad = audit(got, fresh, o, &imp);
    c.check(bad.empty(), "audit-read", S(bad, what));
    std::string d = diff_dist(r, imp.spec.root, sp.root, vars, 1e-6 * (n + 2));
    c.check(d.empty(), "foreign-file", S(d, "; file ", text.substr(0, 1500), what));
    c.count("foreign_files");
    if (sp.root->kind == DEC) c.nontrivial(mix(spec_hash(sp.root), 2));
  }
}
}  // namespace vh
