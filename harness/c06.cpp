// Products of distributions.
#include "ops.h"
using namespace vh;
namespace vh {
const char *const kProperty = "C06";
const char *const kRule =
    "random vtree x pairs and chains of random PSDDs (independent, overlapping, disjoint and "
    "equal supports, constraint-derived weight-1 arguments, arguments of another manager) "
    "multiplied; the product is compared with the pointwise product by enumeration (<= 9 "
    "variables) or by an independent pairwise recursion and sampled assignments; non-trivial "
    "= both arguments are decision nodes and the product is not empty";
int num_cases(bool t) { return t ? 60000 : 4000; }

// sum over all assignments of a(x) b(x), independent of the library
static LD o_z(const SNode *a, const SNode *b,
              std::map<std::pair<const SNode *, const SNode *>, LD> *memo) {
  auto key = std::make_pair(a, b);
  auto it = memo->find(key);
  if (it != memo->end()) return it->second;
  LD z = NEG_INF();
  if (a->kind == DEC) {
    for (auto &x : a->el)
      for (auto &y : b->el) {
        LD p = o_z(x.p, y.p, memo);
        if (p == NEG_INF()) continue;
        LD s = o_z(x.s, y.s, memo);
        if (s == NEG_INF()) continue;
        z = lse(z, p + s + (LD)x.w + (LD)y.w);
      }
  } else {
    for (int v = 0; v < 2; ++v) {
      auto val = [&](const SNode *n) -> LD {
        if (n->kind == LIT) return (n->lit > 0) == (v == 1) ? 0 : NEG_INF();
        return v ? n->lt : n->lf;
      };
      LD p = val(a), q = val(b);
      if (p != NEG_INF() && q != NEG_INF()) z = lse(z, p + q);
    }
  }
  (*memo)[key] = z;
  return z;
}

void run_case(Case &c) {
  Rng &r = c.rng;
  World w, other;
  bool big = c.index % 8 == 7;
  int n = big ? r.range(12, c.thorough ? 90 : 50) : r.range(1, 8);
  make_world(c, n, &w);
  bool foreign = r.chance(0.15);
  if (foreign) same_world(c, w, &other);
  struct Arg {
    std::unique_ptr<Spec> sp;
    PsddNode *node;
    const char *kind;
  };
  std::vector<std::unique_ptr<SddCtx>> sdds;
  Table first;  // support of the first argument when small
  auto make = [&](int role) {
    Arg a;
    a.sp.reset(new Spec);
    World &home = foreign && r.chance(0.6) ? other : w;
    int how = (int)r.below(6);
    if (!big && role > 0 && how == 0 && !first.empty()) {
      // disjoint from the first argument (when that is satisfiable)
      Table t(first.size());
      bool any = false;
      for (size_t i = 0; i < t.size(); ++i) any |= (t[i] = !first[i] && r.chance(0.7));
      if (any) {
        a.sp->root = gen_from_table(r, a.sp.get(), home.vt.root, t, product_style(r),
                                    r.real());
        a.kind = "disjoint";
      }
    } else if (!big && role > 0 && how == 1 && !first.empty()) {
      a.sp->root =
          gen_from_table(r, a.sp.get(), home.vt.root, first, product_style(r), r.real());
      a.kind = "same-support";
    }
    if (!a.sp->root && !big && how == 2) {
      // a constraint: weights of one
      sdds.emplace_back(new SddCtx);
      make_sdd(home.vt, &r, sdds.back().get());
      Table t = random_table(r, n);
      bool any = false;
      for (auto x : t) any |= x;
      if (!any) t[0] = 1;
      PsddNode *p = home.m->ConvertSddToPsdd(
          sdd_of_table(*sdds.back(), home.vars(), t), sdd_manager_vtree(sdds.back()->m),
          r.below(3));
      Import imp;
      std::string bad = audit(p, home, raw_opts(), &imp);
      c.check(bad.empty(), "audit-argument", bad);
      *a.sp = std::move(imp.spec);
      a.node = p;
      a.kind = "constraint";
      if (role == 0) first = t;
      return a;
    }
    if (!a.sp->root) {
      if (!big && r.chance(0.5)) {
        Table t = random_table(r, n);
        bool any = false;
        for (auto x : t) any |= x;
        if (!any) t[r.below(t.size())] = 1;
        a.sp->root =
            gen_from_table(r, a.sp.get(), home.vt.root, t, product_style(r), r.real());
      } else {
        any_spec(c, home, product_style(r), a.sp.get());
      }
      a.kind = "random";
    }
    a.node = build(a.sp->root, home.m, any_flag(r), nullptr, &r);
    if (role == 0 && !big) {
      first.clear();
      for (LD x : o_dense(a.sp->root)) first.push_back(x != NEG_INF());
    }
    return a;
  };
  std::vector<Arg> args;
  args.push_back(make(0));
  int k = r.chance(0.3) ? 3 : 2;
  for (int i = 1; i < k; ++i)
    args.push_back(r.chance(0.05) ? Arg{nullptr, args[0].node, "itself"} : make(i));
  auto spec_of = [&](const Arg &a) { return a.sp ? a.sp->root : args[0].sp->root; };
  uintmax_t flag = any_flag(r);
  double tol = 1e-6 * (n + 2);
  std::string what = S("vtree ", vt_str(w.vt.root), " args");
  for (auto &a : args) what += S(" [", a.kind, " ", spec_str(spec_of(a), 40), "]");
  c.sample(what.substr(0, 600));

  PsddNode *cur = args[0].node;
  LD z_total = 0;
  std::vector<LD> want;
  if (!big) want = o_dense(spec_of(args[0]));
  Spec hold = Spec();
  const SNode *cur_spec = spec_of(args[0]);
  std::vector<std::unique_ptr<Import>> keep;
  bool empty = false;
  for (int i = 1; i < k; ++i) {
    PsddNode *x = cur, *y = args[(size_t)i].node;
    const SNode *ys = spec_of(args[(size_t)i]);
    auto ab = w.m->Multiply(x, y, flag);
    std::map<std::pair<const SNode *, const SNode *>, LD> memo;
    LD z = o_z(cur_spec, ys, &memo);
    if (!big) {
      std::vector<LD> d = o_dense(ys);
      LD zz = NEG_INF();
      auto now = o_dense(cur_spec);
      for (size_t j = 0; j < d.size(); ++j) {
        bool dead = want[j] == NEG_INF() || d[j] == NEG_INF();
        want[j] = dead ? NEG_INF() : want[j] + d[j];
        if (now[j] != NEG_INF() && d[j] != NEG_INF()) zz = lse(zz, now[j] + d[j]);
      }
      c.check(close(zz, z, 1e-6), "oracle", "the two references disagree");
    }
    c.check((ab.first == nullptr) == (z == NEG_INF()), "emptiness",
            S("product is ", ab.first ? "non-empty" : "empty", ", normalising constant ",
              (double)z, "; ", what));
    c.check(close(ab.second.parameter(), z, tol), "constant",
            S("returned constant ", ab.second.parameter(), ", expected ", (double)z, "; ",
              what));
    if (r.chance(0.3)) {
      auto ba = w.m->Multiply(y, x, flag);
      c.check((ba.first == nullptr) == (ab.first == nullptr) &&
                  close(ba.second.parameter(), ab.second.parameter(), tol),
              "commutes", what);
      if (ab.first) {
        Import i1, i2;
        audit(ab.first, w, raw_opts(), &i1);
        audit(ba.first, w, raw_opts(), &i2);
        std::string d = diff_dist(r, i1.spec.root, i2.spec.root, w.vars(), tol, 20);
        c.check(d.empty(), "commutes", S(d, "; ", what));
      }
      c.count("commuted");
    }
    if (!ab.first) {
      empty = true;
      auto again = w.m->Multiply(ab.first, y, flag);
      c.check(again.first == nullptr && again.second.parameter() == (double)NEG_INF(),
              "empty-argument", "the product with the empty PSDD is not empty");
      c.count("empty_products");
      break;
    }
    keep.emplace_back(new Import);
    AuditOpts o;
    o.flag = flag;
    o.positive = true;
    std::string bad = audit(ab.first, w, o, keep.back().get());
    c.check(bad.empty(), "audit", S(bad, "; ", what));
    const SNode *prod = keep.back()->spec.root;
    c.check(prod->vt == w.vt.root, "root", "product is not over the whole vtree");
    z_total += z;
    if (!big) {
      std::vector<LD> got = o_dense(prod);
      for (auto &g : got)
        if (g != NEG_INF()) g += z_total;
      std::string d = diff_dense(got, want, w.vars(), tol);
      c.check(d.empty(), "pointwise", S(d, " (constant ", (double)z_total, "); ", what));
    } else {
      for (int q = 0; q < 40; ++q) {
        const SNode *from = q % 3 == 0 ? prod : q % 3 == 1 ? cur_spec : ys;
        Evid e = some_assignment(r, from, w.vars());
        LD a = o_logp(cur_spec, e), b = o_logp(ys, e), g = o_logp(prod, e);
        LD ex = a == NEG_INF() || b == NEG_INF() ? NEG_INF() : a + b - z;
        c.check(close(g, ex, tol), "pointwise",
                S("at ", evid_str(e), " log ", (double)g, ", expected ", (double)ex, "; ",
                  what));
      }
    }
    // the library's own evaluation agrees with the identity
    Evid e = some_assignment(r, prod, w.vars());
    Bits m, in;
    to_bits(e, &m, &in);
    LD pa = psdd_node_util::Evaluate(m, in, x).parameter(),
       pb = psdd_node_util::Evaluate(m, in, y).parameter(),
       pc = psdd_node_util::Evaluate(m, in, ab.first).parameter();
    LD ex = pa == NEG_INF() || pb == NEG_INF() ? NEG_INF() : pa + pb - z;
    c.check(close(pc, ex, tol), "evaluate",
            S("at ", evid_str(e), " evaluates to ", (double)pc, ", expected ", (double)ex,
              "; ", what));
    c.count("products");
    if (cur_spec->kind == DEC && ys->kind == DEC)
      c.nontrivial(mix(mix(spec_hash(cur_spec), spec_hash(ys)), 6));
    cur = ab.first;
    cur_spec = prod;
  }
  if (foreign) c.count("foreign_arguments");
  (void)empty;
}
}  // namespace vh
