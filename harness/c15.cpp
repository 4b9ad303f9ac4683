// Clean-up of unused nodes and destruction of managers.
#include "ops.h"
using namespace vh;
namespace vh {
const char *const kProperty = "C15";
const char *const kRule =
    "random PSDDs built under several flags, clean-ups keeping random sets of roots and inner "
    "nodes (empty, repeated, nested), rebuilding afterwards, repeated build/clean-up and "
    "create/destroy rounds with the allocator's live bytes as the monitor; AddressSanitizer "
    "watches every access to kept nodes; non-trivial = some nodes kept and some dropped, "
    "distinct by kept set and structure";
int num_cases(bool t) { return t ? 40000 : 3000; }

struct Snap {
  PsddNode *root;
  const SNode *spec;
  uintmax_t flag;
  uint64_t hash;
};
static uint64_t exact(PsddNode *root) {
  std::unordered_set<PsddNode *> seen;
  std::vector<PsddNode *> st{root};
  uint64_t h = 0;
  while (!st.empty()) {
    PsddNode *x = st.back();
    st.pop_back();
    if (!seen.insert(x).second) continue;
    uint64_t k = mix((uint64_t)x, mix(x->node_index(), x->flag_index()));
    k = mix(k, (uint64_t)x->vtree_node());
    k = mix(k, x->hash_value());
    auto bits = [](double d) {
      uint64_t u;
      memcpy(&u, &d, 8);
      return u;
    };
    if (x->node_type() == LITERAL_NODE_TYPE) {
      k = mix(k, (uint64_t)(int64_t)x->psdd_literal_node()->literal());
    } else if (x->node_type() == TOP_NODE_TYPE) {
      k = mix(k, bits(x->psdd_top_node()->true_parameter().parameter()));
      k = mix(k, bits(x->psdd_top_node()->false_parameter().parameter()));
    } else {
      auto *d = x->psdd_decision_node();
      for (size_t i = 0; i < d->primes().size(); ++i) {
        k = mix(k, (uint64_t)d->primes()[i]);
        k = mix(k, (uint64_t)d->subs()[i]);
        k = mix(k, bits(d->parameters()[i].parameter()));
        st.push_back(d->primes()[i]);
        st.push_back(d->subs()[i]);
      }
    }
    h ^= k * 0x9E3779B97F4A7C15ull;
  }
  return h;
}

static void huge_case(Case &c) {
  Rng &r = c.rng;
  Huge h;
  make_huge(c, &h);
  size_t before = live_bytes();
  RandomDoubleFromUniformGenerator g(0.05, 1, (uint)r.u64());
  h.w.m->SampleParameters(&g, h.root, ~0ull);
  size_t filled = live_bytes();
  h.w.m->DeleteUnusedPsddNodes({h.root});
  size_t after = live_bytes();
  c.check(after < before + (filled - before) / 8, "released",
          S("live bytes ", before, " -> ", filled, " -> ", after, h.what));
  Import got;
  AuditOpts o = raw_opts();
  o.disjoint = false;
  std::string bad = audit(h.root, h.w, o, &got);
  c.check(bad.empty(), "kept", S(bad, h.what));
  c.check(spec_reach(got.spec.root) == spec_reach(h.sp.root), "kept", S("nodes lost", h.what));
  std::string d = diff_dist(r, got.spec.root, h.sp.root, h.w.vars(), 1e-6, 6);
  c.check(d.empty(), "kept", S(d, h.what));
}
void run_case(Case &c) {
  Rng &r = c.rng;
  if (huge_index(c)) return huge_case(c);
  int n = c.index % 8 == 7 ? r.range(11, c.thorough ? 120 : 50) : r.range(1, 8);
  if (c.index % 10 == 4) {
    // create/destroy rounds and build/clean-up rounds must not accumulate memory
    uint64_t seed = r.u64();
    bool rounds_of_managers = r.chance(0.5);
    World w;
    make_world(c, n, &w);
    std::vector<size_t> live;
    std::vector<PsddNode *> kept;
    Spec keep;
    if (!rounds_of_managers) {
      any_spec(c, w, 0, &keep);
      if (r.chance(0.7)) kept.push_back(build(keep.root, w.m, 0));
    }
    for (int k = 0; k < 9; ++k) {
      {
        Rng rr(seed);
        Spec a, b;
        if (n <= 10) {
          random_spec(rr, w.vt, 0, &a);
          random_spec(rr, w.vt, 1, &b);
        } else {
          big_spec(rr, w.vt, 0, 2, &a);
          big_spec(rr, w.vt, 1, 2, &b);
        }
        PsddManager *m = w.m;
        Vtree *v = nullptr;
        if (rounds_of_managers) {
          v = to_sdd(w.vt.root);
          m = PsddManager::GetPsddManagerFromVtree(v);
        }
        PsddNode *x = build(a.root, m, 0), *y = build(b.root, m, rr.below(2));
        m->Multiply(x, y, 1);
        RandomDoubleFromUniformGenerator g(0.1, 1, (uint)seed);
        m->SampleParameters(&g, y, 2);
        if (rounds_of_managers) {
          if (rr.chance(0.5)) m->DeleteUnusedPsddNodes({x});
          delete m;
          sdd_vtree_free(v);
        } else {
          m->DeleteUnusedPsddNodes(kept);
        }
      }
      live.push_back(live_bytes());
    }
    bool grows = true;
    for (size_t k = 3; k < live.size(); ++k) grows = grows && live[k] > live[k - 1];
    c.check(!grows, rounds_of_managers ? "leak-manager" : "leak-cleanup",
            S("live bytes grow in every round: ", live[2], " -> ", live.back(), "; vtree ",
              vt_str(w.vt.root)));
    c.count(rounds_of_managers ? "manager_rounds" : "cleanup_rounds", 9);
    return;
  }
  World w;
  make_world(c, n, &w);
  std::vector<std::unique_ptr<Spec>> specs;
  std::vector<Snap> all;
  auto add = [&](int style) {
    specs.emplace_back(new Spec);
    any_spec(c, w, style, specs.back().get());
    Snap s;
    s.spec = specs.back()->root;
    s.flag = any_flag(r);
    Built b;
    s.root = build(s.spec, w.m, s.flag, &b, &r);
    s.hash = exact(s.root);
    all.push_back(s);
    // inner nodes can be held as well
    if (r.chance(0.5)) {
      auto ns = spec_nodes(s.spec);
      Snap t;
      t.spec = r.pick(ns);
      t.flag = s.flag;
      t.root = b.of.at(t.spec);
      t.hash = exact(t.root);
      all.push_back(t);
    }
  };
  std::string what = S("; vtree ", vt_str(w.vt.root));
  // other ways to obtain PSDDs, tried again after every clean-up
  struct Made {
    Recipe k;
    Import imp;
    bool empty;
  };
  std::vector<std::unique_ptr<Made>> made;
  auto make = [&](Made *d, bool first) {
    const char *name = "?";
    PsddNode *x = produce(c, w, d->k, &name);
    if (first) d->empty = !x;
    c.check(d->empty == !x, "again", S(name, " is false only once", what));
    if (!x) return;
    AuditOpts o = raw_opts();
    o.check_flag = true;
    o.flag = d->k.flag;
    Import imp;
    std::string bad = audit(x, w, o, first ? &d->imp : &imp);
    c.check(bad.empty(), "audit-again", S(name, ": ", bad, what));
    c.count("recipes");
    if (first) return;
    c.check(imp.spec.root->vt == d->imp.spec.root->vt, "again",
            S(name, " gives another vtree node after a clean-up", what));
    // which element gets which random number depends on the order of the nodes
    std::string e;
    if (d->k.kind != 3)
      e = diff_dist(r, imp.spec.root, d->imp.spec.root, imp.spec.root->vt->vars,
                    1e-6 * (n + 2), 10);
    c.check(e.empty(), "again", S(name, " differs after a clean-up: ", e, what));
    c.check(o_count(imp.spec.root) == o_count(d->imp.spec.root), "again",
            S(name, " has other models after a clean-up", what));
  };
  for (int k = r.range(0, 3); k > 0; --k) {
    made.emplace_back(new Made);
    made.back()->k = any_recipe(r);
    make(made.back().get(), true);
  }
  int rounds = r.range(1, 3);
  for (int k = r.range(1, 4); k > 0; --k) add((int)r.below(7));
  for (int round = 0; round < rounds; ++round) {
    std::vector<PsddNode *> keep;
    std::vector<Snap> held;
    double p = r.chance(0.15) ? 0 : r.real();
    for (auto &s : all)
      if (r.chance(p)) {
        keep.push_back(s.root);
        held.push_back(s);
      }
    if (!keep.empty() && r.chance(0.3)) keep.push_back(r.pick(keep));
    r.shuffle(keep);
    // what the kept roots reach, and what may go
    std::unordered_set<PsddNode *> reach;
    for (auto *k : keep) {
      std::vector<PsddNode *> st{k};
      while (!st.empty()) {
        PsddNode *x = st.back();
        st.pop_back();
        if (!reach.insert(x).second) continue;
        if (auto *d = x->psdd_decision_node()) {
          for (auto *q : d->primes()) st.push_back(q);
          for (auto *q : d->subs()) st.push_back(q);
        }
      }
    }
    size_t junk = 0;
    std::vector<PsddNode *> unused;
    {
      std::unordered_set<PsddNode *> seen;
      for (auto &s : all) {
        std::vector<PsddNode *> st{s.root};
        while (!st.empty()) {
          PsddNode *x = st.back();
          st.pop_back();
          if (!seen.insert(x).second) continue;
          junk += !reach.count(x);
          if (!reach.count(x)) unused.push_back(x);
          if (auto *d = x->psdd_decision_node()) {
            for (auto *q : d->primes()) st.push_back(q);
            for (auto *q : d->subs()) st.push_back(q);
          }
        }
      }
    }
    c.sample(S("n=", n, " keep ", keep.size(), " of ", all.size(), " roots: ", reach.size(),
               " nodes stay, ", junk, " go"));
    unused.shrink_to_fit();
    size_t before = live_bytes();
    if (r.chance(0.4)) {
      // a clean-up right before this one, which keeps more of the PSDDs
      std::vector<PsddNode *> first = keep;
      double q = r.chance(0.3) ? 1 : r.real();
      for (auto &s : all)
        if (r.chance(q)) first.push_back(s.root);
      if (!keep.empty() && r.chance(0.5))
        while (keep.size() < first.size()) keep.push_back(r.pick(keep));
      r.shuffle(first);
      w.m->DeleteUnusedPsddNodes(first);
      c.count("double_cleanups");
    }
    w.m->DeleteUnusedPsddNodes(keep);
    size_t after = live_bytes();
    // memory that is freed stays poisoned for a while, unless it is to be reused at once
    for (PsddNode *x : unused)
      c.check(released(x), "not-released",
              S("one of ", unused.size(), " unused nodes stays allocated", what));
    if (!memory_reused()) c.count("nodes_seen_released", unused.size());
    // every dropped node was at least an object of this size
    size_t freed = before > after ? before - after : 0;
    size_t expect = junk * sizeof(PsddLiteralNode);
    c.check(freed + 256 >= expect * 9 / 10, "reclaimed",
            S(junk, " nodes became unused but only ", freed, " bytes were released", what));
    for (auto &s : held)
      c.check(exact(s.root) == s.hash, "kept",
              S("a kept PSDD changed during the clean-up", what));
    for (auto &s : held) {
      AuditOpts o = raw_opts();
      o.check_flag = true;
      o.flag = s.flag;
      Import imp;
      std::string bad = audit(s.root, w, o, &imp);
      c.check(bad.empty(), "audit-kept", S(bad, what));
      const auto &vars = s.spec->vt->vars;
      for (int q = 0; q < 4; ++q) {
        Evid e = some_assignment(r, s.spec, vars);
        Bits m, in;
        to_bits(e, &m, &in);
        LD got = psdd_node_util::Evaluate(m, in, s.root).parameter();
        LD want = o_logp(s.spec, e);
        c.check(close(got, want, 1e-6 * (n + 2)), "value",
                S("kept PSDD evaluates to ", (double)got, ", expected ", (double)want, what));
      }
      // the kept nodes are still the canonical ones
      PsddNode *again = build(s.spec, w.m, s.flag, nullptr, &r);
      if (s.spec->kind == DEC || s.spec->kind == TOP || s.spec->kind == LIT)
        c.check(again == s.root, "canonical", S("a kept PSDD is built anew", what));
    }
    c.count("cleanups");
    c.count("nodes_kept", reach.size());
    c.count("nodes_dropped", junk);
    if (!held.empty() && junk)
      c.nontrivial(mix(held[0].hash * 0 + spec_hash(held[0].spec), mix(junk, keep.size())));
    // work goes on
    for (auto &d : made) make(d.get(), false);
    all = held;
    size_t old = all.size();
    for (int k = r.range(1, 3); k > 0; --k) add((int)r.below(7));
    for (size_t i = old; i < all.size(); ++i) {
      AuditOpts o = raw_opts();
      o.check_flag = true;
      o.flag = all[i].flag;
      Import imp;
      std::string bad = audit(all[i].root, w, o, &imp);
      c.check(bad.empty(), "audit-new", S(bad, what));
      std::string d = diff_dist(r, imp.spec.root, all[i].spec, all[i].spec->vt->vars,
                                1e-6 * (n + 2), 10);
      c.check(d.empty(), "rebuilt", S(d, what));
    }
    if (all.size() >= 2) {
      // operations on survivors and newcomers
      Snap &a = all[0], &b = all.back();
      bool pos = true;
      for (auto *s : {&a, &b})
        for (const SNode *x : spec_nodes(s->spec)) {
          if (x->kind == TOP && (std::isinf(x->lt) || std::isinf(x->lf))) pos = false;
          for (auto &e : x->el) pos = pos && !std::isinf(e.w);
        }
      if (pos && a.spec->vt == b.spec->vt) {
        auto pr = w.m->Multiply(a.root, b.root, 1);
        if (pr.first) {
          Import imp;
          AuditOpts o;
          o.flag = 1;
          std::string bad = audit(pr.first, w, o, &imp);
          c.check(bad.empty(), "audit-product", S(bad, what));
          c.count("products");
        }
      }
    }
    for (auto &s : all) c.check(exact(s.root) == s.hash, "kept", S("a held PSDD changed", what));
  }
}
}  // namespace vh
