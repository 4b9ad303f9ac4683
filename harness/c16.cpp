// Operations leave everything else as it was.
#include "ops.h"
using namespace vh;
namespace vh {
const char *const kProperty = "C16";
const char *const kRule =
    "random histories of 8..40 operations of every kind over two managers holding several "
    "PSDDs; after every step a bit-exact snapshot of every held PSDD, the scratch state of "
    "all its nodes, of both vtrees and of the constraint vtree are compared, and earlier "
    "query answers are asked again; one PSDD of more than 65536 nodes; non-trivial = history with >= 5 node-creating steps, "
    "distinct by operation sequence and structures";
int num_cases(bool t) { return t ? 30000 : 4000; }

static uint64_t bits(double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}
// pointers, numbers, flags, parameters bit by bit, element order
static uint64_t exact(PsddNode *root, std::vector<PsddNode *> *nodes) {
  std::unordered_set<PsddNode *> seen;
  std::vector<PsddNode *> st{root};
  uint64_t h = 0;
  while (!st.empty()) {
    PsddNode *x = st.back();
    st.pop_back();
    if (!seen.insert(x).second) continue;
    if (nodes) nodes->push_back(x);
    uint64_t k = mix((uint64_t)x, mix(x->node_index(), x->flag_index()));
    k = mix(k, mix((uint64_t)x->vtree_node(), x->hash_value()));
    if (x->node_type() == LITERAL_NODE_TYPE) {
      k = mix(k, (uint64_t)(int64_t)x->psdd_literal_node()->literal());
    } else if (x->node_type() == TOP_NODE_TYPE) {
      k = mix(k, bits(x->psdd_top_node()->true_parameter().parameter()));
      k = mix(k, bits(x->psdd_top_node()->false_parameter().parameter()));
    } else {
      auto *d = x->psdd_decision_node();
      for (size_t i = 0; i < d->primes().size(); ++i) {
        k = mix(k, mix((uint64_t)d->primes()[i], (uint64_t)d->subs()[i]));
        k = mix(k, bits(d->parameters()[i].parameter()));
        st.push_back(d->primes()[i]);
        st.push_back(d->subs()[i]);
      }
    }
    h ^= k * 0x9E3779B97F4A7C15ull;
  }
  return h;
}
struct Held {
  World *w;
  PsddNode *root;
  uint64_t hash;
  std::vector<PsddNode *> nodes;
  bool normalised, positive;
  std::vector<std::pair<std::pair<Bits, Bits>, double>> answers;
  std::string count;
  double mpe = 1;
};

// a PSDD of more than 65536 nodes
static void huge_case(Case &c) {
  Rng &r = c.rng;
  Huge h;
  make_huge(c, &h);
  World o;
  same_world(c, h.w, &o);
  uint64_t before = exact(h.root, nullptr);
  auto step = [&](const char *op) {
    c.check(exact(h.root, nullptr) == before, "psdd", S("changed by ", op, h.what));
    huge_clean(c, h);
    c.count("huge_steps");
  };
  Bits em, ei;
  to_bits(support_assignment(r, h.sp.root), &em, &ei);
  std::vector<int> script{0, 1, 2, 3, 4, 5, 6, 7};
  r.shuffle(script);
  for (int i : script) {
    switch (i) {
      case 0: psdd_node_util::GetMarginals(psdd_node_util::SerializePsddNodes(h.root)); step("marginals"); break;
      case 1: psdd_node_util::GetMPESolution(h.root); step("most probable explanation"); break;
      case 2: psdd_node_util::Evaluate(em, ei, h.root); step("evaluation"); break;
      case 3: psdd_node_util::IsConsistent(h.root, em, ei); step("consistency"); break;
      case 4: psdd_node_util::WritePsddToFile(h.root, (c.scratch + "/h.psdd").c_str()); step("writing"); break;
      case 5: {
        RandomDoubleFromUniformGenerator g(0.1, 1, (uint)r.u64());
        h.w.m->SampleParameters(&g, h.root, 3);
        step("sampling of parameters");
        break;
      }
      case 6: o.m->LoadPsddNode(o.m->vtree(), h.root, 1); step("loading"); break;
      default: {
        std::unordered_map<int32_t, BatchedPsddValue> d;
        for (int v : h.w.vars()) d[v] = BatchedPsddValue(2, r.chance(0.5));
        h.w.m->LearnPsddParameters(h.root, d, 2, PsddParameter::CreateFromDecimal(1), 5);
        step("learning");
      }
    }
  }
}
void run_case(Case &c) {
  if (huge_index(c)) return huge_case(c);
  Rng &r = c.rng;
  int n = c.index % 8 == 7 ? r.range(10, 40) : r.range(1, 7);
  World a, b;
  make_world(c, n, &a);
  same_world(c, a, &b);
  World *ws[2] = {&a, &b};
  SddCtx sc;
  make_sdd(a.vt, &r, &sc);
  std::string va = vtree_str(a.m->vtree()), vb = vtree_str(b.m->vtree()),
              vs = vtree_str(sdd_manager_vtree(sc.m));
  std::vector<Held> held;
  std::string script;
  uint64_t id = hash_str(va);
  auto hold = [&](World *w, PsddNode *x, bool normalised, bool positive) {
    Held h;
    h.w = w;
    h.root = x;
    h.hash = exact(x, &h.nodes);
    h.normalised = normalised;
    h.positive = positive;
    held.push_back(std::move(h));
    id = mix(id, held.size());
  };
  for (int k = 0; k < 2; ++k) {
    Spec s;
    any_spec(c, *ws[k], positive_style(r), &s);
    hold(ws[k], build(s.root, ws[k]->m, any_flag(r)), true, true);
  }
  int steps = r.range(8, c.thorough ? 40 : 25), created = 0;
  for (int step = 0; step < steps; ++step) {
    size_t hi = r.below(held.size());
    World *w = held[hi].w;
    World *o = w == &a ? &b : &a;
    PsddNode *x = held[hi].root;
    bool norm = held[hi].normalised, pos = held[hi].positive;
    int op = (int)r.below(22);
    const char *name = "?";
    uintmax_t flag = any_flag(r);
    switch (op) {
      case 0: {
        name = "build";
        Spec s;
        int style = (int)r.below(7);
        any_spec(c, *w, style, &s);
        hold(w, build(s.root, w->m, flag), true, style < 6);
        break;
      }
      case 1: {
        name = "evaluate";
        Evid e = random_evid(r, w->vars(), r.real());
        Bits m, in;
        to_bits(e, &m, &in);
        Bits m0 = m, in0 = in;
        double v = psdd_node_util::Evaluate(m, in, x).parameter();
        c.check(m == m0 && in == in0, "inputs", "the evidence was modified");
        held[hi].answers.push_back({{m, in}, v});
        break;
      }
      case 2: {
        name = "mpe";
        double v = psdd_node_util::GetMPESolution(x).second.parameter();
        if (held[hi].mpe <= 0)
          c.check(bits(v) == bits(held[hi].mpe), "repeat-mpe", "MPE value changed");
        held[hi].mpe = v;
        break;
      }
      case 3: {
        name = "marginals";
        auto ser = psdd_node_util::SerializePsddNodes(x);
        auto m1 = psdd_node_util::GetMarginals(ser), m2 = psdd_node_util::GetMarginals(ser);
        for (auto &p : m1)
          c.check(bits(p.second.first.parameter()) == bits(m2[p.first].first.parameter()) &&
                      bits(p.second.second.parameter()) == bits(m2[p.first].second.parameter()),
                  "repeat-marginals", "marginals changed when asked again");
        break;
      }
      case 4: {
        name = "count";
        std::string v =
            psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(x)).get_str();
        c.check(held[hi].count.empty() || held[hi].count == v, "repeat-count",
                "model count changed");
        held[hi].count = v;
        break;
      }
      case 5: {
        name = "consistent";
        Evid e = random_evid(r, w->vars(), r.real());
        Bits m, in;
        to_bits(e, &m, &in);
        bool p = psdd_node_util::IsConsistent(x, m, in), q = psdd_node_util::IsConsistent(x, m, in);
        c.check(p == q, "repeat-consistent", "consistency changed when asked again");
        break;
      }
      case 6: {
        name = "write";
        if (r.chance(0.15)) {  // nowhere to write to
          name = "write-nowhere";
          psdd_node_util::WritePsddToFile(x, (c.scratch + "/none/w.psdd").c_str());
          break;
        }
        psdd_node_util::WritePsddToFile(x, (c.scratch + "/w.psdd").c_str());
        if (r.chance(0.5)) {
          hold(o, o->m->ReadPsddFile((c.scratch + "/w.psdd").c_str(), flag), false, pos);
          ++created;
        }
        break;
      }
      case 7: {
        name = "sample";
        RandomDoubleFromGammaGenerator g(1 + r.real(), 1, (uint)r.u64());
        hold(w, w->m->SampleParameters(&g, x, flag), true, true);
        ++created;
        break;
      }
      case 8: {
        name = "sample-many";
        std::vector<PsddNode *> in;
        for (auto &h : held)
          if (h.w == w && r.chance(0.5)) in.push_back(h.root);
        if (in.empty()) in.push_back(x);
        RandomDoubleFromUniformGenerator g(0.1, 1, (uint)r.u64());
        auto out = w->m->SampleParametersForMultiplePsdds(&g, in, flag);
        for (auto *y : out) hold(w, y, true, true);
        ++created;
        break;
      }
      case 9: {
        name = "learn";
        size_t N = r.below(12);
        std::unordered_map<int32_t, BatchedPsddValue> ex;
        for (int v : w->vars()) {
          ex[v] = BatchedPsddValue(N, false);
          for (size_t i = 0; i < N; ++i) ex[v][i] = r.chance(0.5);
        }
        hold(w, w->m->LearnPsddParameters(x, ex, N, PsddParameter::CreateFromDecimal(0.5), flag),
             true, true);
        ++created;
        break;
      }
      case 10: {
        name = "multiply";
        size_t hj = r.below(held.size());
        auto p = w->m->Multiply(x, held[hj].root, flag);
        if (p.first) hold(w, p.first, true, true), ++created;
        break;
      }
      case 11: {
        name = "load";
        hold(o, o->m->LoadPsddNode(o->m->vtree(), x, flag), norm, pos);
        ++created;
        break;
      }
      case 12: {
        name = "convert";
        if (n > 9) break;
        SddNode *f = sdd_of_table(sc, a.vars(), random_table(r, n));
        sdd_ref(f, sc.m);
        auto sz = sdd_count(f);
        PsddNode *p = w->m->ConvertSddToPsdd(f, sdd_manager_vtree(sc.m), flag);
        c.check(sdd_count(f) == sz, "sdd", "the constraint changed");
        sdd_deref(f, sc.m);
        if (p) hold(w, p, false, true), ++created;
        break;
      }
      case 13: {
        name = "to-sdd";
        if (n > 9) break;
        std::unordered_map<SddLiteral, SddLiteral> vm;
        for (auto &p : sc.to_sdd_var) vm[p.first] = p.second;
        auto ser = psdd_node_util::SerializePsddNodes(x);
        SddNode *f = psdd_node_util::ConvertPsddNodeToSddNode(ser, vm, sc.m);
        c.check(f != nullptr, "to-sdd", "no constraint");
        break;
      }
      case 14: {
        name = "cleanup";
        // forget some, keep the rest
        std::vector<Held> left;
        std::vector<PsddNode *> keep;
        for (auto &h : held) {
          if (h.w == w && &h != &held[hi] && r.chance(0.4)) continue;
          left.push_back(h);
          if (h.w == w) keep.push_back(h.root);
        }
        held = left;
        w->m->DeleteUnusedPsddNodes(keep);
        break;
      }
      case 15: {
        name = "vtree-utilities";
        Vtree *at = r.pick(vtree_util::SerializeVtree(w->m->vtree()));
        std::vector<SddLiteral> under = vtree_util::VariablesUnderVtree(at), some;
        for (auto v : vtree_util::LeftToRightLeafTraverse(w->m->vtree()))
          if (r.chance(0.5)) some.push_back(v);
        if (some.empty()) some.push_back(under[0]);
        Vtree *v1 = vtree_util::ProjectVtree(w->m->vtree(), some), *v2 = vtree_util::CopyVtree(at);
        c.check(vtree_util::SubVtreeByVariables(
                    w->m->vtree(), std::unordered_set<SddLiteral>(under.begin(), under.end())) == at,
                "sub-vtree", "another node is said to cover exactly these variables");
        sdd_vtree_free(v1);
        sdd_vtree_free(v2);
        break;
      }
      case 16: {
        name = "from-sdd";
        if (n > 9) break;
        const VT *at = r.pick(w->vt.all());
        VTree tv;
        std::function<VT *(const VT *)> cp = [&](const VT *v) {
          return v->leaf() ? tv.new_leaf(v->var) : tv.new_node(cp(v->l), cp(v->r));
        };
        tv.finish(cp(at));
        SddCtx s;
        make_sdd(tv, &r, &s);
        SddNode *f = sdd_of_table(s, at->vars, random_table(r, (int)at->vars.size()));
        if (r.chance(0.15)) f = r.chance(0.5) ? sdd_manager_true(s.m) : sdd_manager_false(s.m);
        PsddNode *p;
        if (r.chance(0.5)) {
          std::unordered_set<SddLiteral> used(at->vars.begin(), at->vars.end()), used0 = used;
          p = w->m->FromSdd(f, sdd_manager_vtree(s.m), flag, used);
          c.check(used == used0, "inputs", "the set of variables was modified");
        } else {
          p = w->m->FromSdd(f, sdd_manager_vtree(s.m), flag, w->back.at(at));
        }
        std::string dirty = vtree_clean(sdd_manager_vtree(s.m));
        c.check(dirty.empty(), "vtree-scratch", S(dirty, " after from-sdd"));
        if (p && at == w->vt.root) hold(w, p, false, true), ++created;
        break;
      }
      case 17: {
        name = "true-or-lift";
        PsddNode *p = r.chance(0.4)
                          ? w->m->GetTrueNode(w->m->vtree(), flag)
                          : w->m->NormalizePsddNode(
                                w->m->vtree(),
                                w->m->GetPsddLiteralNode(
                                    (r.chance(0.5) ? 1 : -1) * r.pick(w->vars()), flag),
                                flag);
        hold(w, p, false, true);
        ++created;
        break;
      }
      case 18: {
        name = "clauses";
        if (n > 12) break;
        std::vector<std::vector<SddLiteral>> cl((size_t)r.range(0, 4));
        for (auto &y : cl)
          for (int i = r.range(r.chance(0.1) ? 0 : 1, 3); i > 0; --i)
            y.push_back(r.chance(0.5) ? r.pick(w->vars()) : -r.pick(w->vars()));
        CNF cnf(cl);
        PsddNode *p = cnf.Compile(w->m, flag);
        c.check(cnf.clauses() == cl, "inputs", "the clauses were modified");
        if (p) hold(w, p, false, true), ++created;
        break;
      }
      case 19: {
        name = "list";
        std::vector<PsddNode *> in;
        for (auto &h : held)
          if (h.w == w && r.chance(0.5)) in.push_back(h.root);
        std::vector<PsddNode *> in0 = in;
        auto l = psdd_node_util::SerializePsddNodes(in);
        auto cov = psdd_node_util::GetCoveredPsddNodes(in);
        c.check(in == in0, "inputs", "the list of roots was modified");
        c.check(l.size() == cov.size(), "list", "the listings differ in length");
        auto z1 = psdd_node_util::GetPsddSize(x), z2 = psdd_node_util::GetPsddSize(x);
        c.check(z1 == z2, "repeat-size", "the size changed when asked again");
        break;
      }
      case 20: {
        name = "consistent-node";
        Evid e = random_evid(r, w->vars(), r.real());
        std::unordered_map<uint32_t, bool> pe;
        for (auto &q : e) pe[(uint32_t)q.first] = q.second;
        auto pe0 = pe;
        bool p = x->IsConsistent(pe), q = x->IsConsistent(pe);
        c.check(p == q, "repeat-consistent", "consistency changed when asked again");
        c.check(pe == pe0, "inputs", "the evidence was modified");
        break;
      }
      default: {
        name = "draw";
        // sampling needs a normalised PSDD with weights summing to one
        if (!norm) break;
        RandomDoubleFromUniformGenerator g(0, 1, (uint)r.u64());
        Bits in;
        x->DirectSample(&in, &g);
        break;
      }
    }
    script += std::string(script.empty() ? "" : " ") + name;
    c.count(name);
    id = mix(id, (uint64_t)op);
    std::string what = S("after ", script, "; vtree ", va);
    for (auto &h : held) {
      c.check(exact(h.root, nullptr) == h.hash, "snapshot",
              S("a held PSDD changed ", what));
      for (auto *x2 : h.nodes) {
        bool clean = x2->user_data() == 0 && !x2->activation_flag() &&
                     x2->batched_psdd_value().empty() && x2->batched_psdd_context_value().empty();
        if (auto *d = x2->psdd_decision_node())
          for (auto k : d->data_counts()) clean = clean && k == 0;
        if (auto *t = x2->psdd_top_node())
          clean = clean && t->true_data_count() == 0 && t->false_data_count() == 0;
        if (!clean) c.check(false, "scratch", S("a node keeps scratch state ", what));
      }
      c.checks += h.nodes.size();
      if (!h.answers.empty() && r.chance(0.3)) {
        auto &q = r.pick(h.answers);
        double v = psdd_node_util::Evaluate(q.first.first, q.first.second, h.root).parameter();
        c.check(bits(v) == bits(q.second), "repeat-query",
                S("a query that gave ", q.second, " now gives ", v, " ", what));
        c.count("repeated_queries");
      }
    }
    std::string bad = vtree_clean(a.m->vtree()) + vtree_clean(b.m->vtree()) +
                      vtree_clean(sdd_manager_vtree(sc.m));
    c.check(bad.empty(), "vtree-scratch", S(bad, " ", what));
    c.check(vtree_str(a.m->vtree()) == va && vtree_str(b.m->vtree()) == vb &&
                vtree_str(sdd_manager_vtree(sc.m)) == vs,
            "vtree", S("a vtree changed ", what));
    c.count("snapshots_compared", held.size());
    if (held.size() > 14) {
      // bounded memory: forget the oldest additions
      held.erase(held.begin() + 2, held.begin() + 6);
    }
  }
  c.sample(S("n=", n, ": ", script).substr(0, 300));
  if (created >= 5) c.nontrivial(id);
}
}  // namespace vh
