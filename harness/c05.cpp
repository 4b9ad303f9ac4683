// Model counts and consistency queries.
#include "ops.h"
using namespace vh;
namespace vh {
const char *const kProperty = "C05";
const char *const kRule =
    "random PSDDs (up to several hundred variables) x partial and complete evidence; counts "
    "against an independent big-integer count and, when small, enumeration; consistency "
    "through every public entry point against the support; non-trivial = decision root and "
    "non-empty evidence; distinct by structure and evidence";
int num_cases(bool t) { return t ? 30000 : 2500; }
static void huge_case(Case &c) {
  Rng &r = c.rng;
  Huge h;
  make_huge(c, &h);
  auto ser = psdd_node_util::SerializePsddNodes(h.root);
  mpz_class want = o_count(h.sp.root), got = psdd_node_util::ModelCount(ser);
  c.check(got == want, "count",
          S("ModelCount ", got.get_str(), ", reference ", want.get_str(), h.what));
  for (int k = 0; k < 8; ++k) {
    Evid e = some_assignment(r, h.sp.root, h.w.vars());
    if (k > 5)
      for (int v : h.w.vars())
        if (r.chance(0.3)) e.erase(v);
    Bits m, in;
    to_bits(e, &m, &in);
    bool cons = o_consistent(h.sp.root, e);
    c.check(psdd_node_util::IsConsistent(ser, m, in) == cons, "consistent-list",
            S("evidence ", evid_str(e), " is ", cons ? "possible" : "impossible", h.what));
  }
  huge_clean(c, h);
}
void run_case(Case &c) {
  Rng &r = c.rng;
  if (huge_index(c)) return huge_case(c);
  World w;
  bool big = c.index % 6 == 5;
  int n = big ? r.range(30, c.thorough ? 500 : 200) : r.range(1, 10);
  make_world(c, n, &w, big ? -1 : -1);
  Spec sp;
  any_spec(c, w, positive_style(r), &sp);
  PsddNode *root = build(sp.root, w.m, 0, nullptr, &r);
  auto ser = psdd_node_util::SerializePsddNodes(root);
  c.sample(S("n=", n, ctx(w, sp)));
  mpz_class want = o_count(sp.root), got = psdd_node_util::ModelCount(ser);
  c.check(got == want, "count", S("ModelCount ", got.get_str(), ", reference ", want.get_str(),
                                  ctx(w, sp)));
  std::vector<LD> dense;
  if (n <= 10) {
    dense = o_dense(sp.root);
    mpz_class k = 0;
    for (auto x : dense) k += x != NEG_INF();
    c.check(got == k, "count-enumerated", S("ModelCount ", got.get_str(), ", enumeration ",
                                            k.get_str(), ctx(w, sp)));
  }
  if (want > mpz_class("18446744073709551615")) c.count("counts_beyond_64_bits");
  Import imp;
  std::string bad = audit(root, w, raw_opts(), &imp);
  c.check(bad.empty(), "audit", bad);
  uint64_t sh = spec_hash(sp.root);
  int queries = big ? 12 : 16;
  for (int q = 0; q < queries; ++q) {
    Evid e;
    if (r.chance(0.5))
      e = random_evid(r, w.vars(), r.real());
    else {
      e = some_assignment(r, sp.root, w.vars());
      double keep = r.real();
      if (r.chance(0.6))
        for (int v : w.vars())
          if (r.chance(keep)) e.erase(v);
    }
    bool cons = o_consistent(sp.root, e);
    if (!dense.empty()) {
      bool ex = false;
      for (uint64_t i = 0; i < dense.size() && !ex; ++i) {
        if (dense[i] == NEG_INF()) continue;
        bool ok = true;
        for (size_t j = 0; j < w.vars().size() && ok; ++j) {
          auto it = e.find(w.vars()[j]);
          ok = it == e.end() || it->second == (int)((i >> j) & 1);
        }
        ex = ok;
      }
      c.check(ex == cons, "oracle", "the two references disagree");
    }
    Bits m, in;
    to_bits(e, &m, &in);
    if (r.chance(0.5))
      for (int v : w.vars())
        if (!m[(size_t)v] && r.chance(0.5)) in.set((size_t)v);
    std::string what = S("evidence ", evid_str(e), " is ", cons ? "possible" : "impossible",
                         ctx(w, sp));
    c.check(psdd_node_util::IsConsistent(root, m, in) == cons, "consistent-root", what);
    c.check(psdd_node_util::IsConsistent(ser, m, in) == cons, "consistent-list", what);
    LD p = psdd_node_util::Evaluate(m, in, ser).parameter();
    c.check((p != NEG_INF()) == cons, "evaluate-support",
            S("Evaluate gives ", (double)p, " but ", what));
    if (n <= 10) {
      std::unordered_map<uint32_t, bool> um;
      for (auto &x : e) um[(uint32_t)x.first] = x.second;
      c.check(root->IsConsistent(um) == cons, "consistent-node", what);
      // the dense-numbering overload: variables 1..k are all given
      int mx = *std::max_element(w.vars().begin(), w.vars().end());
      if (e.size() == w.vars().size() && mx <= 200)
        c.check(root->IsConsistent(in, (uint32_t)mx) == cons, "consistent-bitset", what);
    }
    int most = *std::max_element(w.vars().begin(), w.vars().end());
    if (n <= 12 && most <= 200) {
      // the variables 1..k are given, whether or not they are among the PSDD's
      int k = r.range(0, most + (r.chance(0.3) ? 40 : 0));
      Evid given;
      for (int v : w.vars())
        if (v <= k) given[v] = in[(size_t)v];
      bool want = o_consistent(sp.root, given);
      c.check(root->IsConsistent(in, (uint32_t)k) == want, "consistent-bitset",
              S("variables up to ", k, ": ", evid_str(given), " is ",
                want ? "possible" : "impossible", ctx(w, sp)));
      c.count("prefixes");
    }
    if (e.size() == w.vars().size()) {
      // activation flags mark exactly the nodes the instantiation satisfies
      psdd_node_util::SetActivationFlag(in, ser);
      for (auto &pr : imp.of) {
        bool sat = o_consistent(pr.second, e);
        bool act = pr.first->activation_flag();
        if (sat != act)
          c.check(false, "activation", S("node ", pr.first->node_index(),
                                         act ? " activated" : " not activated", ": ", what));
      }
      c.check(true, "activation", "");
      for (auto &pr : imp.of) pr.first->ResetActivationFlag();
      c.count("activation_checks");
    }
    bad = state_clean(imp);
    c.check(bad.empty(), "state", bad);
    c.count(cons ? "possible" : "impossible");
    if (sp.root->kind == DEC && !e.empty()) c.nontrivial(mix(sh, hash_str(evid_str(e))));
  }
}
}  // namespace vh
