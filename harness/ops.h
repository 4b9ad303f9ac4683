// More shared set-up: positive random PSDDs, wide nodes, snapshots, child processes.
#ifndef VH_OPS_H
#define VH_OPS_H
#include "common.h"
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vh {
// any parameter style without exact zeros
inline int positive_style(Rng &r) { return (int)r.below(6); }
inline int product_style(Rng &r) { return r.chance(0.2) ? 6 : positive_style(r); }
inline void any_spec(Case &c, World &w, int style, Spec *sp) {
  if (w.n() <= 10)
    random_spec(c.rng, w.vt, style, sp);
  else
    big_spec(c.rng, w.vt, style, c.rng.range(1, 3), sp);
}
inline std::string ctx(const World &w, const Spec &sp) {
  return S("; vtree ", vt_str(w.vt.root), " psdd ", spec_str(sp.root));
}
// vtree whose root has a left child over nl variables (so up to 2^nl elements)
inline void make_wide_world(Case &c, int nl, int nr, World *w) {
  std::vector<int> vars = random_vars(c.rng, nl + nr, (int)c.rng.below(3));
  auto sub = [&](std::vector<int> ids) {
    std::vector<VT *> cur;
    for (int v : ids) cur.push_back(w->vt.new_leaf(v));
    while (cur.size() > 1) {
      size_t i = c.rng.below(cur.size() - 1);
      cur[i] = w->vt.new_node(cur[i], cur[i + 1]);
      cur.erase(cur.begin() + (long)i + 1);
    }
    return cur[0];
  };
  VT *l = sub(std::vector<int>(vars.begin(), vars.begin() + nl));
  VT *r = sub(std::vector<int>(vars.begin() + nl, vars.end()));
  w->vt.finish(w->vt.new_node(l, r));
  manager_for(c, w->vt, w);
}
// A PSDD with a node of more than 65536 elements and well over 65536 nodes.
struct Huge {
  World w;
  Spec sp;
  PsddNode *root = nullptr;
  std::string what;
};
inline bool huge_index(const Case &c) { return c.index % 5000 == 333; }
inline void make_huge(Case &c, Huge *h, int style = 0) {
  int n = c.rng.range(18, 20);
  fat_vtree(c.rng, random_vars(c.rng, n, (int)c.rng.below(3)), &h->w.vt, 17);
  manager_for(c, h->w.vt, &h->w);
  h->sp.root = gen_partition(c.rng, &h->sp, h->w.vt.root, 1, style, true)[0];
  h->root = build(h->sp.root, h->w.m, any_flag(c.rng), nullptr, nullptr);
  size_t el = 0, nodes = spec_reach(h->sp.root, &el);
  size_t most = 0;
  for (SNode *x : spec_nodes(h->sp.root)) most = std::max(most, x->el.size());
  c.check(most > 65536 && nodes > 65536, "workload", "the huge PSDD is not");
  h->what = S("; PSDD of ", nodes, " nodes, one with ", most, " elements, over ",
              vt_str(h->w.vt.root));
  c.count("huge_nodes", nodes);
  c.nontrivial(mix(c.rng.s, nodes));
}
// No scratch data is left behind in it.
inline void huge_clean(Case &c, const Huge &h) {
  std::unordered_set<PsddNode *> seen{h.root};
  std::vector<PsddNode *> st{h.root};
  while (!st.empty()) {
    PsddNode *x = st.back();
    st.pop_back();
    c.check(x->user_data() == 0 && !x->activation_flag(), "state", "scratch data is left behind");
    if (x->node_type() != DECISION_NODE_TYPE) continue;
    auto *d = x->psdd_decision_node();
    for (auto *l : {&d->primes(), &d->subs()})
      for (PsddNode *y : *l)
        if (seen.insert(y).second) st.push_back(y);
  }
}
// A second manager over an equal vtree (its own objects).
inline void same_world(Case &c, const World &w, World *o) {
  std::function<VT *(const VT *)> cp = [&](const VT *v) {
    return v->leaf() ? o->vt.new_leaf(v->var) : o->vt.new_node(cp(v->l), cp(v->r));
  };
  o->vt.finish(cp(w.vt.root));
  manager_for(c, o->vt, o);
}
inline std::string audit(PsddNode *root, const World &w, const AuditOpts &o, Import *imp) {
  return import_audit(root, w.vm, o, imp);
}
inline AuditOpts raw_opts() {  // structure only; nothing assumed about parameters
  AuditOpts o;
  o.normalised = false;
  o.check_flag = false;
  return o;
}
// All complete assignments agree: equal up to tol (and the same support).
inline std::string diff_dense(const std::vector<LD> &got, const std::vector<LD> &want,
                              const std::vector<int> &vars, double tol) {
  if (got.size() != want.size()) return "different variable sets";
  for (uint64_t i = 0; i < got.size(); ++i)
    if (!close(got[i], want[i], tol))
      return S("assignment ", evid_str(assignment(vars, i)), " has log weight ",
               (double)got[i], ", expected ", (double)want[i]);
  return "";
}
// A random complete assignment, biased towards the support of root.
inline Evid support_assignment(Rng &r, const SNode *root) {
  Evid e;
  std::vector<const SNode *> st{root};
  while (!st.empty()) {
    const SNode *n = st.back();
    st.pop_back();
    if (n->kind == LIT) {
      e[std::abs(n->lit)] = n->lit > 0;
    } else if (n->kind == TOP) {
      e[n->vt->var] = (int)r.below(2);
    } else {
      const SElem &x = n->el[r.below(n->el.size())];
      st.push_back(x.p);
      st.push_back(x.s);
    }
  }
  return e;
}
inline Evid some_assignment(Rng &r, const SNode *root, const std::vector<int> &vars) {
  Evid e = support_assignment(r, root);
  if (r.chance(0.3)) e[r.pick(vars)] = (int)r.below(2);
  if (r.chance(0.1))
    for (int v : vars) e[v] = (int)r.below(2);
  return e;
}
// Two distributions agree: exhaustively when small, on sampled assignments otherwise.
inline std::string diff_dist(Rng &r, const SNode *got, const SNode *want,
                             const std::vector<int> &vars, double tol, int samples = 60) {
  if (vars.size() <= 10) return diff_dense(o_dense(got), o_dense(want), vars, tol);
  for (int i = 0; i < samples; ++i) {
    Evid e = some_assignment(r, i % 2 ? got : want, vars);
    if (r.chance(0.3)) {
      std::vector<int> drop;
      for (auto &p : e)
        if (r.chance(0.5)) drop.push_back(p.first);
      for (int v : drop) e.erase(v);
    }
    LD a = o_logp(got, e), b = o_logp(want, e);
    if (!close(a, b, tol))
      return S("evidence ", evid_str(e), " has log weight ", (double)a, ", expected ",
               (double)b);
  }
  mpz_class ca = o_count(got), cb = o_count(want);
  if (ca != cb) return S("supports of ", ca.get_str(), " and ", cb.get_str(), " models");
  return "";
}
// Leaves the library's scratch state as found?
inline std::string state_clean(const Import &imp) {
  for (auto &p : imp.of) {
    PsddNode *n = p.first;
    if (n->user_data() != 0) return S("node ", n->node_index(), " left with scratch data");
    if (n->activation_flag()) return S("node ", n->node_index(), " left activated");
    if (n->node_type() == DECISION_NODE_TYPE)
      for (auto k : n->psdd_decision_node()->data_counts())
        if (k) return S("node ", n->node_index(), " left with data counts");
    if (n->node_type() == TOP_NODE_TYPE &&
        (n->psdd_top_node()->true_data_count() || n->psdd_top_node()->false_data_count()))
      return S("node ", n->node_index(), " left with data counts");
    if (!n->batched_psdd_value().empty() || !n->batched_psdd_context_value().empty())
      return S("node ", n->node_index(), " left with batch values");
  }
  return "";
}
inline std::string vtree_clean(Vtree *v) {
  std::vector<Vtree *> st{v};
  while (!st.empty()) {
    Vtree *x = st.back();
    st.pop_back();
    if (sdd_vtree_data(x)) return "a vtree node is left with scratch data";
    if (!sdd_vtree_is_leaf(x)) {
      st.push_back(sdd_vtree_left(x));
      st.push_back(sdd_vtree_right(x));
    }
  }
  return "";
}
// Runs f in a child with a CPU limit. Returns the wait status; -1 = CPU limit hit.
template <class F> int in_child(F f, int cpu_seconds, std::string *err = nullptr) {
  int fd[2];
  if (pipe(fd)) return -2;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    ::close(fd[0]);
    struct rlimit rl;
    rl.rlim_cur = (rlim_t)cpu_seconds;
    rl.rlim_max = (rlim_t)cpu_seconds + 1;
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    dup2(fd[1], 2);
    try {
      f();
    } catch (...) {  // nobody would catch it: the process ends abnormally
      fprintf(stderr, "uncaught exception\n");
      _exit(96);
    }
    _exit(0);
  }
  ::close(fd[1]);
  std::string s;
  char b[4096];
  ssize_t k;
  while ((k = read(fd[0], b, sizeof b)) > 0)
    if (s.size() < 200000) s.append(b, (size_t)k);
  ::close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (err) *err = s;
  if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) return -1;
  return st;
}
// Runs argv, collects stdout and stderr.
inline int run_tool(const std::vector<std::string> &argv, const std::string &cwd,
                    int cpu_seconds, std::string *out, std::string *err) {
  std::string of = cwd + "/tool.out", ef = cwd + "/tool.err";
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    struct rlimit rl;
    rl.rlim_cur = (rlim_t)cpu_seconds;
    rl.rlim_max = (rlim_t)cpu_seconds + 1;
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    if (chdir(cwd.c_str())) _exit(126);
    if (!freopen(of.c_str(), "w", stdout) || !freopen(ef.c_str(), "w", stderr)) _exit(126);
    std::vector<char *> a;
    for (auto &s : argv) a.push_back(const_cast<char *>(s.c_str()));
    a.push_back(nullptr);
    execv(a[0], a.data());
    _exit(127);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  *out = read_all(of);
  *err = read_all(ef);
  if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL)) return -1;
  return st;
}
inline std::string status_str(int st) {
  if (st == -1) return "CPU limit exceeded";
  if (WIFEXITED(st)) return S("exit status ", WEXITSTATUS(st));
  if (WIFSIGNALED(st)) return S("signal ", WTERMSIG(st));
  return S("status ", st);
}
inline bool sanitizer_report(const std::string &err) {
  return err.find("ERROR: AddressSanitizer") != std::string::npos ||
         err.find("runtime error:") != std::string::npos ||
         err.find("ERROR: LeakSanitizer") != std::string::npos;
}
// A fresh environment-provided tool path (built by run_check.py)
inline std::string tool(const char *name) {
  const char *p = getenv((std::string("VH_TOOL_") + name).c_str());
  return p ? p : "";
}
}  // namespace vh
#endif
