#include "vh.h"

#include <algorithm>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define VH_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#endif
#endif
#ifdef VH_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" int __asan_address_is_poisoned(const volatile void *);
#else
#include <malloc.h>
#endif

namespace vh {
// ------------------------------------------------------------------ basics
uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x9E3779B97F4A7C15ULL + b);
  r.u64();
  return r.u64() ^ (b << 1);
}
uint64_t hash_str(const std::string &s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return h;
}
bool memory_reused() {
  const char *o = getenv("ASAN_OPTIONS");
  return o && strstr(o, "quarantine_size_mb=0");
}
bool released(const void *p) {
#ifdef VH_ASAN
  return memory_reused() || __asan_address_is_poisoned(p);
#else
  (void)p;
  return true;
#endif
}
size_t live_bytes() {
#ifdef VH_ASAN
  return __sanitizer_get_current_allocated_bytes();
#else
  return mallinfo2().uordblks;
#endif
}

// ------------------------------------------------------------------ recording
namespace {
FILE *g_out = nullptr;
int g_progress = -1;
std::map<std::string, uint64_t> g_counts;
std::vector<std::string> g_samples;
std::unordered_set<uint64_t> g_hashes;
uint64_t g_cases = 0, g_checks = 0;
double g_slowest = 0;  // CPU seconds
int g_slowest_case = -1;
int g_fails = 0;

std::string json(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += (char)c;
    } else if (c < 0x20 || c >= 0x7f) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += (char)c;
    }
  }
  return o + "\"";
}
void on_cpu(int) {
  if (g_progress >= 0) {
    ssize_t r = pwrite(g_progress, "HANG", 4, 32);
    (void)r;
  }
  _exit(97);
}
}  // namespace

void Case::fail(const std::string &key, const std::string &msg) {
  std::string m = msg;
  if (m.size() > 4000) m = m.substr(0, 4000) + "...";
  fprintf(g_out, "{\"t\":\"fail\",\"case\":%d,\"key\":%s,\"msg\":%s}\n", index,
          json(key).c_str(), json(m).c_str());
  fflush(g_out);
  ++g_fails;
  throw CaseFailed();
}
void Case::count(const char *name, uint64_t n) { g_counts[name] += n; }
void Case::sample(const std::string &s) {
  if (g_samples.size() < 2) g_samples.push_back(s.substr(0, 700));
}
void Case::nontrivial(uint64_t h) { g_hashes.insert(h); }

// ------------------------------------------------------------------ vtrees
VT *VTree::new_leaf(int var) {
  pool.emplace_back(new VT);
  pool.back()->var = var;
  pool.back()->vars = {var};
  return pool.back().get();
}
VT *VTree::new_node(VT *l, VT *r) {
  pool.emplace_back(new VT);
  VT *n = pool.back().get();
  n->l = l;
  n->r = r;
  l->up = r->up = n;
  return n;
}
std::vector<VT *> VTree::all() const {  // children before parents
  std::vector<VT *> out, st{root};
  while (!st.empty()) {
    VT *v = st.back();
    st.pop_back();
    out.push_back(v);
    if (!v->leaf()) {
      st.push_back(v->l);
      st.push_back(v->r);
    }
  }
  std::reverse(out.begin(), out.end());
  return out;
}
void VTree::finish(VT *r) {
  root = r;
  for (VT *v : all()) {
    if (!v->leaf()) {
      v->vars = v->l->vars;
      v->vars.insert(v->vars.end(), v->r->vars.begin(), v->r->vars.end());
    }
  }
  // in-order ids
  int id = 0;
  std::vector<std::pair<VT *, int>> st{{root, 0}};
  while (!st.empty()) {
    auto &t = st.back();
    if (t.first->leaf()) {
      t.first->id = id++;
      st.pop_back();
    } else if (t.second == 0) {
      t.second = 1;
      st.push_back({t.first->l, 0});
    } else if (t.second == 1) {
      t.second = 2;
      t.first->id = id++;
      VT *r2 = t.first->r;
      st.push_back({r2, 0});
    } else {
      st.pop_back();
    }
  }
}
const char *shape_name(int s) {
  const char *n[] = {"balanced", "left", "right", "random", "mixed"};
  return n[s];
}
void random_vtree(Rng &rng, const std::vector<int> &order, int shape, VTree *out) {
  size_t n = order.size();
  std::vector<VT *> cur;
  for (int v : order) cur.push_back(out->new_leaf(v));
  VT *root = nullptr;
  if (shape == LEFT) {
    root = cur[0];
    for (size_t i = 1; i < n; ++i) root = out->new_node(root, cur[i]);
  } else if (shape == RIGHT) {
    root = cur[n - 1];
    for (size_t i = n - 1; i-- > 0;) root = out->new_node(cur[i], root);
  } else if (shape == BALANCED) {
    while (cur.size() > 1) {
      std::vector<VT *> nx;
      for (size_t i = 0; i + 1 < cur.size(); i += 2)
        nx.push_back(out->new_node(cur[i], cur[i + 1]));
      if (cur.size() % 2) nx.push_back(cur.back());
      cur = nx;
    }
    root = cur[0];
  } else {
    // merge random adjacent pairs
    while (cur.size() > 1) {
      size_t i = rng.below(cur.size() - 1);
      cur[i] = out->new_node(cur[i], cur[i + 1]);
      cur.erase(cur.begin() + (long)i + 1);
    }
    root = cur[0];
  }
  out->finish(root);
}
namespace {
Vtree *to_sdd_rec(const VT *root, const std::map<int, int> *vm) {
  // iterative post-order
  std::unordered_map<const VT *, Vtree *> made;
  std::vector<const VT *> st{root}, order;
  while (!st.empty()) {
    const VT *v = st.back();
    st.pop_back();
    order.push_back(v);
    if (!v->leaf()) {
      st.push_back(v->l);
      st.push_back(v->r);
    }
  }
  for (size_t i = order.size(); i-- > 0;) {
    const VT *v = order[i];
    if (v->leaf())
      made[v] = new_leaf_vtree(vm ? vm->at(v->var) : v->var);
    else
      made[v] = new_internal_vtree(made[v->l], made[v->r]);
  }
  Vtree *r = made[root];
  set_vtree_properties(r);
  return r;
}
}  // namespace
Vtree *to_sdd(const VT *v) { return to_sdd_rec(v, nullptr); }
Vtree *to_sdd_mapped(const VT *v, const std::map<int, int> &m) {
  return to_sdd_rec(v, &m);
}
bool map_vtree(const VT *a, Vtree *b, std::unordered_map<Vtree *, const VT *> *m,
               std::unordered_map<const VT *, Vtree *> *back) {
  std::vector<std::pair<const VT *, Vtree *>> st{{a, b}};
  while (!st.empty()) {
    auto t = st.back();
    st.pop_back();
    if (t.second == nullptr) return false;
    if (t.first->leaf() != (bool)sdd_vtree_is_leaf(t.second)) return false;
    (*m)[t.second] = t.first;
    if (back) (*back)[t.first] = t.second;
    if (t.first->leaf()) {
      if (sdd_vtree_var(t.second) != t.first->var) return false;
    } else {
      Vtree *l = sdd_vtree_left(t.second), *r = sdd_vtree_right(t.second);
      if (sdd_vtree_parent(l) != t.second || sdd_vtree_parent(r) != t.second)
        return false;
      st.push_back({t.first->l, l});
      st.push_back({t.first->r, r});
    }
  }
  return true;
}
bool same_vtree(Vtree *a, Vtree *b) {
  std::vector<std::pair<Vtree *, Vtree *>> st{{a, b}};
  while (!st.empty()) {
    auto t = st.back();
    st.pop_back();
    if (!t.first || !t.second) return false;
    if (sdd_vtree_is_leaf(t.first) != sdd_vtree_is_leaf(t.second)) return false;
    if (sdd_vtree_is_leaf(t.first)) {
      if (sdd_vtree_var(t.first) != sdd_vtree_var(t.second)) return false;
    } else {
      st.push_back({sdd_vtree_left(t.first), sdd_vtree_left(t.second)});
      st.push_back({sdd_vtree_right(t.first), sdd_vtree_right(t.second)});
    }
  }
  return true;
}
std::string vt_str(const VT *v) {
  if (v->vars.size() > 40) return S("<vtree with ", v->vars.size(), " vars>");
  if (v->leaf()) return S(v->var);
  return "(" + vt_str(v->l) + " " + vt_str(v->r) + ")";
}
std::string vtree_str(Vtree *v) {
  if (!v) return "null";
  if (sdd_vtree_is_leaf(v)) return S(sdd_vtree_var(v));
  return "(" + vtree_str(sdd_vtree_left(v)) + " " + vtree_str(sdd_vtree_right(v)) + ")";
}
std::vector<int> random_vars(Rng &rng, int n, int kind) {
  std::vector<int> v;
  if (kind <= 1) {
    for (int i = 1; i <= n; ++i) v.push_back(i);
    if (kind == 1) rng.shuffle(v);
  } else {
    std::set<int> used;
    while ((int)v.size() < n) {
      int x;
      switch (rng.below(4)) {
        case 0: x = rng.range(1, 2 * n + 2); break;
        case 1: x = rng.range(65536 - 2 * n - 2, 65535); break;
        default: x = rng.range(1, 65535);
      }
      if (used.insert(x).second) v.push_back(x);
    }
  }
  return v;
}

// ------------------------------------------------------------------ spec
SNode *Spec::lit(const VT *v, bool sign) {
  pool.emplace_back(new SNode);
  SNode *n = pool.back().get();
  n->kind = LIT;
  n->vt = v;
  n->lit = sign ? v->var : -v->var;
  n->id = (int)pool.size();
  return n;
}
SNode *Spec::top(const VT *v, double lt, double lf) {
  pool.emplace_back(new SNode);
  SNode *n = pool.back().get();
  n->kind = TOP;
  n->vt = v;
  n->lt = lt;
  n->lf = lf;
  n->id = (int)pool.size();
  return n;
}
SNode *Spec::dec(const VT *v, std::vector<SElem> el) {
  pool.emplace_back(new SNode);
  SNode *n = pool.back().get();
  n->kind = DEC;
  n->vt = v;
  n->el = std::move(el);
  n->id = (int)pool.size();
  return n;
}
std::vector<double> random_weights(Rng &rng, int k, int style) {
  std::vector<double> w((size_t)k);
  if (style == 4 && rng.chance(0.3)) {  // below the range of double
    double top = -INFINITY;
    for (double &x : w) top = std::max(top, x = rng.chance(0.5) ? 0 : -4000.0 * rng.real());
    double sum = 0;
    for (double x : w) sum += std::exp(x - top);
    for (double &x : w) x -= top + std::log(sum);
    return w;
  }
  for (int i = 0; i < k; ++i) {
    double x;
    switch (style) {
      case 0: x = 0.02 + rng.real(); break;
      case 1: x = std::pow(10.0, -12.0 * rng.real()); break;
      case 2: x = 1; break;
      case 3: x = (i == 0) ? 1 : std::pow(10.0, -6.0 - 6.0 * rng.real()); break;
      case 4: x = rng.chance(0.5) ? 1 : std::pow(10.0, -250.0 * rng.real()); break;
      case 5: x = std::ldexp(1.0, rng.range(-4, 0)); break;
      default: x = rng.chance(0.25) ? 0 : 0.02 + rng.real(); break;
    }
    w[(size_t)i] = x;
  }
  if (style == 3) std::swap(w[0], w[rng.below((uint64_t)k)]);
  double sum = 0;
  for (double x : w) sum += x;
  if (sum == 0) {
    w[rng.below((uint64_t)k)] = 1;
    sum = 1;
  }
  for (double &x : w) x = std::log(x) - std::log(sum);
  return w;
}
// One node per complete assignment of v's variables.
static std::vector<SNode *> terms(Spec *sp, const VT *v) {
  std::vector<SNode *> res;
  if (v->leaf()) {
    res.push_back(sp->lit(v, true));
    res.push_back(sp->lit(v, false));
    return res;
  }
  auto a = terms(sp, v->l), b = terms(sp, v->r);
  for (SNode *p : a)
    for (SNode *s : b) res.push_back(sp->dec(v, {{p, s, 0}}));
  return res;
}
static SNode *everything(Spec *sp, const VT *v) {
  if (v->leaf()) return sp->top(v, std::log(0.5), std::log(0.5));
  return sp->dec(v, {{everything(sp, v->l), everything(sp, v->r), 0}});
}
// Complete terms, some of them merged so that about `total` are left.
static std::vector<SNode *> fat_terms(Rng &rng, Spec *sp, const VT *v, size_t total) {
  auto a = terms(sp, v->l), b = terms(sp, v->r);
  rng.shuffle(a);
  rng.shuffle(b);
  bool flip = a.size() < b.size();
  auto &outer = flip ? b : a, &inner = flip ? a : b;
  size_t all = a.size() * b.size();
  size_t merge = all > total && inner.size() > 1 ? (all - total) / (inner.size() - 1) : 0;
  SNode *rest = everything(sp, flip ? v->l : v->r);
  std::vector<SNode *> res;
  for (size_t i = 0; i < outer.size(); ++i) {
    if (i < merge) {
      res.push_back(flip ? sp->dec(v, {{rest, outer[i], 0}}) : sp->dec(v, {{outer[i], rest, 0}}));
      continue;
    }
    for (SNode *x : inner)
      res.push_back(flip ? sp->dec(v, {{x, outer[i], 0}}) : sp->dec(v, {{outer[i], x, 0}}));
  }
  return res;
}
std::vector<SNode *> gen_partition(Rng &rng, Spec *sp, const VT *root, int k, int style,
                                   bool exhaustive) {
  // bottom-up; up to two partition variants per vtree node, shared freely.
  std::unordered_map<const VT *, std::vector<std::vector<SNode *>>> parts;
  std::vector<const VT *> st{root}, order;
  while (!st.empty()) {
    const VT *v = st.back();
    st.pop_back();
    order.push_back(v);
    if (!v->leaf()) {
      st.push_back(v->l);
      st.push_back(v->r);
    }
  }
  for (size_t q = order.size(); q-- > 0;) {
    const VT *v = order[q];
    auto &mine = parts[v];
    for (int variant = 0; variant < 2; ++variant) {
      std::vector<SNode *> res;
      int kk = (v == root) ? k : rng.range(1, std::max(2, k));
      if (!v->leaf() && v->l->fat && v->l->vars.size() > 16) kk = 1;
      if (v->fat && v != root) {
        if (variant == 0) {
          for (SNode *t : fat_terms(rng, sp, v, v->vars.size() > 16 ? 66000 + rng.below(2500) : 270 + rng.below(60)))
            if (exhaustive || !rng.chance(0.02)) res.push_back(t);
          rng.shuffle(res);
        } else {
          res = mine[0];
        }
      } else if (v->leaf()) {
        if (kk == 1) {
          if (exhaustive || rng.chance(0.6)) {
            auto w = random_weights(rng, 2, style);
            res.push_back(sp->top(v, w[0], w[1]));
          } else {
            res.push_back(sp->lit(v, rng.chance(0.5)));
          }
        } else {
          res.push_back(sp->lit(v, true));
          res.push_back(sp->lit(v, false));
        }
      } else {
        const auto &P = parts[v->l][rng.below(2)];
        std::vector<std::vector<SElem>> groups((size_t)kk);
        // Only as many cells per prime as there are groups.
        for (SNode *p : P) {
          const auto &R = parts[v->r][rng.below(2)];
          std::vector<size_t> g;
          for (size_t i = 0; i < (size_t)kk; ++i) g.push_back(i);
          rng.shuffle(g);
          if (R.size() > (size_t)kk) {
            // fewer groups than cells: must drop cells; use the smaller variant
            const auto &A = parts[v->r][0], &B = parts[v->r][1];
            const auto &R2 = A.size() <= B.size() ? A : B;
            size_t m = std::min(R2.size(), (size_t)kk);
            for (size_t j = 0; j < m; ++j) {
              if (!exhaustive && rng.chance(0.15)) continue;
              groups[g[j]].push_back({p, R2[j], 0});
            }
          } else {
            for (size_t j = 0; j < R.size(); ++j) {
              if (!exhaustive && rng.chance(0.15)) continue;
              groups[g[j]].push_back({p, R[j], 0});
            }
          }
        }
        bool any = false;
        for (auto &gr : groups) any = any || !gr.empty();
        if (!any)
          groups[0].push_back({P[0], parts[v->r][0][0], 0});
        for (auto &gr : groups) {
          if (gr.empty()) continue;
          auto w = random_weights(rng, (int)gr.size(), style);
          for (size_t i = 0; i < gr.size(); ++i) gr[i].w = w[i];
          res.push_back(sp->dec(v, gr));
        }
      }
      mine.push_back(res);
    }
  }
  return parts[root][0];
}
Table random_table(Rng &rng, int n) {
  size_t N = (size_t)1 << n;
  Table t(N, 0);
  switch (rng.below(6)) {
    case 0: {  // uniform density
      double d = rng.real();
      for (auto &x : t) x = rng.chance(d);
      break;
    }
    case 1: {  // CNF
      int m = rng.range(1, n + 1);
      t.assign(N, 1);
      for (int c = 0; c < m; ++c) {
        int w = rng.range(1, std::min(3, n));
        std::vector<std::pair<int, int>> cl;
        for (int i = 0; i < w; ++i)
          cl.push_back({(int)rng.below((uint64_t)n), (int)rng.below(2)});
        for (size_t i = 0; i < N; ++i) {
          bool ok = false;
          for (auto &l : cl) ok = ok || (int)((i >> l.first) & 1) == l.second;
          if (!ok) t[i] = 0;
        }
      }
      break;
    }
    case 2: {  // cardinality window
      int lo = rng.range(0, n), hi = rng.range(lo, n);
      for (size_t i = 0; i < N; ++i) {
        int p = __builtin_popcountll(i);
        t[i] = p >= lo && p <= hi;
      }
      break;
    }
    case 3: {  // parity over a subset
      uint64_t m = rng.u64() & (N - 1);
      int par = (int)rng.below(2);
      for (size_t i = 0; i < N; ++i) t[i] = (__builtin_popcountll(i & m) & 1) == par;
      break;
    }
    case 4: {  // few models
      int k = rng.range(1, 4);
      for (int i = 0; i < k; ++i) t[rng.below(N)] = 1;
      break;
    }
    default: {  // everything / nearly everything
      t.assign(N, 1);
      int k = rng.range(0, 2);
      for (int i = 0; i < k; ++i) t[rng.below(N)] = 0;
    }
  }
  bool any = false;
  for (auto x : t) any = any || x;
  if (!any) t[rng.below(N)] = 1;
  return t;
}
namespace {
struct TableGen {
  Rng &rng;
  Spec *sp;
  int style;
  double split;
  std::map<std::pair<const VT *, Table>, SNode *> memo;
  SNode *gen(const VT *v, const Table &f) {
    auto key = std::make_pair(v, f);
    auto it = memo.find(key);
    if (it != memo.end() && rng.chance(0.75)) return it->second;
    SNode *res;
    if (v->leaf()) {
      if (f[0] && f[1]) {
        auto w = random_weights(rng, 2, style);
        res = sp->top(v, w[0], w[1]);
      } else {
        res = sp->lit(v, f[1]);
      }
    } else {
      size_t nl = v->l->vars.size(), nr = v->r->vars.size();
      size_t NL = (size_t)1 << nl, NR = (size_t)1 << nr;
      std::vector<std::pair<Table, Table>> groups;  // (indicator over x, cofactor)
      for (size_t x = 0; x < NL; ++x) {
        Table cf(NR);
        bool any = false;
        for (size_t y = 0; y < NR; ++y) {
          cf[y] = f[x | (y << nl)];
          any = any || cf[y];
        }
        if (!any) continue;
        bool placed = false;
        for (auto &g : groups) {
          if (g.second == cf && !rng.chance(split)) {
            g.first[x] = 1;
            placed = true;
            break;
          }
        }
        if (!placed) {
          Table ind(NL, 0);
          ind[x] = 1;
          groups.push_back({ind, cf});
        }
      }
      auto w = random_weights(rng, (int)groups.size(), style);
      std::vector<SElem> el;
      for (size_t i = 0; i < groups.size(); ++i) {
        SNode *p = gen(v->l, groups[i].first);
        SNode *s = gen(v->r, groups[i].second);
        el.push_back({p, s, w[i]});
      }
      res = sp->dec(v, el);
    }
    memo[key] = res;
    return res;
  }
};
}  // namespace
SNode *gen_from_table(Rng &rng, Spec *sp, const VT *v, const Table &f, int style,
                      double split) {
  TableGen g{rng, sp, style, split, {}};
  return g.gen(v, f);
}
void random_spec(Rng &rng, const VTree &vt, int style, Spec *sp) {
  int n = (int)vt.root->vars.size();
  if (n <= 10 && rng.chance(0.75)) {
    Table t = random_table(rng, n);
    double split = n <= 7 && rng.chance(0.4) ? 0.4 : 0.0;
    sp->root = gen_from_table(rng, sp, vt.root, t, style, split);
  } else {
    sp->root = gen_partition(rng, sp, vt.root, rng.range(1, 4), style, rng.chance(0.4))[0];
  }
}
void big_spec(Rng &rng, const VTree &vt, int style, int width, Spec *sp) {
  auto p = gen_partition(rng, sp, vt.root, width, style, rng.chance(0.5));
  sp->root = p[rng.below(p.size())];
}
std::vector<SNode *> spec_nodes(SNode *root) {
  std::vector<SNode *> out;
  std::unordered_set<const SNode *> done, open;
  std::vector<std::pair<SNode *, size_t>> st{{root, 0}};
  open.insert(root);
  while (!st.empty()) {
    SNode *n = st.back().first;
    size_t &i = st.back().second;
    if (i < 2 * n->el.size()) {
      SNode *ch = (i % 2) ? n->el[i / 2].s : n->el[i / 2].p;
      ++i;
      if (open.insert(ch).second) st.push_back({ch, 0});
    } else {
      out.push_back(n);
      st.pop_back();
    }
  }
  return out;
}
std::vector<const SNode *> spec_nodes(const SNode *root) {
  auto v = spec_nodes(const_cast<SNode *>(root));
  return std::vector<const SNode *>(v.begin(), v.end());
}
size_t spec_reach(const SNode *root, size_t *elements) {
  auto v = spec_nodes(root);
  if (elements) {
    *elements = 0;
    for (auto n : v) *elements += n->el.size();
  }
  return v.size();
}
PsddNode *build(const SNode *root, PsddManager *m, uintmax_t flag, Built *b, Rng *order) {
  Built local;
  if (!b) b = &local;
  for (const SNode *n : spec_nodes(root)) {
    if (b->of.count(n)) continue;
    PsddNode *r;
    if (n->kind == LIT) {
      r = m->GetPsddLiteralNode(n->lit, flag);
    } else if (n->kind == TOP) {
      r = m->GetPsddTopNode((uint32_t)n->vt->var, flag, PsddParameter::CreateFromLog(n->lt),
                            PsddParameter::CreateFromLog(n->lf));
    } else {
      std::vector<SElem> el = n->el;
      if (order) order->shuffle(el);
      std::vector<PsddNode *> p, s;
      std::vector<PsddParameter> w;
      for (auto &e : el) {
        p.push_back(b->of.at(e.p));
        s.push_back(b->of.at(e.s));
        w.push_back(PsddParameter::CreateFromLog(e.w));
      }
      r = m->GetConformedPsddDecisionNode(p, s, w, flag);
    }
    b->of[n] = r;
  }
  return b->of.at(root);
}

// ------------------------------------------------------------------ oracles
LD lse(LD a, LD b) {
  if (a == NEG_INF()) return b;
  if (b == NEG_INF()) return a;
  if (a < b) std::swap(a, b);
  return a + log1pl(expl(b - a));
}
bool close(LD a, LD b, double tol) {
  if (std::isnan(a) || std::isnan(b)) return false;
  if (a == b) return true;
  if (std::isinf(a) || std::isinf(b)) return false;
  LD scale = std::max((LD)1, std::max(fabsl(a), fabsl(b)) * 1e-6L);
  return fabsl(a - b) <= tol * scale;
}
LD o_logp(const SNode *root, const Evid &ev) {
  std::unordered_map<const SNode *, LD> v;
  for (const SNode *n : spec_nodes(root)) {
    LD r;
    if (n->kind == LIT) {
      auto it = ev.find(std::abs(n->lit));
      r = (it == ev.end() || (it->second != 0) == (n->lit > 0)) ? 0 : NEG_INF();
    } else if (n->kind == TOP) {
      auto it = ev.find(n->vt->var);
      r = it == ev.end() ? lse(n->lt, n->lf) : (it->second ? (LD)n->lt : (LD)n->lf);
    } else {
      r = NEG_INF();
      for (auto &e : n->el) r = lse(r, v[e.p] + v[e.s] + (LD)e.w);
    }
    v[n] = r;
  }
  return v[root];
}
LD o_mpe(const SNode *root) { return o_mpe(root, Evid()); }
LD o_mpe(const SNode *root, const Evid &ev) {
  std::unordered_map<const SNode *, LD> v;
  for (const SNode *n : spec_nodes(root)) {
    LD r;
    if (n->kind == LIT) {
      auto it = ev.find(std::abs(n->lit));
      r = it == ev.end() || (it->second != 0) == (n->lit > 0) ? 0 : NEG_INF();
    } else if (n->kind == TOP) {
      auto it = ev.find(n->vt->var);
      r = it == ev.end() ? std::max(n->lt, n->lf) : it->second ? n->lt : n->lf;
    } else {
      r = NEG_INF();
      for (auto &e : n->el) r = std::max(r, v[e.p] + v[e.s] + (LD)e.w);
    }
    v[n] = r;
  }
  return v[root];
}
std::unordered_map<const SNode *, bool> o_consistent_all(const SNode *root, const Evid &ev) {
  std::unordered_map<const SNode *, bool> v;
  for (const SNode *n : spec_nodes(root)) {
    bool r = false;
    if (n->kind == LIT) {
      auto it = ev.find(std::abs(n->lit));
      r = it == ev.end() || (it->second != 0) == (n->lit > 0);
    } else if (n->kind == TOP) {
      r = true;
    } else {
      for (auto &e : n->el) r = r || (v[e.p] && v[e.s]);
    }
    v[n] = r;
  }
  return v;
}
bool o_consistent(const SNode *root, const Evid &ev) {
  return o_consistent_all(root, ev).at(root);
}
mpz_class o_count(const SNode *root) {
  std::unordered_map<const SNode *, mpz_class> v;
  for (const SNode *n : spec_nodes(root)) {
    mpz_class r = 0;
    if (n->kind == LIT)
      r = 1;
    else if (n->kind == TOP)
      r = 2;
    else
      for (auto &e : n->el) r += v[e.p] * v[e.s];
    v[n] = r;
  }
  return v[root];
}
std::vector<LD> o_dense(const SNode *root) {
  std::unordered_map<const SNode *, std::vector<LD>> v;
  for (const SNode *n : spec_nodes(root)) {
    size_t N = (size_t)1 << n->vt->vars.size();
    std::vector<LD> r(N, NEG_INF());
    if (n->kind == LIT) {
      r[n->lit > 0] = 0;
    } else if (n->kind == TOP) {
      r[0] = n->lf;
      r[1] = n->lt;
    } else {
      size_t nl = n->vt->l->vars.size();
      for (auto &e : n->el) {
        const auto &a = v[e.p], &b = v[e.s];
        for (size_t y = 0; y < b.size(); ++y) {
          if (b[y] == NEG_INF()) continue;
          for (size_t x = 0; x < a.size(); ++x) {
            LD &o = r[x | (y << nl)];
            o = lse(o, a[x] + b[y] + (LD)e.w);
          }
        }
      }
    }
    v[n] = std::move(r);
  }
  return v[root];
}
std::string spec_str(const SNode *root, size_t max_nodes) {
  auto nodes = spec_nodes(root);
  if (nodes.size() > max_nodes) return S("<psdd with ", nodes.size(), " nodes>");
  std::unordered_map<const SNode *, int> id;
  std::ostringstream o;
  o.precision(10);
  for (auto n : nodes) {
    int k = (int)id.size();
    id[n] = k;
    o << k << ":";
    if (n->kind == LIT)
      o << "L" << n->lit;
    else if (n->kind == TOP)
      o << "T" << n->vt->var << "(" << n->lt << "," << n->lf << ")";
    else {
      o << "D@" << n->vt->id << "[";
      for (auto &e : n->el) o << "(" << id[e.p] << "," << id[e.s] << "," << e.w << ")";
      o << "]";
    }
    o << " ";
  }
  return o.str();
}
uint64_t spec_hash(const SNode *root) {
  std::unordered_map<const SNode *, uint64_t> h;
  for (auto n : spec_nodes(root)) {
    uint64_t x = mix((uint64_t)n->kind, (uint64_t)(n->vt ? n->vt->id : 0));
    auto d = [](double v) {
      uint64_t u;
      memcpy(&u, &v, 8);
      return u;
    };
    if (n->kind == LIT)
      x = mix(x, (uint64_t)(int64_t)n->lit);
    else if (n->kind == TOP)
      x = mix(mix(x, d(n->lt)), d(n->lf) + (uint64_t)n->vt->var);
    else
      for (auto &e : n->el) x = mix(mix(mix(x, h[e.p]), h[e.s]), d(e.w));
    h[n] = x;
  }
  return h[root];
}

// ------------------------------------------------------------------ import + audit
namespace {
struct Disjoint {
  std::map<std::pair<const SNode *, const SNode *>, bool> memo;
  size_t budget = 400000;
  bool inter(const SNode *a, const SNode *b) {
    if (a == b) return true;
    if (budget == 0) return false;
    if (a->kind != DEC || b->kind != DEC) {
      if (a->kind == LIT && b->kind == LIT) return a->lit == b->lit;
      return true;
    }
    if (a > b) std::swap(a, b);
    auto key = std::make_pair(a, b);
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    --budget;
    bool r = false;
    for (auto &x : a->el) {
      for (auto &y : b->el)
        if (inter(x.p, y.p) && inter(x.s, y.s)) {
          r = true;
          break;
        }
      if (r) break;
    }
    memo[key] = r;
    return r;
  }
};
}  // namespace
std::string import_audit(PsddNode *root, const std::unordered_map<Vtree *, const VT *> &vm,
                         const AuditOpts &o, Import *imp) {
  if (root == nullptr) return "root is null";
  std::vector<std::pair<PsddNode *, int>> st{{root, 0}};
  std::unordered_map<PsddNode *, int> state;  // 1 open, 2 done
  std::unordered_map<uintmax_t, PsddNode *> by_index;
  std::map<std::string, PsddNode *> canon;
  while (!st.empty()) {
    PsddNode *n = st.back().first;
    if (st.back().second == 0) {
      st.back().second = 1;
      if (state[n] == 2) {
        st.pop_back();
        continue;
      }
      state[n] = 1;
      auto bi = by_index.insert({n->node_index(), n});
      if (!bi.second && bi.first->second != n)
        return S("two distinct nodes carry the index ", n->node_index());
      if (n->node_type() == DECISION_NODE_TYPE) {
        PsddDecisionNode *d = n->psdd_decision_node();
        if (!d) return "decision node does not present itself as one";
        if (d->primes().size() != d->subs().size() ||
            d->primes().size() != d->parameters().size())
          return S("decision node ", n->node_index(), " has ", d->primes().size(),
                   " primes, ", d->subs().size(), " subs, ", d->parameters().size(),
                   " parameters");
        if (d->primes().empty())
          return S("decision node ", n->node_index(), " has no element");
        for (int side = 0; side < 2; ++side)
          for (PsddNode *ch : side ? d->subs() : d->primes()) {
            if (!ch) return S("decision node ", n->node_index(), " has a null child");
            int s = state[ch];
            if (s == 1) return S("cycle through node ", ch->node_index());
            if (s == 0) st.push_back({ch, 0});
          }
      }
      continue;
    }
    st.pop_back();
    if (state[n] == 2) continue;
    state[n] = 2;
    auto vi = vm.find(n->vtree_node());
    if (vi == vm.end())
      return S("node ", n->node_index(), " is not attached to the manager's vtree");
    const VT *v = vi->second;
    if (o.check_flag && n->flag_index() != o.flag)
      return S("node ", n->node_index(), " carries flag ", n->flag_index(), " not ", o.flag);
    if (o.clean && n->user_data() != 0)
      return S("node ", n->node_index(), " left with scratch data");
    SNode *s;
    std::ostringstream ck;
    if (n->node_type() == LITERAL_NODE_TYPE) {
      PsddLiteralNode *l = n->psdd_literal_node();
      if (!l) return "literal node does not present itself as one";
      if (!v->leaf() || v->var != std::abs(l->literal()) ||
          (int)l->variable_index() != v->var || l->sign() != (l->literal() > 0))
        return S("literal ", l->literal(), " attached to vtree node of variable ", v->var);
      s = imp->spec.lit(v, l->literal() > 0);
      ck << "L" << l->literal();
    } else if (n->node_type() == TOP_NODE_TYPE) {
      PsddTopNode *t = n->psdd_top_node();
      if (!t) return "top node does not present itself as one";
      if (!v->leaf() || v->var != (int)t->variable_index())
        return S("top node of variable ", t->variable_index(),
                 " attached to vtree node of variable ", v->var);
      s = imp->spec.top(v, t->true_parameter().parameter(), t->false_parameter().parameter());
      if (std::isnan(s->lt) || std::isnan(s->lf))
        return S("top node of variable ", v->var, " has a NaN parameter");
      if (o.normalised && !close(lse(s->lt, s->lf), 0, o.tol))
        return S("top node of variable ", v->var, " is not normalised: log params ", s->lt,
                 " ", s->lf);
      if (o.positive && (std::isinf(s->lt) || std::isinf(s->lf)))
        return S("top node of variable ", v->var, " has a zero parameter");
      ck.precision(17);
      ck << "T" << v->var << " " << s->lt << " " << s->lf;
    } else if (n->node_type() == DECISION_NODE_TYPE) {
      PsddDecisionNode *d = n->psdd_decision_node();
      if (v->leaf()) return S("decision node ", n->node_index(), " attached to a leaf");
      std::vector<SElem> el;
      LD sum = NEG_INF();
      std::set<PsddNode *> seen;
      ck.precision(17);
      ck << "D" << v->id;
      for (size_t i = 0; i < d->primes().size(); ++i) {
        PsddNode *p = d->primes()[i], *b = d->subs()[i];
        double w = d->parameters()[i].parameter();
        auto pi = vm.find(p->vtree_node()), si = vm.find(b->vtree_node());
        if (pi == vm.end() || pi->second != v->l)
          return S("prime of decision node ", n->node_index(),
                   " is not normalised for the left child of its vtree node");
        if (si == vm.end() || si->second != v->r)
          return S("sub of decision node ", n->node_index(),
                   " is not normalised for the right child of its vtree node");
        if (std::isnan(w) || w == std::numeric_limits<double>::infinity())
          return S("decision node ", n->node_index(), " has a NaN/inf parameter");
        if (o.positive && std::isinf(w))
          return S("decision node ", n->node_index(), " has a zero parameter");
        if (!seen.insert(p).second)
          return S("decision node ", n->node_index(), " uses one prime twice");
        el.push_back({imp->of.at(p), imp->of.at(b), w});
        sum = lse(sum, w);
        ck << " " << p->node_index() << "," << b->node_index() << "," << w;
      }
      if (o.normalised && !close(sum, 0, o.tol))
        return S("decision node ", n->node_index(),
                 " is not normalised: log of parameter sum ", (double)sum, " over ",
                 el.size(), " elements");
      s = imp->spec.dec(v, el);
    } else {
      return S("node ", n->node_index(), " has unknown type ", n->node_type());
    }
    ck << " f" << n->flag_index();
    if (o.canonical) {
      auto ci = canon.insert({ck.str(), n});
      if (!ci.second)
        return S("nodes ", n->node_index(), " and ", ci.first->second->node_index(),
                 " are distinct but identical: ", ck.str());
    }
    s->src = n;
    imp->of[n] = s;
  }
  imp->spec.root = imp->of.at(root);
  if (o.disjoint) {
    Disjoint dj;
    for (auto &pn : imp->spec.pool) {
      auto &el = pn->el;
      if (el.size() > 600) {
        Rng pairs(el.size());
        for (int k = 0; k < 100000; ++k) {
          size_t i = pairs.below(el.size()), j = pairs.below(el.size());
          if (i != j && dj.inter(el[i].p, el[j].p))
            return S("two primes of decision node ", pn->src->node_index(), " overlap");
        }
        continue;
      }
      for (size_t i = 0; i < el.size(); ++i)
        for (size_t j = i + 1; j < el.size(); ++j)
          if (dj.inter(el[i].p, el[j].p))
            return S("two primes of decision node ", pn->src->node_index(), " overlap");
    }
  }
  return "";
}

// ------------------------------------------------------------------ evidence
Evid random_evid(Rng &rng, const std::vector<int> &vars, double density) {
  Evid e;
  for (int v : vars)
    if (rng.chance(density)) e[v] = (int)rng.below(2);
  return e;
}
void to_bits(const Evid &ev, Bits *mask, Bits *inst) {
  mask->reset();
  inst->reset();
  for (auto &p : ev) {
    mask->set((size_t)p.first);
    if (p.second) inst->set((size_t)p.first);
  }
}
Evid assignment(const std::vector<int> &vars, uint64_t i) {
  Evid e;
  for (size_t j = 0; j < vars.size(); ++j) e[vars[j]] = (int)((j < 64 ? i >> j : 0) & 1);
  return e;
}

// ------------------------------------------------------------------ sdd
SddCtx::~SddCtx() {
  if (m) sdd_manager_free(m);
}
void make_sdd(const VTree &vt, Rng *rng, SddCtx *out) {
  std::vector<int> ids;
  int n = (int)vt.root->vars.size();
  for (int i = 1; i <= n; ++i) ids.push_back(i);
  if (rng) rng->shuffle(ids);
  for (int i = 0; i < n; ++i) {
    out->to_sdd_var[vt.root->vars[(size_t)i]] = ids[(size_t)i];
    out->from_sdd_var[ids[(size_t)i]] = vt.root->vars[(size_t)i];
  }
  Vtree *v = to_sdd_mapped(vt.root, out->to_sdd_var);
  out->m = sdd_manager_new(v);
  sdd_vtree_free(v);
  sdd_manager_auto_gc_and_minimize_off(out->m);
}
SddNode *sdd_of_table(SddCtx &c, const std::vector<int> &vars, const Table &f) {
  // Shannon expansion from the last variable down
  std::vector<SddNode *> cur(f.size());
  for (size_t i = 0; i < f.size(); ++i)
    cur[i] = f[i] ? sdd_manager_true(c.m) : sdd_manager_false(c.m);
  for (size_t j = vars.size(); j-- > 0;) {
    size_t half = (size_t)1 << j;
    long v = c.to_sdd_var.at(vars[j]);
    std::vector<SddNode *> nx(half);
    for (size_t i = 0; i < half; ++i) {
      SddNode *lo = cur[i], *hi = cur[i | half];
      if (lo == hi) {
        nx[i] = lo;
      } else {
        SddNode *a = sdd_conjoin(sdd_manager_literal(v, c.m), hi, c.m);
        SddNode *b = sdd_conjoin(sdd_manager_literal(-v, c.m), lo, c.m);
        nx[i] = sdd_disjoin(a, b, c.m);
      }
    }
    cur = nx;
  }
  return cur[0];
}
static bool sdd_eval_memo(SddNode *n, SddCtx &c, const Evid &full,
                          std::unordered_map<SddNode *, bool> *memo) {
  if (sdd_node_is_true(n)) return true;
  if (sdd_node_is_false(n)) return false;
  if (sdd_node_is_literal(n)) {
    SddLiteral l = sdd_node_literal(n);
    int v = c.from_sdd_var.at((int)std::labs(l));
    return (full.at(v) != 0) == (l > 0);
  }
  auto it = memo->find(n);
  if (it != memo->end()) return it->second;
  SddNode **e = sdd_node_elements(n);
  bool v = false;
  for (SddNodeSize i = 0; i < sdd_node_size(n); ++i)
    if (sdd_eval_memo(e[2 * i], c, full, memo)) {
      v = sdd_eval_memo(e[2 * i + 1], c, full, memo);
      break;
    }
  (*memo)[n] = v;
  return v;
}
bool sdd_eval(SddNode *n, SddCtx &c, const Evid &full) {
  std::unordered_map<SddNode *, bool> memo;
  return sdd_eval_memo(n, c, full, &memo);
}

// ------------------------------------------------------------------ files
std::string write_tmp(Case &c, const std::string &name, const std::string &content) {
  std::string p = c.scratch + "/" + name;
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f << content;
  f.close();
  return p;
}
std::string read_all(const std::string &path) {
  std::ifstream f(path, std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
std::string bits_str(const Table &t) {
  std::string s;
  for (auto x : t) s += x ? '1' : '0';
  return s;
}
}  // namespace vh

// ---------------------------------------------------------------------- worker
using namespace vh;
int main(int argc, char **argv) {
  uint64_t seed = 1;
  bool thorough = false;
  int worker = 0, workers = 1, start = 0, only = -1;
  double cpu = 60;
  std::string out = "/dev/stdout", progress, scratch = "/tmp";
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--tier") thorough = v == "thorough";
    else if (a == "--worker") worker = atoi(v.c_str());
    else if (a == "--workers") workers = atoi(v.c_str());
    else if (a == "--start") start = atoi(v.c_str());
    else if (a == "--only") only = atoi(v.c_str());
    else if (a == "--out") out = v;
    else if (a == "--progress") progress = v;
    else if (a == "--scratch") scratch = v;
    else if (a == "--cpu") cpu = atof(v.c_str());
    else {
      fprintf(stderr, "unknown option %s\n", a.c_str());
      return 98;
    }
  }
  vh::g_out = fopen(out.c_str(), "a");
  if (!vh::g_out) return 98;
  if (!progress.empty()) vh::g_progress = open(progress.c_str(), O_RDWR | O_CREAT, 0600);
  signal(SIGPROF, vh::on_cpu);
  uint64_t base = mix(seed, hash_str(kProperty));
  int total = num_cases(thorough);
  for (int i = 0; i < total; ++i) {
    if (only >= 0 ? i != only : (i % workers != worker || i < start)) continue;
    if (vh::g_progress >= 0) {
      char b[40];
      memset(b, 0, sizeof b);
      snprintf(b, 32, "%d", i);
      ssize_t r = pwrite(vh::g_progress, b, sizeof b, 0);
      (void)r;
    }
    struct itimerval tv;
    memset(&tv, 0, sizeof tv);
    tv.it_value.tv_sec = (long)cpu;
    tv.it_value.tv_usec = 1;
    setitimer(ITIMER_PROF, &tv, nullptr);
    Case c;
    c.rng = Rng(mix(base, (uint64_t)i));
    c.index = i;
    c.thorough = thorough;
    c.seed = seed;
    c.scratch = scratch;
    clock_t began = clock();
    try {
      run_case(c);
    } catch (CaseFailed &) {
    } catch (std::exception &e) {
      try {
        c.fail("exception", S("unexpected exception: ", e.what()));
      } catch (CaseFailed &) {
      }
    }
    double took = (double)(clock() - began) / CLOCKS_PER_SEC;
    if (took > vh::g_slowest) {
      vh::g_slowest = took;
      vh::g_slowest_case = i;
    }
    ++vh::g_cases;
    vh::g_checks += c.checks;
    if (vh::g_fails >= 8) break;
  }
  struct itimerval off;
  memset(&off, 0, sizeof off);
  setitimer(ITIMER_PROF, &off, nullptr);
  FILE *f = vh::g_out;
  fprintf(f, "{\"t\":\"done\",\"cases\":%llu,\"checks\":%llu,\"slowest\":[%.3f,%d],\"rule\":%s,\"counts\":{",
          (unsigned long long)vh::g_cases, (unsigned long long)vh::g_checks,
          vh::g_slowest, vh::g_slowest_case, vh::json(kRule).c_str());
  bool first = true;
  for (auto &p : vh::g_counts) {
    fprintf(f, "%s%s:%llu", first ? "" : ",", vh::json(p.first).c_str(),
            (unsigned long long)p.second);
    first = false;
  }
  fprintf(f, "},\"samples\":[");
  for (size_t i = 0; i < vh::g_samples.size(); ++i)
    fprintf(f, "%s%s", i ? "," : "", vh::json(vh::g_samples[i]).c_str());
  fprintf(f, "],\"hashes\":[");
  first = true;
  for (uint64_t h : vh::g_hashes) {
    fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long)h);
    first = false;
  }
  fprintf(f, "]}\n");
  fclose(f);
  _exit(0);
}
