// Stand-ins for libhtd and libkahypar, which are not available offline. See htd/main.hpp.
#include <htd/main.hpp>
#include <kahypar/libkahypar.h>

#include <fstream>

extern "C" uint64_t vh_stub_seed;
uint64_t vh_stub_seed = [] {
  const char *s = getenv("VH_STUB_SEED");
  return s ? strtoull(s, nullptr, 10) : 0ull;
}();
extern "C" uint64_t vh_stub_calls;
uint64_t vh_stub_calls = 0;

uint64_t vh_stub_random(uint64_t bound) {
  uint64_t z = (vh_stub_seed += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  z ^= z >> 31;
  return bound ? z % bound : 0;
}

namespace htd {
id_t MultiHypergraph::addEdge(const std::vector<vertex_t> &elements) {
  for (vertex_t v : elements)
    if (v < 1 || v > n_) {
      // htd throws std::logic_error here
      fprintf(stderr, "htd stand-in: addEdge: %zu is not a vertex\n", v);
      abort();
    }
  e_.push_back(elements);
  return e_.size();
}
LibraryInstance *createManagementInstance(id_t) { return new LibraryInstance(); }

namespace {
typedef std::vector<std::set<vertex_t>> Adj;
Adj primal(const IMultiHypergraph &g) {
  Adj a(g.vertexCount() + 1);
  for (const auto &e : g.vh_edges())
    for (vertex_t x : e)
      for (vertex_t y : e)
        if (x != y) a[x].insert(y);
  return a;
}
// mode 0: greedy min-fill with random ties; mode 1: any order
std::vector<vertex_t> eliminate(Adj a, std::vector<std::set<vertex_t>> *bags) {
  std::set<vertex_t> left;
  for (vertex_t v = 1; v < a.size(); ++v) left.insert(v);
  bool any = vh_stub_seed != 0 && vh_stub_random(3) == 0;
  std::vector<vertex_t> order;
  while (!left.empty()) {
    vertex_t best = 0;
    if (any) {
      auto it = left.begin();
      std::advance(it, vh_stub_random(left.size()));
      best = *it;
    } else {
      size_t best_fill = (size_t)-1, ties = 0;
      for (vertex_t v : left) {
        size_t fill = 0;
        if (a.size() > 150 && a[v].size() > 10)
          fill = a[v].size() * a[v].size();  // close enough for large graphs
        else
          for (vertex_t x : a[v])
          for (vertex_t y : a[v])
            if (x < y && !a[x].count(y)) ++fill;
        if (fill < best_fill) {
          best_fill = fill;
          best = v;
          ties = 1;
        } else if (fill == best_fill && vh_stub_seed != 0 && vh_stub_random(++ties) == 0) {
          best = v;
        }
      }
    }
    std::set<vertex_t> bag = a[best];
    bag.insert(best);
    bags->push_back(bag);
    for (vertex_t x : a[best])
      for (vertex_t y : a[best])
        if (x != y) a[x].insert(y);
    for (vertex_t x : a[best]) a[x].erase(best);
    left.erase(best);
    order.push_back(best);
  }
  return order;
}
class Ordering : public IVertexOrdering {
 public:
  std::vector<vertex_t> s;
  const std::vector<vertex_t> &sequence() const override { return s; }
};
class Decomposition : public ITreeDecomposition {
 public:
  std::vector<std::set<vertex_t>> bags{1};  // 1-based
  std::vector<vertex_t> par{0};
  std::vector<std::vector<vertex_t>> ch{1};
  vertex_t r = 0;
  vertex_t add(const std::set<vertex_t> &b) {
    bags.push_back(b);
    par.push_back(0);
    ch.emplace_back();
    return bags.size() - 1;
  }
  ConstCollection<vertex_t> bagContent(vertex_t v) const override {
    return ConstCollection<vertex_t>(
        std::vector<vertex_t>(bags.at(v).begin(), bags.at(v).end()));
  }
  std::size_t bagSize(vertex_t v) const override { return bags.at(v).size(); }
  std::size_t maximumBagSize() const override {
    std::size_t m = 0;
    for (const auto &b : bags) m = std::max(m, b.size());
    return m;
  }
  std::size_t depth(vertex_t v) const {
    std::size_t m = 0;
    for (vertex_t c : ch[v]) m = std::max(m, depth(c) + 1);
    return m;
  }
  std::size_t height() const override { return depth(r); }
  std::size_t vertexCount() const override { return bags.size() - 1; }
  vertex_t root() const override { return r; }
  vertex_t parent(vertex_t v) const override { return par.at(v); }
  ConstCollection<vertex_t> children(vertex_t v) const override {
    return ConstCollection<vertex_t>(ch.at(v));
  }
  void reroot(vertex_t v) {
    std::vector<std::vector<vertex_t>> nb(bags.size());
    for (vertex_t i = 1; i < bags.size(); ++i)
      if (par[i]) {
        nb[i].push_back(par[i]);
        nb[par[i]].push_back(i);
      }
    for (auto &c : ch) c.clear();
    std::fill(par.begin(), par.end(), 0);
    r = v;
    std::vector<vertex_t> st{v};
    std::vector<bool> seen(bags.size());
    seen[v] = true;
    while (!st.empty()) {
      vertex_t x = st.back();
      st.pop_back();
      for (vertex_t y : nb[x])
        if (!seen[y]) {
          seen[y] = true;
          par[y] = x;
          ch[x].push_back(y);
          st.push_back(y);
        }
    }
  }
};
}  // namespace

IVertexOrdering *MinFillOrderingAlgorithm::computeOrdering(const IMultiHypergraph &g) const {
  ++vh_stub_calls;
  std::vector<std::set<vertex_t>> bags;
  auto *o = new Ordering;
  o->s = eliminate(primal(g), &bags);
  return o;
}
ITreeDecomposition *ITreeDecompositionAlgorithm::computeDecomposition(
    const IMultiHypergraph &g) const {
  ++vh_stub_calls;
  std::vector<std::set<vertex_t>> bags;
  std::vector<vertex_t> order = eliminate(primal(g), &bags);
  auto *d = new Decomposition;
  std::map<vertex_t, size_t> pos;
  for (size_t i = 0; i < order.size(); ++i) pos[order[i]] = i;
  for (const auto &b : bags) d->add(b);
  for (size_t i = 0; i < order.size(); ++i) {
    size_t up = (size_t)-1;
    for (vertex_t x : bags[i])
      if (x != order[i]) up = std::min(up, pos[x]);
    if (up == (size_t)-1 && i + 1 < order.size()) up = order.size() - 1;  // join components
    if (up != (size_t)-1) d->par[i + 1] = up + 1;
  }
  if (order.empty()) d->add({});
  d->r = d->bags.size() - 1;
  // normalisation: split long moves into single steps, optionally empty root and leaves
  vertex_t n = d->bags.size();
  for (vertex_t i = 1; i < n; ++i)
    if (d->par[i] && vh_stub_seed != 0 && vh_stub_random(2)) {
      std::set<vertex_t> mid;
      std::set_intersection(d->bags[i].begin(), d->bags[i].end(), d->bags[d->par[i]].begin(),
                            d->bags[d->par[i]].end(), std::inserter(mid, mid.begin()));
      vertex_t m = d->add(mid);
      d->par[m] = d->par[i];
      d->par[i] = m;
    }
  if (vh_stub_seed != 0) {
    for (vertex_t i = 1; i < n; ++i)
      if (vh_stub_random(6) == 0) d->par[d->add({})] = i;  // empty leaves
    d->reroot(1 + vh_stub_random(d->bags.size() - 1));
    if (vh_stub_random(3) == 0) {  // empty root
      vertex_t m = d->add({});
      d->par[d->r] = m;
      d->reroot(m);
    }
  } else {
    d->reroot(d->r);
  }
  return d;
}
ITreeDecomposition *IterativeImprovementTreeDecompositionAlgorithm::computeDecomposition(
    const IMultiHypergraph &g,
    const std::function<void(const IMultiHypergraph &, const ITreeDecomposition &,
                             const FitnessEvaluation &)> &cb) const {
  std::unique_ptr<ITreeDecomposition> best;
  double best_fit = 0;
  for (std::size_t i = 0; i < std::min<std::size_t>(iterations_, 3); ++i) {
    std::unique_ptr<ITreeDecomposition> d(base_->computeDecomposition(g));
    std::unique_ptr<FitnessEvaluation> f(f_->fitness(g, *d));
    cb(g, *d, *f);
    if (!best || f->at(0) > best_fit) {
      best_fit = f->at(0);
      best = std::move(d);
    }
  }
  return best.release();
}
void PostOrderTreeTraversal::traverse(
    const ITreeDecomposition &t,
    const std::function<void(vertex_t, vertex_t, std::size_t)> &f) const {
  std::function<void(vertex_t, vertex_t, std::size_t)> rec = [&](vertex_t v, vertex_t p,
                                                                std::size_t dist) {
    for (vertex_t c : t.children(v)) rec(c, v, dist + 1);
    f(v, p, dist);
  };
  rec(t.root(), 0, 0);
}
}  // namespace htd

// ------------------------------------------------------------------ kahypar
struct kahypar_context_s {
  bool configured;
};
extern "C" {
kahypar_context_t *kahypar_context_new() { return new kahypar_context_s{false}; }
void kahypar_context_free(kahypar_context_t *c) { delete c; }
void kahypar_configure_context_from_file(kahypar_context_t *c, const char *name) {
  std::ifstream f(name);
  std::string all((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  if (all.find("objective=") == std::string::npos) {
    fprintf(stderr, "kahypar stand-in: could not load context file at: %s\n", name);
    abort();
  }
  c->configured = true;
}
void kahypar_partition(const kahypar_hypernode_id_t n, const kahypar_hyperedge_id_t m,
                       const double epsilon, const kahypar_partition_id_t k,
                       const kahypar_hypernode_weight_t *, const kahypar_hyperedge_weight_t *,
                       const size_t *ptr, const kahypar_hyperedge_id_t *ind,
                       kahypar_hyperedge_weight_t *objective, kahypar_context_t *c,
                       kahypar_partition_id_t *part) {
  ++vh_stub_calls;
  auto bad = [](const char *why) {
    fprintf(stderr, "kahypar stand-in: malformed hypergraph: %s\n", why);
    abort();
  };
  if (!c->configured) bad("context not configured");
  if (k != 2 || n < 2) bad("unexpected number of blocks or vertices");
  if (ptr[0] != 0) bad("first offset not 0");
  for (size_t e = 0; e < m; ++e) {
    if (ptr[e + 1] <= ptr[e]) bad("empty net");
    for (size_t i = ptr[e]; i < ptr[e + 1]; ++i)
      if (ind[i] >= n) bad("pin out of range");
  }
  size_t cap = (size_t)((1 + epsilon) * ((n + 1) / 2));
  if (cap >= n) cap = n - 1;
  // randomised local search on the cut from a random balanced start
  std::vector<int> order(n);
  for (size_t i = 0; i < n; ++i) order[i] = i;
  for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[vh_stub_random(i)]);
  size_t lo = n - cap, left = lo + vh_stub_random(cap - lo + 1);
  if (left < 1) left = 1;
  if (left >= n) left = n - 1;
  for (size_t i = 0; i < n; ++i) part[order[i]] = i < left ? 0 : 1;
  auto cut = [&] {
    int t = 0;
    for (size_t e = 0; e < m; ++e)
      for (size_t i = ptr[e] + 1; i < ptr[e + 1]; ++i)
        if (part[ind[i]] != part[ind[ptr[e]]]) {
          ++t;
          break;
        }
    return t;
  };
  int cur = cut();
  for (int r = 0; r < 30; ++r) {
    size_t a = vh_stub_random(n), b = vh_stub_random(n);
    if (part[a] == part[b]) continue;
    std::swap(part[a], part[b]);
    int t = cut();
    if (t <= cur)
      cur = t;
    else
      std::swap(part[a], part[b]);
  }
  *objective = cur;
}
}
