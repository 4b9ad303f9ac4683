// Stand-in for the absent htd library (tree decompositions): the part of its interface that
// hahaXD/psdd uses, backed by small randomised implementations. Any elimination order and
// any valid tree decomposition is an answer the real library could give; the stand-in picks
// one from a seed (vh_stub_seed) so that callers are exercised with many of them.
#ifndef VH_HTD_MAIN_HPP
#define VH_HTD_MAIN_HPP
#include <algorithm>
#include <cassert>
#include <chrono>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <ctime>
#include <functional>
#include <iostream>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <stack>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#define HTD_UNUSED(x) ((void)(x));

extern "C" uint64_t vh_stub_seed;  // 0: plain greedy min-fill
uint64_t vh_stub_random(uint64_t bound);

namespace htd {
typedef std::size_t vertex_t;
typedef std::size_t index_t;
typedef std::size_t id_t;
struct Id {
  static const id_t FIRST = 1;
  static const id_t UNKNOWN = 0;
};
struct Vertex {
  static const vertex_t FIRST = 1;
  static const vertex_t UNKNOWN = 0;
};

template <class T> class ConstCollection {
 public:
  ConstCollection() {}
  explicit ConstCollection(std::vector<T> v) : v_(std::move(v)) {}
  std::size_t size() const { return v_.size(); }
  bool empty() const { return v_.empty(); }
  const T &at(index_t i) const { return v_.at(i); }
  const T &operator[](index_t i) const { return v_.at(i); }
  typename std::vector<T>::const_iterator begin() const { return v_.begin(); }
  typename std::vector<T>::const_iterator end() const { return v_.end(); }

 private:
  std::vector<T> v_;
};

class LibraryInstance;

class IMultiHypergraph {
 public:
  virtual ~IMultiHypergraph() {}
  virtual std::size_t vertexCount() const = 0;
  virtual std::size_t edgeCount() const = 0;
  virtual const std::vector<std::vector<vertex_t>> &vh_edges() const = 0;
};
class IMutableMultiHypergraph : public IMultiHypergraph {
 public:
  virtual vertex_t addVertex() = 0;
  virtual id_t addEdge(const std::vector<vertex_t> &elements) = 0;
  virtual id_t addEdge(vertex_t a, vertex_t b) = 0;
};
class MultiHypergraph : public IMutableMultiHypergraph {
 public:
  explicit MultiHypergraph(const LibraryInstance *) {}
  MultiHypergraph(const LibraryInstance *, std::size_t n) : n_(n) {}
  std::size_t vertexCount() const override { return n_; }
  std::size_t edgeCount() const override { return e_.size(); }
  vertex_t addVertex() override { return ++n_; }
  id_t addEdge(const std::vector<vertex_t> &elements) override;
  id_t addEdge(vertex_t a, vertex_t b) override {
    return addEdge(std::vector<vertex_t>{a, b});
  }
  const std::vector<std::vector<vertex_t>> &vh_edges() const override { return e_; }

 private:
  std::size_t n_ = 0;
  std::vector<std::vector<vertex_t>> e_;
};

class IVertexOrdering {
 public:
  virtual ~IVertexOrdering() {}
  virtual const std::vector<vertex_t> &sequence() const = 0;
};
class IOrderingAlgorithm {
 public:
  virtual ~IOrderingAlgorithm() {}
  virtual IVertexOrdering *computeOrdering(const IMultiHypergraph &g) const = 0;
};
class MinFillOrderingAlgorithm : public IOrderingAlgorithm {
 public:
  explicit MinFillOrderingAlgorithm(const LibraryInstance *) {}
  IVertexOrdering *computeOrdering(const IMultiHypergraph &g) const override;
};

class ITreeDecomposition {
 public:
  virtual ~ITreeDecomposition() {}
  virtual ConstCollection<vertex_t> bagContent(vertex_t v) const = 0;
  virtual std::size_t bagSize(vertex_t v) const = 0;
  virtual std::size_t maximumBagSize() const = 0;
  virtual std::size_t height() const = 0;
  virtual std::size_t vertexCount() const = 0;
  virtual vertex_t root() const = 0;
  virtual vertex_t parent(vertex_t v) const = 0;
  virtual ConstCollection<vertex_t> children(vertex_t v) const = 0;
};
class FitnessEvaluation {
 public:
  FitnessEvaluation(int n, ...) {
    va_list ap;
    va_start(ap, n);
    for (int i = 0; i < n; ++i) v_.push_back(va_arg(ap, double));
    va_end(ap);
  }
  double at(index_t i) const { return v_.at(i); }

 private:
  std::vector<double> v_;
};
class ITreeDecompositionFitnessFunction {
 public:
  virtual ~ITreeDecompositionFitnessFunction() {}
  virtual FitnessEvaluation *fitness(const IMultiHypergraph &,
                                     const ITreeDecomposition &) const = 0;
  virtual ITreeDecompositionFitnessFunction *clone() const = 0;
};
class IDecompositionManipulationOperation {
 public:
  virtual ~IDecompositionManipulationOperation() {}
  virtual void setManagementInstance(const LibraryInstance *) {}
};
class IVertexSelectionStrategy {
 public:
  virtual ~IVertexSelectionStrategy() {}
};
class RandomVertexSelectionStrategy : public IVertexSelectionStrategy {
 public:
  explicit RandomVertexSelectionStrategy(std::size_t) {}
};
class NormalizationOperation : public IDecompositionManipulationOperation {
 public:
  explicit NormalizationOperation(const LibraryInstance *, bool = false, bool = false,
                                  bool = false, bool = false) {}
};
class TreeDecompositionOptimizationOperation : public IDecompositionManipulationOperation {
 public:
  TreeDecompositionOptimizationOperation(const LibraryInstance *,
                                         ITreeDecompositionFitnessFunction *f)
      : f_(f) {}
  void setVertexSelectionStrategy(IVertexSelectionStrategy *s) { s_.reset(s); }
  void addManipulationOperation(IDecompositionManipulationOperation *o) {
    ops_.emplace_back(o);
  }

 private:
  std::unique_ptr<ITreeDecompositionFitnessFunction> f_;
  std::unique_ptr<IVertexSelectionStrategy> s_;
  std::vector<std::unique_ptr<IDecompositionManipulationOperation>> ops_;
};
class ITreeDecompositionAlgorithm {
 public:
  virtual ~ITreeDecompositionAlgorithm() {}
  virtual void addManipulationOperation(IDecompositionManipulationOperation *o) {
    ops_.emplace_back(o);
  }
  virtual ITreeDecomposition *computeDecomposition(const IMultiHypergraph &g) const;

 private:
  std::vector<std::unique_ptr<IDecompositionManipulationOperation>> ops_;
};
class IterativeImprovementTreeDecompositionAlgorithm : public ITreeDecompositionAlgorithm {
 public:
  IterativeImprovementTreeDecompositionAlgorithm(const LibraryInstance *,
                                                 ITreeDecompositionAlgorithm *base,
                                                 ITreeDecompositionFitnessFunction *f)
      : base_(base), f_(f) {}
  void setIterationCount(std::size_t n) { iterations_ = n; }
  void setNonImprovementLimit(std::size_t n) { limit_ = n; }
  using ITreeDecompositionAlgorithm::computeDecomposition;
  ITreeDecomposition *computeDecomposition(
      const IMultiHypergraph &g,
      const std::function<void(const IMultiHypergraph &, const ITreeDecomposition &,
                               const FitnessEvaluation &)> &cb) const;

 private:
  std::unique_ptr<ITreeDecompositionAlgorithm> base_;
  std::unique_ptr<ITreeDecompositionFitnessFunction> f_;
  std::size_t iterations_ = 1, limit_ = 0;
};

class MultiHypergraphFactory {
 public:
  IMutableMultiHypergraph *createInstance() const { return new MultiHypergraph(nullptr); }
};
class OrderingAlgorithmFactory {
 public:
  void setConstructionTemplate(IOrderingAlgorithm *t) { t_.reset(t); }

 private:
  std::unique_ptr<IOrderingAlgorithm> t_;
};
class TreeDecompositionAlgorithmFactory {
 public:
  ITreeDecompositionAlgorithm *createInstance() const {
    return new ITreeDecompositionAlgorithm();
  }
};
class LibraryInstance {
 public:
  virtual ~LibraryInstance() {}
  MultiHypergraphFactory &multiHypergraphFactory() { return m_; }
  OrderingAlgorithmFactory &orderingAlgorithmFactory() { return o_; }
  TreeDecompositionAlgorithmFactory &treeDecompositionAlgorithmFactory() { return t_; }

 private:
  MultiHypergraphFactory m_;
  OrderingAlgorithmFactory o_;
  TreeDecompositionAlgorithmFactory t_;
};
LibraryInstance *createManagementInstance(id_t id);

class PostOrderTreeTraversal {
 public:
  void traverse(const ITreeDecomposition &t,
                const std::function<void(vertex_t, vertex_t, std::size_t)> &f) const;
};
}  // namespace htd
#endif
