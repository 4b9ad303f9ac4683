// Memory safety, defined behaviour and reproducibility of long mixed histories.
#include "ops.h"
#include <psdd/binary_data.h>
#include <psdd/cnf.h>
using namespace vh;
namespace vh {
const char *const kProperty = "C26";
const char *const kRule =
    "random histories of 6..60 operations of every kind (construction, conversion, products, "
    "sampling, learning, files, data sets, constraints, clean-ups with everything dropped, "
    "two managers of which either is destroyed first while the other goes on) run several "
    "times from the same seed under AddressSanitizer + UndefinedBehaviorSanitizer and under "
    "valgrind memcheck; the repetitions give the same answers and no repetition leaves more "
    "live memory than the one before; non-trivial = >= 5 node-creating steps, distinct by "
    "operation sequence";
static bool memcheck() { return getenv("VH_MEMCHECK") != nullptr; }
int num_cases(bool t) { return memcheck() ? (t ? 2400 : 160) : (t ? 20000 : 1400); }

struct Trace {
  std::vector<std::pair<const char *, double>> answers;
  std::string script;
  int created = 0;
  uint64_t id = 0;
};
struct Root {
  int w;
  PsddNode *x;
  bool normalised, positive;
};

// One history from a fixed seed; everything it makes is gone afterwards.
static void history(Case &c, uint64_t seed, Trace *t) {
  Rng keep = c.rng;
  c.rng = Rng(seed);
  Rng &r = c.rng;
  {
    int n = r.chance(0.15) ? r.range(10, 30) : r.range(1, 7);
    if (memcheck() && n > 12) n = 12;
    std::unique_ptr<World> ws[2];
    ws[0].reset(new World);
    make_world(c, n, ws[0].get());
    ws[1].reset(new World);
    same_world(c, *ws[0], ws[1].get());
    std::vector<int> vars = ws[0]->vars();
    std::unique_ptr<SddCtx> sc(new SddCtx);
    make_sdd(ws[0]->vt, &r, sc.get());
    t->id = hash_str(vt_str(ws[0]->vt.root));
    std::vector<Root> held;
    auto hold = [&](int w, PsddNode *x, bool norm, bool pos) {
      held.push_back({w, x, norm, pos});
      ++t->created;
    };
    auto ask = [&](const char *k, double v) { t->answers.push_back({k, v}); };
    for (int k = 0; k < 2; ++k) {
      Spec s;
      any_spec(c, *ws[k], positive_style(r), &s);
      hold(k, build(s.root, ws[k]->m, any_flag(r)), true, true);
    }
    int steps = memcheck() ? r.range(6, 20) : r.range(6, c.thorough ? 60 : 30);
    for (int step = 0; step < steps; ++step) {
      if (held.empty()) {
        int k = ws[0] ? 0 : 1;
        Spec s;
        any_spec(c, *ws[k], positive_style(r), &s);
        hold(k, build(s.root, ws[k]->m, any_flag(r)), true, true);
      }
      Root h = held[r.below(held.size())];
      World *w = ws[h.w].get();
      int oi = ws[1 - h.w] ? 1 - h.w : h.w;
      World *o = ws[oi].get();
      uintmax_t flag = any_flag(r);
      int op = (int)r.below(22);
      const char *name = "?";
      switch (op) {
        case 0: {
          name = "build";
          Spec s;
          int style = (int)r.below(7);
          any_spec(c, *w, style, &s);
          hold(h.w, build(s.root, w->m, flag), true, style < 6);
          break;
        }
        case 1: {
          name = "evaluate";
          for (int k = 0; k < 3; ++k) {
            Evid e = random_evid(r, vars, r.real());
            Bits m, in;
            to_bits(e, &m, &in);
            ask(name, psdd_node_util::Evaluate(m, in, h.x).parameter());
          }
          break;
        }
        case 2:
          name = "mpe";
          ask(name, psdd_node_util::GetMPESolution(h.x).second.parameter());
          break;
        case 3: {
          name = "marginals";
          auto ser = psdd_node_util::SerializePsddNodes(h.x);
          auto m = psdd_node_util::GetMarginals(ser);
          for (int v : vars) {
            ask(name, m[(uint32_t)v].first.parameter());
            ask(name, m[(uint32_t)v].second.parameter());
          }
          break;
        }
        case 4:
          name = "count";
          ask(name, psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(h.x)).get_d());
          ask("size", (double)psdd_node_util::GetPsddSize(h.x));
          break;
        case 5: {
          name = "consistent";
          Evid e = random_evid(r, vars, r.real());
          Bits m, in;
          to_bits(e, &m, &in);
          ask(name, psdd_node_util::IsConsistent(h.x, m, in));
          break;
        }
        case 6: {
          name = "file";
          std::string f = c.scratch + "/w.psdd";
          psdd_node_util::WritePsddToFile(h.x, f.c_str());
          hold(oi, o->m->ReadPsddFile(f.c_str(), flag), false, h.positive);
          break;
        }
        case 7: {
          name = "parameters";
          RandomDoubleFromGammaGenerator g(1 + r.real(), 1, (uint)r.u64());
          hold(h.w, w->m->SampleParameters(&g, h.x, flag), true, true);
          break;
        }
        case 8: {
          name = "parameters-many";
          std::vector<PsddNode *> in;
          for (auto &k : held)
            if (k.w == h.w && r.chance(0.5)) in.push_back(k.x);
          if (in.empty()) in.push_back(h.x);
          RandomDoubleFromUniformGenerator g(0.1, 1, (uint)r.u64());
          auto out = w->m->SampleParametersForMultiplePsdds(&g, in, flag);
          for (auto *y : out) hold(h.w, y, true, true);
          break;
        }
        case 9: {
          name = "learn";
          size_t N = r.below(12);
          std::unordered_map<int32_t, BatchedPsddValue> ex;
          for (int v : vars) {
            ex[v] = BatchedPsddValue(N, false);
            for (size_t i = 0; i < N; ++i) ex[v][i] = r.chance(0.5);
          }
          hold(h.w,
               w->m->LearnPsddParameters(h.x, ex, N, PsddParameter::CreateFromDecimal(0.5), flag),
               true, true);
          break;
        }
        case 10: case 11: {
          name = "multiply";
          Root &k = held[r.below(held.size())];
          // products of products of products would grow without bound
          if (psdd_node_util::GetPsddSize(h.x) * psdd_node_util::GetPsddSize(k.x) > 300000) break;
          auto p = w->m->Multiply(h.x, k.x, flag);
          ask(name, p.second.parameter());
          if (p.first) hold(h.w, p.first, true, true);
          break;
        }
        case 12:
          name = "load";
          hold(oi, o->m->LoadPsddNode(o->m->vtree(), h.x, flag), h.normalised, h.positive);
          break;
        case 13: {
          name = "from-constraint";
          if (n > 8) break;
          SddNode *f = sdd_of_table(*sc, vars, random_table(r, n));
          sdd_ref(f, sc->m);
          PsddNode *p = w->m->ConvertSddToPsdd(f, sdd_manager_vtree(sc->m), flag);
          sdd_deref(f, sc->m);
          if (p) hold(h.w, p, false, true);
          break;
        }
        case 14: {
          name = "to-constraint";
          if (n > 8) break;
          std::unordered_map<SddLiteral, SddLiteral> vm;
          for (auto &p : sc->to_sdd_var) vm[p.first] = p.second;
          SddNode *f = psdd_node_util::ConvertPsddNodeToSddNode(
              psdd_node_util::SerializePsddNodes(h.x), vm, sc->m);
          sdd_ref(f, sc->m);
          ask(name, (double)sdd_global_model_count(f, sc->m));
          sdd_deref(f, sc->m);
          if (r.chance(0.5)) sdd_manager_garbage_collect(sc->m);
          break;
        }
        case 15: {
          name = "true";
          PsddNode *y = w->m->GetTrueNode(w->m->vtree(), flag);
          hold(h.w, w->m->NormalizePsddNode(w->m->vtree(), y, flag), true, true);
          break;
        }
        case 16: {
          name = "clauses";
          std::vector<std::vector<SddLiteral>> cl((size_t)r.range(0, 4));
          for (auto &x : cl)
            for (int k = r.range(1, 3); k; --k)
              x.push_back(r.chance(0.5) ? r.pick(vars) : -r.pick(vars));
          PsddNode *y = CNF(cl).Compile(w->m, flag);
          if (y) hold(h.w, y, true, true);
          break;
        }
        case 17: {
          name = "data";
          BinaryData d;
          int cols = r.range(1, 12);
          d.set_variable_size((uint32_t)cols);
          for (int k = r.range(1, 10); k; --k) {
            Bits b;
            for (int v = 1; v <= cols; ++v)
              if (r.chance(0.5)) b.set((size_t)v);
            d.AddRecord(b);
          }
          std::string f = c.scratch + "/d.csv";
          d.WriteFile(f.c_str());
          BinaryData e;
          e.ReadFile(f.c_str());
          ask(name, e.CalculateEntropy());
          ask(name, (double)e.data_size());
          break;
        }
        case 18: {
          name = "cleanup";
          std::vector<Root> left;
          std::vector<PsddNode *> roots;
          double p = r.pick(std::vector<double>{0, 0.3, 0.6, 1});
          for (auto &k : held) {
            if (k.w == h.w && r.chance(p)) continue;
            left.push_back(k);
            if (k.w == h.w) roots.push_back(k.x);
          }
          if (!roots.empty() && r.chance(0.3)) roots.push_back(r.pick(roots));
          held = left;
          w->m->DeleteUnusedPsddNodes(roots);
          break;
        }
        case 19: {
          name = "destroy";
          if (!ws[1 - h.w] || !r.chance(0.3)) break;
          std::vector<Root> left;
          for (auto &k : held)
            if (k.w != h.w) left.push_back(k);
          held = left;
          ws[h.w].reset();
          break;
        }
        case 20: {
          name = "draw";
          if (!h.normalised) break;
          RandomDoubleFromUniformGenerator g(0, 1, (uint)r.u64());
          for (int k = 0; k < 3; ++k) {
            Bits in, mask;
            h.x->DirectSample(&in, &g);
            for (int v : vars) mask.set((size_t)v);
            double p = psdd_node_util::Evaluate(mask, in, h.x).parameter();
            ask("draw-is-possible", p > -1e300 ? 1 : 0);
          }
          break;
        }
        default: {
          name = "listing";
          std::vector<PsddNode *> in;
          for (auto &k : held)
            if (r.chance(0.5)) in.push_back(k.x);
          ask(name, (double)psdd_node_util::SerializePsddNodes(in).size());
          ask(name, (double)psdd_node_util::GetCoveredPsddNodes(in).size());
          break;
        }
      }
      t->script += std::string(t->script.empty() ? "" : " ") + name;
      t->id = mix(t->id, (uint64_t)op);
      // bounded work
      while (held.size() > 14) held.erase(held.begin());
    }
    if (r.chance(0.5)) ws[0].reset();
    else ws[1].reset();
  }
  c.rng = keep;
}

static bool same(double a, double b) {
  if (a == b) return true;
  return std::fabs(a - b) <= 1e-7 * (1 + std::fabs(a));
}

void run_case(Case &c) {
  uint64_t seed = c.rng.u64();
  int rounds = memcheck() ? 1 : 4;
  std::unique_ptr<Trace> first;
  std::vector<size_t> live;
  live.reserve(8);
  for (int k = 0; k < rounds; ++k) {
    {
      std::unique_ptr<Trace> t(new Trace);
      history(c, seed, t.get());
      if (!first) {
        first = std::move(t);
      } else {
        std::string what = S("history ", first->script);
        c.check(t->script == first->script && t->answers.size() == first->answers.size(),
                "repeat-shape", what);
        for (size_t i = 0; i < t->answers.size(); ++i)
          c.check(same(t->answers[i].second, first->answers[i].second), "repeat",
                  S("answer ", i, " (", first->answers[i].first, ") was ",
                    first->answers[i].second, " and is ", t->answers[i].second,
                    " when the same history runs again; ", what));
        c.count("answers_repeated", t->answers.size());
      }
    }
    live.push_back(live_bytes());
  }
  if (rounds == 4)
    c.check(!(live[2] > live[1] && live[3] > live[2]), "leak",
            S("live bytes ", live[0], " ", live[1], " ", live[2], " ", live[3],
              " after the rounds of ", first->script));
  c.count(memcheck() ? "memcheck_histories" : "sanitized_histories", (uint64_t)rounds);
  std::istringstream is(first->script);
  std::string op;
  while (is >> op) c.count(op.c_str());
  c.sample(first->script.substr(0, 300));
  if (first->created >= 5) c.nontrivial(first->id);
}
}  // namespace vh
