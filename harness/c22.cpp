// Data sets: CSV files, sparse JSON files, records, entropy.
#include "ops.h"
#include <fstream>
#include <psdd/binary_data.h>
using namespace vh;
namespace vh {
const char *const kProperty = "C22";
const char *const kRule =
    "random data sets (1-40 columns, some 300 and 65535; up to 200 rows, many repeats) given "
    "as CSV text in varied spellings, as sparse JSON with invalid examples mixed in, and "
    "record by record; reading, re-reading, writing and entropy against an own multiset of "
    "rows; unreadable files in a child process; non-trivial = at least two distinct rows, "
    "distinct by content";
int num_cases(bool t) { return t ? 60000 : 3000; }

typedef std::vector<int> Row;  // true columns, 1-based, ascending
typedef std::map<Row, uintmax_t> Bag;

static Row row_of(const Bits &b) {
  Row r;
  for (size_t i = b._Find_first(); i < b.size(); i = b._Find_next(i)) r.push_back((int)i);
  return r;
}
static Bag bag_of(const BinaryData &d, uintmax_t *total) {
  Bag b;
  *total = 0;
  for (auto &p : d.data()) {
    b[row_of(p.first)] += p.second;
    *total += p.second;
  }
  return b;
}
static std::string str(const Bag &b) {
  std::string s;
  for (auto &p : b) {
    s += "{";
    for (int v : p.first) s += S(v, " ");
    s += S("}x", p.second, " ");
    if (s.size() > 400) return s + "...";
  }
  return s;
}
static void same(Case &c, const BinaryData &d, const Bag &want, uint32_t vars, const char *key,
                 const std::string &what) {
  uintmax_t total = 0, wt = 0;
  Bag got = bag_of(d, &total);
  for (auto &p : want) wt += p.second;
  c.check(got == want, key, S("records ", str(got), ", expected ", str(want), "; ", what));
  c.check(d.data_size() == wt && total == wt, key,
          S("size ", d.data_size(), ", records ", total, ", expected ", wt, "; ", what));
  c.check(d.variable_size() == vars, key,
          S(d.variable_size(), " variables, expected ", vars, "; ", what));
}
static std::string cell(Rng &r, bool one, int spelling) {
  if (spelling == 0) return one ? "1" : "0";
  static const char *t[] = {"1", "1", "\"1\"", "-1", "2", "01", " 1", "1.5", "+7"};
  static const char *f[] = {"0", "0", "\"0\"", "", "00", " 0", "0.9", "x", "\"\"", "-0"};
  return one ? t[r.below(9)] : f[r.below(10)];
}

void run_case(Case &c) {
  Rng &r = c.rng;
  int n = r.range(1, 12);
  if (r.chance(0.15)) n = r.range(13, 140);
  if (c.index % 100 == 3) n = 300;
  if (c.index % 500 == 4) n = MAX_VAR - 1;
  int rows = n > 1000 ? r.range(1, 3) : n > 100 ? r.range(1, 20) : r.range(1, 60);
  if (n <= 12 && r.chance(0.05)) rows = 200;
  std::vector<Row> pool, seq;
  int kinds = r.range(1, 8);
  if (c.index % (c.thorough ? 3000 : 1000) == 321) {  // repetition counts beyond 16 bits
    n = r.range(1, 3);
    rows = r.range(67000, 140000);
    kinds = r.range(1, 2);
    c.count("mass_repetitions");
  }
  for (int i = 0; i < kinds; ++i) {
    Row x;
    double d = r.pick(std::vector<double>{0.0, 0.1, 0.5, 0.9, 1.0});
    for (int v = 1; v <= n; ++v)
      if (r.chance(d)) x.push_back(v);
    pool.push_back(x);
  }
  Bag want;
  for (int i = 0; i < rows; ++i) {
    seq.push_back(r.pick(pool));
    ++want[seq.back()];
  }
  std::string what = S(n, " columns, ", rows, " rows");
  int spelling = (int)r.below(2);
  auto csv_of = [&](const std::vector<Row> &rs, int cols) {
    std::string s;
    const char *nl = r.chance(0.3) ? "\r\n" : "\n";
    for (size_t i = 0; i < rs.size(); ++i) {
      std::vector<bool> on((size_t)cols + 1);
      for (int v : rs[i]) on[(size_t)v] = true;
      for (int v = 1; v <= cols; ++v) {
        // a row that is one empty cell would be an empty line
        std::string x = cell(r, on[(size_t)v], cols == 1 ? 0 : spelling);
        if (v == 1 && x.empty()) x = "0";
        s += x;
        if (v < cols) s += ",";
      }
      bool last = i + 1 == rs.size();
      std::string tail = s.substr(s.size() - 1);
      if (!last || r.chance(0.7) || tail == "," || tail == "\"") s += nl;
    }
    return s;
  };

  // fresh object
  {
    BinaryData d;
    c.check(d.data_size() == 0 && d.variable_size() == 0 && d.data().empty(), "fresh",
            S("a new data set has size ", d.data_size(), ", ", d.variable_size(),
              " variables, ", d.data().size(), " records"));
  }
  // CSV
  BinaryData d;
  if (r.chance(0.3)) {  // earlier content must not survive
    Bits b;
    b.set(1 + r.below(40));
    d.AddRecord(b);
    d.set_variable_size(41);
  } else if (r.chance(0.3)) {
    std::vector<Row> other{{1}, {}};
    d.ReadFile(write_tmp(c, "o.csv", csv_of(other, n)).c_str());
    c.count("reread_other");
  }
  std::string text = csv_of(seq, n);
  std::string f = write_tmp(c, "d.csv", text);
  c.sample(S("csv: ", text.substr(0, 100)));
  d.ReadFile(f.c_str());
  same(c, d, want, (uint32_t)n, "read-csv", what);
  if (r.chance(0.5)) {
    d.ReadFile(f.c_str());
    same(c, d, want, (uint32_t)n, "read-twice", what);
    c.count("reread_same");
  }
  // written and read again
  std::string g = c.scratch + "/w.csv";
  d.WriteFile(g.c_str());
  {
    std::string t = read_all(g);
    size_t lines = 0, bad = 0;
    std::istringstream is(t);
    std::string line;
    while (std::getline(is, line)) {
      ++lines;
      if ((int)line.size() != 2 * n - 1) ++bad;
      for (size_t i = 0; i < line.size(); ++i)
        if (i % 2 ? line[i] != ',' : (line[i] != '0' && line[i] != '1')) ++bad;
    }
    c.check(lines == (size_t)rows && bad == 0, "written",
            S("wrote ", lines, " lines, ", bad, " malformed; ", what));
  }
  BinaryData e;
  e.ReadFile(g.c_str());
  same(c, e, want, (uint32_t)n, "roundtrip", what);

  // records one by one
  BinaryData a;
  for (auto &x : seq) {
    Bits b;
    for (int v : x) b.set((size_t)v);
    a.AddRecord(b);
  }
  a.set_variable_size((uint32_t)n);
  same(c, a, want, (uint32_t)n, "add", what);
  // entropy
  LD ent = 0;
  for (auto &p : want)
    ent += (LD)p.second * (logl((LD)p.second) - logl((LD)rows)) / (LD)rows;
  for (const BinaryData *x : {(const BinaryData *)&d, (const BinaryData *)&a})
    c.check(fabsl(x->CalculateEntropy() - ent) < 1e-9L, "entropy",
            S("got ", x->CalculateEntropy(), ", expected ", (double)ent, "; ", what));

  // sparse JSON
  if (n <= 300) {
    std::string j = "[";
    int invalid = 0;
    for (size_t i = 0; i < seq.size(); ++i) {
      auto put = [&](const std::string &s) { j += (j.size() > 1 ? ", " : "") + s; };
      if (r.chance(0.1)) {
        ++invalid;
        switch (r.below(6)) {
          case 0: put(S("[", n + 1, "]")); break;
          case 1: put("[0]"); break;
          case 2: put("[-1, 1]"); break;
          case 3: put("[\"1\"]"); break;
          case 4: put("7"); break;
          default: put("[1, null]"); break;
        }
      }
      Row x = seq[i];
      r.shuffle(x);
      std::string s = "[";
      for (int v : x) s += (s.size() > 1 ? "," : "") + std::to_string(v);
      if (!x.empty() && r.chance(0.1)) s += S(",", x[0]);  // mentioned twice
      put(s + "]");
    }
    j += "]";
    std::string vs = S("\"variable_size\": ", n), dt = "\"data\": " + j;
    std::string doc = r.chance(0.5) ? "{" + vs + ", " + dt + "}"
                                    : "{\"comment\": 1,\n" + dt + ",\n" + vs + "}\n";
    std::unique_ptr<BinaryData> p(
        BinaryData::ReadSparseDataJsonFile(write_tmp(c, "d.json", doc).c_str()));
    c.check(p != nullptr, "json", "no data set; " + doc.substr(0, 500));
    same(c, *p, want, (uint32_t)n, "json", doc.substr(0, 500));
    c.count("json_invalid_examples", (uint64_t)invalid);
    std::string half = r.chance(0.5) ? "{" + vs + "}" : "{" + dt + "}";
    std::unique_ptr<BinaryData> q(
        BinaryData::ReadSparseDataJsonFile(write_tmp(c, "h.json", half).c_str()));
    c.check(q == nullptr, "json-field", "a data set from " + half.substr(0, 300));
  }
  // files that cannot be read
  if (c.index % 40 == 1) {
    std::string err;
    int how = (int)r.below(2);
    int st = in_child(
        [&] {
          BinaryData b;
          if (how == 0)
            b.ReadFile((c.scratch + "/none.csv").c_str());
          else
            b.ReadFile((c.scratch + "/none/d.csv").c_str());
        },
        10, &err);
    c.check(WIFEXITED(st) && WEXITSTATUS(st) == 1 && !sanitizer_report(err), "missing-file",
            S("reading a missing file ends with ", status_str(st), "; ", err.substr(0, 300)));
    c.count("missing_files");
  }
  c.count("rows", (uint64_t)rows);
  if (want.size() > 1) {
    uint64_t h = (uint64_t)n;
    for (auto &p : want) {
      h = mix(h, p.second);
      for (int v : p.first) h = mix(h, (uint64_t)v);
    }
    c.nontrivial(h);
  }
}
}  // namespace vh
