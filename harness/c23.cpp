// CSV tokeniser.
#include "ops.h"
#include <psdd/csvparser.h>
using namespace vh;
namespace vh {
const char *const kProperty = "C23";
const char *const kRule =
    "random tables (1-200 columns, fields from empty to 3000 characters; some rows, fields and tables of up to 130000, fields of millions, quotes, delimiters, "
    "line breaks, high bytes inside quoted fields) rendered as CSV with random quoting, line "
    "ends and delimiter, tokenised from a string and from a file, with and without header; "
    "plus random byte strings that need not be well formed (memory safety, termination, "
    "string = file); non-trivial = at least two fields, distinct by text";
int num_cases(bool t) { return t ? 2000000 : 80000; }
typedef std::vector<std::string> Fields;

static Fields of(const CsvRow *row) {
  Fields f;
  const char **p = CsvParser_getFields(row);
  for (int i = 0; i < CsvParser_getNumFields(row); ++i) f.push_back(p[i]);
  return f;
}
static std::string show(const std::string &s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '\n') o += "\\n";
    else if (ch == '\r') o += "\\r";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); o += b; }
    else o += (char)ch;
    if (o.size() > 300) return o + "...";
  }
  return o;
}
static std::string show(const std::vector<Fields> &t) {
  std::string s;
  for (auto &r : t) {
    for (auto &f : r) s += "<" + show(f) + ">";
    s += " / ";
    if (s.size() > 500) return s + "...";
  }
  return s;
}
struct Read {
  std::vector<Fields> rows;
  Fields header;
  bool had_header = false;
  std::string err;
};
static CsvParser *open(const std::string &text, const std::string &path, const char *delim,
                       bool header, bool from_file, bool gone = false) {
  if (gone) {  // what the caller passed is changed and freed right afterwards
    std::string &given = *new std::string(from_file ? path : text);
    given.reserve(given.size() + 64);
    char *d = strdup(delim);
    CsvParser *p = from_file ? CsvParser_new(given.c_str(), d, header)
                             : CsvParser_new_from_string(given.c_str(), d, header);
    for (char &ch : given) ch = '7';
    delete &given;
    memset(d, '7', strlen(d));
    free(d);
    return p;
  }
  return from_file ? CsvParser_new(path.c_str(), delim, header)
                   : CsvParser_new_from_string(text.c_str(), delim, header);
}
static Read all(Case &c, CsvParser *p, bool header, size_t limit) {
  Read o;
  int when = header ? (int)c.rng.below(3) : 2;  // ask for the header first / later / never
  if (when == 0) {
    const CsvRow *h = CsvParser_getHeader(p);
    if (h) o.header = of(h), o.had_header = true;
  }
  CsvRow *row;
  while ((row = CsvParser_getRow(p))) {
    o.rows.push_back(of(row));
    CsvParser_destroy_row(row);
    c.check(o.rows.size() <= limit, "endless", "more rows than characters");
  }
  for (int i = 0; i < 3; ++i)
    c.check(CsvParser_getRow(p) == nullptr, "after-end", "a row after the end of the input");
  const char *e = CsvParser_getErrorMessage(p);
  o.err = e ? e : "";
  if (header && when) {
    const CsvRow *h = CsvParser_getHeader(p);
    if (h) {
      o.header = of(h), o.had_header = true;
      c.check(CsvParser_getHeader(p) == h, "header-stable", "the header changes");
    }
  }
  if (!header)
    c.check(CsvParser_getHeader(p) == nullptr && CsvParser_getErrorMessage(p), "no-header",
            "a header although none was declared");
  return o;
}

// one of: a very long field, a row of very many fields, very many rows
static void huge_case(Case &c) {
  Rng &r = c.rng;
  static const size_t round[] = {1000, 4096, 10000, 32768, 65536, 65536, 100000, 131072};
  int what = (int)(c.index / 8000 % 3);
  size_t size = r.pick(std::vector<size_t>(round + (what == 0 ? 3 : 0), round + 8)) * (what == 0 && c.index % 48000 == 7 ? 33 : 1) +
                r.below(5) - 2;
  bool header = r.chance(0.3), quoted = r.chance(0.5);
  std::vector<Fields> want;
  std::string text;
  auto put = [&](const std::string &v) {
    std::string e;
    for (char ch : v) e += ch == '"' ? "\"\"" : std::string(1, ch);
    text += quoted ? "\"" + e + "\"" : e;
  };
  auto word = [&](size_t len) {
    std::string v;
    for (size_t i = 0; i < len; ++i) v += quoted && i % 97 == 13 ? "\",\n"[i % 3] : (char)('a' + (i * 7 + len) % 26);
    return v;
  };
  size_t rows = what == 2 ? size : 3, cols = what == 1 ? size : 3;
  for (size_t i = 0; i < rows; ++i) {
    Fields f;
    for (size_t j = 0; j < cols; ++j) {
      f.push_back(word(what == 0 && i == 1 && j == 1 ? size : (i * 3 + j) % 4 + (j == 0)));
      put(f.back());
      if (j + 1 < cols) text += ',';
    }
    text += '\n';
    want.push_back(f);
  }
  c.sample(S(rows, " rows of ", cols, " fields, ", text.size(), " characters"));
  std::string path = write_tmp(c, "t.csv", text);
  Fields h;
  if (header) h = want[0], want.erase(want.begin());
  for (int k = 0; k < 2; ++k) {
    CsvParser *p = open(text, path, ",", header, k == 1);
    Read got = all(c, p, header, text.size() + 2);
    CsvParser_destroy(p);
    c.check(got.rows.size() == want.size(), "rows",
            S(got.rows.size(), " rows, expected ", want.size()));
    for (size_t i = 0; i < want.size(); ++i) {
      c.check(got.rows[i].size() == want[i].size(), "fields",
              S("row ", i, " has ", got.rows[i].size(), " fields, expected ", want[i].size()));
      for (size_t j = 0; j < want[i].size(); ++j)
        c.check(got.rows[i][j] == want[i][j], "fields",
                S("row ", i, " field ", j, " of ", want[i][j].size(), " characters is ",
                  show(got.rows[i][j])));
    }
    c.check(!got.had_header || got.header == h, "header", S(show({got.header})));
  }
  c.count(what == 0 ? "long_fields" : what == 1 ? "wide_rows" : "long_tables");
  c.nontrivial(hash_str(text));
}

void run_case(Case &c) {
  Rng &r = c.rng;
  if (c.index % 50 == 0) {  // configuration errors are reported, not crashed on
    for (const char *d : {"\n", "\r", "", "\""}) {
      CsvParser *p = CsvParser_new_from_string("a,b\nc,d\n", d, (int)r.below(2));
      c.check(CsvParser_getRow(p) == nullptr && CsvParser_getErrorMessage(p) &&
                  *CsvParser_getErrorMessage(p),
              "bad-delimiter", S("delimiter ", show(d), " accepted"));
      CsvParser_destroy(p);
    }
    CsvParser *p = nullptr;
    for (size_t len : {(size_t)0, (size_t)r.range(1, 900), (size_t)r.range(900, 1100), (size_t)r.range(1100, 9000)}) {
      // file names of any length may be missing
      std::string name = c.scratch + "/none";
      while (name.size() < len + 20) name += (name.size() % 150 == 0 ? "/" : "n");
      name += ".csv";
      p = CsvParser_new(name.c_str(), ",", (int)r.below(2));
      c.check(CsvParser_getRow(p) == nullptr && CsvParser_getErrorMessage(p) &&
                  std::string(CsvParser_getErrorMessage(p)).find(name) != std::string::npos,
              "missing", "a row, or no message, from a missing file");
      CsvParser_destroy(p);
      c.count("missing_files");
    }
    for (int k = 0; k < 2; ++k) {
      p = k ? CsvParser_new(nullptr, ",", 0) : CsvParser_new_from_string(nullptr, ",", 0);
      c.check(CsvParser_getRow(p) == nullptr && CsvParser_getErrorMessage(p), "null",
              "a row from nothing");
      CsvParser_destroy(p);
    }
    p = nullptr;
    CsvParser_destroy(p);
    p = CsvParser_new_from_string("a,b\nc,d\n", nullptr, 0);  // default delimiter
    CsvRow *row = CsvParser_getRow(p);
    c.check(row && of(row) == (Fields{"a", "b"}), "default-delimiter", "not a comma");
    CsvParser_destroy_row(row);
    CsvParser_destroy(p);
  }

  if (c.index % 8000 == 7) return huge_case(c);
  bool fuzz = r.chance(0.4);
  const char *delims[] = {",", ";", "\t", "|", " ", "x", ",;"};
  const char *delim = r.chance(0.6) ? "," : delims[r.below(7)];
  char dl = delim[0];
  bool header = r.chance(0.3);
  std::string text;
  std::vector<Fields> want;
  if (fuzz) {
    size_t len = r.below(r.chance(0.1) ? 600 : 40);
    const std::string alpha = std::string("\"\"\"\n\r,") + dl + dl + "ab\xff\x80";
    for (size_t i = 0; i < len; ++i)
      text += r.chance(0.93) ? alpha[r.below(alpha.size())] : (char)r.range(1, 255);
    if (r.chance(0.1)) text += std::string((size_t)r.range(50, 300), r.chance(0.5) ? '"' : dl);
  } else {
    int rows = r.range(0, 6), cols = r.range(1, 6);
    if (r.chance(0.05)) cols = r.range(60, 200);
    bool ragged = r.chance(0.3);
    const char *nl = r.chance(0.4) ? "\r\n" : "\n";
    for (int i = 0; i < rows; ++i) {
      int k = ragged ? r.range(1, cols) : cols;
      Fields f;
      for (int j = 0; j < k; ++j) {
        size_t len = r.below(5);
        if (r.chance(0.1)) len = (size_t)r.range(55, 70);
        if (r.chance(0.03)) len = (size_t)r.range(120, 140);
        if (r.chance(0.01) && cols < 10) len = (size_t)r.range(500, 3000);
        bool quoted = r.chance(0.4);
        std::string v, enc;
        const std::string special = std::string("\"\"\n") + dl + ",;";
        for (size_t q = 0; q < len; ++q) {
          char ch = (quoted && r.chance(0.3)) ? special[r.below(special.size())]
                    : r.chance(0.05)          ? (char)r.range(128, 255)
                                              : "abyz 019_-."[r.below(11)];
          if (!quoted && ch == dl) ch = 'q';
          v += ch;
          enc += ch == '"' ? "\"\"" : std::string(1, ch);
        }
        if (quoted) enc = "\"" + enc + "\"";
        if (r.chance(0.03)) enc.insert(r.below(enc.size() + 1), "\r");  // dropped
        f.push_back(v);
        text += enc;
        if (j + 1 < k) text += dl;
      }
      // without a line end, a last row that is one empty field is no row at all
      bool last = i + 1 == rows;
      bool open_end = last && r.chance(0.4) &&
                      !(f.size() == 1 && (text.empty() || text.back() == '\n' ||
                                          text.back() == '\r'));
      want.push_back(f);
      if (!open_end) text += nl;
    }
  }
  c.sample(show(text));
  std::string path = write_tmp(c, "t.csv", text);
  size_t live = 0;
  Read got[2];
  bool gone = r.chance(0.4);
  if (gone) c.count("arguments_freed_early");
  for (int k = 0; k < 2; ++k) {
    CsvParser *p = open(text, path, delim, header, k == 1, gone);
    got[k] = all(c, p, header, text.size() + 2);
    CsvParser_destroy(p);
  }
  c.check(got[0].rows == got[1].rows && got[0].header == got[1].header &&
              got[0].had_header == got[1].had_header,
          "string-file",
          S("from the string ", show(got[0].rows), " from the file ", show(got[1].rows), " of ",
            show(text)));
  c.check(!got[0].err.empty(), "end-message", "no message at the end of the input");
  if (!fuzz) {
    std::vector<Fields> exp = want;
    Fields h;
    if (header && !exp.empty()) {
      h = exp[0];
      exp.erase(exp.begin());
    }
    c.check(got[0].rows == exp, "fields",
            S("got ", show(got[0].rows), " expected ", show(exp), " text ", show(text),
              " delimiter ", show(std::string(1, dl))));
    if (header && got[0].had_header)
      c.check(got[0].header == h && !want.empty(), "header",
              S("header ", show({got[0].header}), " expected ", show({h})));
  } else {
    size_t total = 0;
    for (auto &x : got[0].rows)
      for (auto &f : x) total += f.size();
    c.check(total <= text.size(), "invented", S("more characters than the input: ", show(text)));
    c.count("malformed_texts");
  }
  // nothing stays allocated
  if (c.index % 20 == 0) {
    auto once = [&] {
      for (int k = 0; k < 2; ++k) {
        CsvParser *p = open(text, path, delim, header, k == 1);
        if (header) CsvParser_getHeader(p);
        CsvRow *row;
        while ((row = CsvParser_getRow(p))) CsvParser_destroy_row(row);
        CsvParser_destroy(p);
      }
    };
    once();
    live = live_bytes();
    for (int i = 0; i < 4; ++i) once();
    size_t after = live_bytes();
    c.check(after <= live, "leak",
            S(after - live, " bytes stay allocated after 4 readings of ", show(text)));
  }
  size_t nf = 0;
  for (auto &x : got[0].rows) nf += x.size();
  c.count("fields", nf);
  c.count("rows", got[0].rows.size());
  if (nf > 1) c.nontrivial(mix(hash_str(text), (uint64_t)dl));
}
}  // namespace vh
