// Log-domain numbers.
#include "ops.h"
using namespace vh;
namespace vh {
const char *const kProperty = "C17";
const char *const kRule =
    "random log-domain numbers (ordinary, near-equal, huge and tiny exponents, zeros) put "
    "through random expression sequences of + * / and their compound forms, aliased and "
    "chained, against long-double arithmetic; order, equality and hashes of every pair; "
    "non-trivial = finite operands, distinct by operands";
int num_cases(bool t) { return t ? 60000 : 6000; }
static double rnd(Rng &r) {
  switch (r.below(9)) {
    case 0: return -std::numeric_limits<double>::infinity();
    case 1: return 0;
    case 2: return -r.real() * 1e-7;
    case 3: return -1e6 * r.real();
    case 4: return 700 * (r.real() - 0.3);
    case 5: return -std::log(1.0 + (double)r.below(20));
    case 6: return std::log(r.real());
    case 7: return -40 * r.real();
    default: return -3 * r.real();
  }
}
static LD plus(LD a, LD b) { return lse(a, b); }
static bool near(LD got, LD want) {
  if (want == NEG_INF() || got == NEG_INF()) return want == got;
  return fabsl(got - want) <= 1e-13L + 4e-15L * fabsl(want);
}
void run_case(Case &c) {
  Rng &r = c.rng;
  typedef PsddParameter P;
  c.check(P().parameter() == (double)NEG_INF(), "default", "the default is not zero");
  for (int round = 0; round < 20; ++round) {
    double a = rnd(r), b = rnd(r), d = rnd(r);
    if (r.chance(0.1)) b = a;
    if (r.chance(0.1)) b = a + 1e-5 * (r.real() - 0.5);
    P A = P::CreateFromLog(a), B = P::CreateFromLog(b), D = P::CreateFromLog(d);
    std::string what = S("log a=", a, " log b=", b, " log d=", d);
    c.sample(what);
    c.check(A.parameter() == a, "log", what);
    double dec = std::exp(a);
    c.check(dec < 1e-290 || near(P::CreateFromDecimal(dec).parameter(), logl(dec)), "decimal",
            what);
    c.check(near((A + B).parameter(), plus(a, b)), "sum",
            S("a+b gives ", (A + B).parameter(), ", expected ", (double)plus(a, b), "; ", what));
    c.check((A + B).parameter() == (B + A).parameter(), "sum-commutes", what);
    LD prod = std::isinf(a) || std::isinf(b) ? NEG_INF() : (LD)a + b;
    c.check(near((A * B).parameter(), prod), "product",
            S("a*b gives ", (A * B).parameter(), ", expected ", (double)prod, "; ", what));
    if (!std::isinf(b)) {
      LD q = std::isinf(a) ? NEG_INF() : (LD)a - b;
      c.check(near((A / B).parameter(), q), "quotient",
              S("a/b gives ", (A / B).parameter(), ", expected ", (double)q, "; ", what));
    }
    // compound forms agree with the plain ones, in value, order and hash
    auto same = [&](const P &x, const P &y, const char *key) {
      c.check(near(x.parameter(), y.parameter()) && x == y && !(x != y) && !(x < y) &&
                  !(x > y) && x.hash_value() == y.hash_value(),
              key,
              S(x.parameter(), " vs ", y.parameter(), " (equal: ", x == y, ", hashes ",
                x.hash_value(), " ", y.hash_value(), "); ", what));
    };
    P x = A;
    x += B;
    same(x, A + B, "compound-sum");
    x = A;
    x *= B;
    same(x, A * B, "compound-product");
    if (!std::isinf(b)) {
      x = A;
      x /= B;
      same(x, A / B, "compound-quotient");
      x = A;
      (x /= B) *= D;
      same(x, (A / B) * D, "chained");
    }
    x = A;
    x += x;
    same(x, A + A, "aliased-sum");
    x = A;
    x *= x;
    same(x, A * A, "aliased-product");
    if (!std::isinf(a)) {
      x = A;
      x /= x;
      same(x, P::CreateFromDecimal(1), "aliased-quotient");
    }
    x = A;
    (x += B) += D;
    same(x, (A + B) + D, "chained");
    x = A;
    P &ref = (x *= B);
    c.check(&ref == &x, "compound-reference", "the compound form does not return its operand");
    // identities
    P zero = P::CreateFromDecimal(0), one = P::CreateFromDecimal(1);
    same(A + zero, A, "zero-sum");
    same(zero + A, A, "zero-sum");
    same(A * one, A, "one-product");
    same(A / one, A, "one-quotient");
    c.check((A * zero).parameter() == (double)NEG_INF(), "zero-product", what);
    same(P(), zero, "default");
    // comparison: a total order up to a fixed resolution
    int lt = A < B, gt = A > B, eq = A == B;
    c.check(lt + gt + eq == 1, "trichotomy", what);
    c.check((A != B) == !eq, "not-equal", what);
    c.check((B < A) == (gt != 0) && (B > A) == (lt != 0) && (B == A) == (eq != 0), "antisymmetry",
            what);
    if (a == b) c.check(eq, "equal", what);
    if (eq) {
      c.check(A.hash_value() == B.hash_value(), "hash", what);
      c.check(a == b || std::fabs(a - b) < 5e-7, "resolution",
              S("numbers ", a, " and ", b, " compare equal"));
    }
    if (std::fabs(a - b) > 5e-7 || (std::isinf(a) != std::isinf(b)))
      c.check((a < b) == (lt != 0), "order", what);
    c.check(!(A < A) && !(A > A) && A == A && !(A != A), "reflexive", what);
    if (!std::isinf(a) && !std::isinf(b))
      c.nontrivial(mix(hash_str(S(a)), hash_str(S(b))));
  }
  // a long sum, as accumulated over elements and data
  int k = r.range(2, 200);
  LD want = NEG_INF();
  PsddParameter acc = PsddParameter::CreateFromDecimal(0);
  for (int i = 0; i < k; ++i) {
    double v = rnd(r);
    want = plus(want, v);
    if (r.chance(0.5))
      acc += PsddParameter::CreateFromLog(v);
    else
      acc = acc + PsddParameter::CreateFromLog(v);
  }
  c.check(close(acc.parameter(), want, 1e-9 + 1e-12 * (double)fabsl(want)) ||
              (want == NEG_INF() && std::isinf(acc.parameter())),
          "long-sum", S(acc.parameter(), ", expected ", (double)want));
  c.check(acc == PsddParameter::CreateFromLog(acc.parameter()), "stale-equality",
          "a number differs from itself rebuilt from its value");
  c.count("expressions", 20 * 25);
}
}  // namespace vh
