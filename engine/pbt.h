// Minimal property-based-testing engine: choice tape, forked execution, shrinking, replay.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <initializer_list>
#include <map>
#include <string>
#include <vector>

namespace pbt {

struct Fail { std::string kind, msg; };
struct Discard {};

// splitmix64, the only source of randomness
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};

class G {
 public:
  // uniform in [0, n); every call is one tape entry, 0 is the simplest value
  uint64_t draw(uint64_t n);
  // uniform inclusive, shrinks towards lo
  int64_t range(int64_t lo, int64_t hi) { return hi <= lo ? (draw(1), lo) : lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
  // uniform inclusive, shrinks towards origin
  int64_t around(int64_t lo, int64_t hi, int64_t origin);
  // inclusive, biased to small values but reaching hi
  int64_t small(int64_t lo, int64_t hi);
  bool chance(int percent) { return (int)draw(100) >= 100 - percent; }
  size_t weighted(std::initializer_list<int> w);
  template <class T> T pick(std::initializer_list<T> l) { return l.begin()[draw(l.size())]; }
  template <class T> const T& pickv(const std::vector<T>& l) { return l[draw(l.size())]; }
  uint64_t seed() { return draw(0x7fffffffffffffffull); }

  void label(const char* l) { labels_[l]++; }
  void label(const std::string& l) { labels_[l]++; }
  void nontrivial() { nontrivial_ = true; }
  // extra evaluations made inside this case (sub-calls of the code under test)
  void evals(int n) { evals_ += n; }
  bool verbose() const { return verbose_; }
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
  [[noreturn]] void discard() { throw Discard(); }

  // internals
  bool replay_ = false, verbose_ = false, nontrivial_ = false;
  Rng rng_{0};
  std::vector<uint64_t> tape_;   // replayed choices
  size_t pos_ = 0;
  std::vector<uint64_t> used_;   // choices actually made
  std::map<std::string, uint64_t> labels_;
  uint64_t evals_ = 0;
  std::string notes_;
};

typedef void (*PropFn)(G&);
struct Sub { const char* name; int weight; PropFn fn; };
std::vector<Sub>& subs();
struct Reg { Reg(const char* n, int w, PropFn f) { subs().push_back({n, w, f}); } };
#define PBT_SUB(name, weight, fn) static pbt::Reg reg_##fn(name, weight, fn)

extern const char* g_rule;  // "what makes a case non-trivial", defined by the property
}  // namespace pbt
