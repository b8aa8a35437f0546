// Shared harness runtime: seeded workload generation, guard-page buffers,
// violation recording, coverage accounting.
#ifndef VERIF_VH_H_
#define VERIF_VH_H_
#include <stdarg.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {
typedef std::vector<uint8_t> Bytes;

uint64_t Mix(uint64_t x);
uint64_t HashBytes(const void* p, size_t n, uint64_t h = 0x9e3779b97f4a7c15ULL);
inline uint64_t Hash(const std::string& s) { return HashBytes(s.data(), s.size()); }
std::string Hex(const uint8_t* p, size_t n, size_t max = 48);
inline std::string Hex(const Bytes& b, size_t max = 48) { return Hex(b.data(), b.size(), max); }
std::string Fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// Constants found in the code under test (by the build); they only steer what
// is generated.
struct CodeConstants { std::vector<uint64_t> numbers; std::vector<std::string> texts; };
CodeConstants& Constants();
// The sizes up to max that those constants suggest.
std::vector<size_t> CodeSizes(size_t max);

class Rng {
 public:
  explicit Rng(uint64_t seed) : s_(Mix(seed + 0x1234567)) {}
  // Choices read from a tape (little-endian, as few bytes as the range needs),
  // so that a coverage-guided mutator of the tape steers the workload.
  Rng(const uint8_t* tape, size_t n) : s_(HashBytes(tape, n < 8 ? n : 8)), tape_(tape), left_(n) {}
  bool tape() const { return tape_ != nullptr; }
  // The tape is used up.
  bool Dry() const { return left_ == 0; }
  uint64_t U64() {
    if (left_) return Take(8);
    s_ += 0x9e3779b97f4a7c15ULL;
    return Mix(s_);
  }
  uint64_t Below(uint64_t n) {
    uint64_t c;
    if (n > 64 && FromCode(n - 1, 16, &c)) return c;
    return Plain(n);
  }
  uint64_t Plain(uint64_t n) {
    if (left_) return n < 2 ? 0 : Take(n <= 256 ? 1 : n <= 65536 ? 2 : n <= (uint64_t{1} << 32) ? 4 : 8) % n;
    return n ? U64() % n : 0;
  }
  uint64_t Range(uint64_t lo, uint64_t hi) { return lo + Below(hi - lo + 1); }
  bool Chance(unsigned num, unsigned den) { return Plain(den) < num; }
  // A number with the given count of top bits zero.
  uint64_t Number(unsigned zero_bits = 0) { uint64_t c; return FromCode(~uint64_t{0} >> zero_bits, 4, &c) ? c : U64() >> (zero_bits + Plain(64 - zero_bits)); }
  // Once in `one_in`: a constant of the code under test that is at most max, or a number near one.
  bool FromCode(uint64_t max, unsigned one_in, uint64_t* v);
  // How often to repeat something: a constant of the code or so, at most max.
  size_t Repeats(size_t max) { uint64_t c; return FromCode(max, 1, &c) ? c : Plain(max + 1); }
  // One of the short texts in the code; empty if there is none.
  std::string CodeText();
  Bytes Data(size_t n);
  // Data, now and then one short pattern over and over.
  Bytes Content(size_t n);
  // A key or secret, never equal to the last one of that size; often next to
  // equal, so that anything that confuses two keys sharing most bytes shows.
  Bytes Key(size_t n);
  // A length biased to block, tag and record boundaries.
  size_t Len(size_t max);
  // Splits n into pieces (some of them empty).
  std::vector<size_t> Split(size_t n, size_t max_pieces, bool allow_empty = true);
 private:
  uint64_t Take(size_t k) {
    uint64_t v = 0;
    for (size_t i = 0; i < k && left_; i++, left_--) v |= uint64_t{*tape_++} << (8 * i);
    return v;
  }
  uint64_t s_;
  const uint8_t* tape_ = nullptr;
  size_t left_ = 0;
  std::map<size_t, Bytes> last_key_;
};

// A buffer flush against an inaccessible page, so that an access one byte
// outside it faults even from code that no sanitizer instrumented (the SSL
// library).  right: the end is flush; else the start is.  The slack on the
// other side carries a canary.
class Guard {
 public:
  explicit Guard(size_t n, bool right = true);
  explicit Guard(const Bytes& b, bool right = true);
  ~Guard();
  Guard(Guard&& o);
  Guard(const Guard&) = delete;
  Guard& operator=(const Guard&) = delete;
  uint8_t* data() const { return p_; }
  size_t size() const { return n_; }
  void Fill(uint8_t v);
  Bytes Get() const { return Bytes(p_, p_ + n_); }
  bool CanaryOk() const;
 private:
  void Alloc(size_t n, bool right);
  uint8_t* base_;
  size_t pages_;
  uint8_t* p_;
  size_t n_;
};

void* HugeOutput(size_t len);  // or MAP_FAILED; munmap it

class Run {
 public:
  Run(int argc, char** argv);
  const std::string& property() const { return property_; }
  bool thorough() const { return tier_ == "thorough"; }
  uint64_t seed() const { return seed_; }
  // A workload size: quick, or thorough when asked for.
  size_t N(size_t quick, size_t thorough_n) const { size_t n = thorough() ? thorough_n : quick; return scale_ > 1 ? (n + scale_ - 1) / scale_ : n; }
  std::string Arg(const std::string& name, const std::string& dflt = "") const;

  size_t scale() const { return scale_; }

  // Past 16-bit counters where the build is fast enough, else n.
  size_t Many(size_t n) const {
    if (scale_ > 1) return n / scale_ + 20;
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
    return thorough() && round_ == 0 ? 66000 : n;
#endif
#endif
    return round_ == 0 ? 66000 : n;
  }

  // Starts a case.  The label is what a crash report names.
  void Begin(const char* f, ...) __attribute__((format(printf, 2, 3)));
  // The current case is non-trivial; sig tells it from the others.
  void Nontrivial(uint64_t sig) { distinct_.insert(sig); }
  void Nontrivial(const std::string& sig) { distinct_.insert(Hash(sig)); }
  void Count(const std::string& name, uint64_t n = 1) { counts_[name] += n; }
  void Sample(const std::string& s) { if (samples_.size() >= 6) return; for (auto& x : samples_) if (x == s) return; samples_.push_back(s); }
  void Rule(const std::string& r) { rule_ = r; }
  // key identifies the kind of violation (for the known-findings file).
  bool Check(bool ok, const char* key, const char* f, ...) __attribute__((format(printf, 4, 5)));
  bool failed() const { return !violations_.empty(); }
  bool TooMany() const { return violations_.size() >= 12; }
  int Finish();
  // Further rounds of the same workload with other seeds; 0 is the seed given.
  size_t Rounds() const { return strtoull(Arg("rounds", "1").c_str(), nullptr, 10); }
  void Round(size_t r) { seed_ = first_seed_ + 1000003 * r; round_ = r; }
  size_t round() const { return round_; }
  // What precedes every label from now on.
  void Prefix(const std::string& p) { prefix_ = p; Begin("start"); }

 private:
  std::string property_, tier_ = "quick", out_;
  uint64_t seed_ = 1, first_seed_ = 1;
  size_t round_ = 0, scale_ = 1;  // under slow instrumentation, workloads are scale_ times smaller
  std::map<std::string, std::string> args_;
  char* progress_ = nullptr;
  std::string label_, prefix_;
  uint64_t evaluations_ = 0;
  std::unordered_set<uint64_t> distinct_;
  std::map<std::string, uint64_t> counts_;
  std::vector<std::string> samples_, auto_;
  std::string rule_;
  struct V { std::string key, label, msg; };
  std::vector<V> violations_;
  std::map<std::string, int> per_key_;
};
}  // namespace vh
// The cases of a workload; a single one when rng is a tape.
#define CASES(c, quick, thorough_n)                                                                                        \
  for (size_t c = rng.tape() ? rng.Plain(64) : 0, c##_end = rng.tape() ? c + 1 : run.N(quick, thorough_n);                 \
       c < c##_end && !run.TooMany(); c++)
// Each harness defines its workloads; 3 means the property is not one of its own.
int Workload(vh::Run& run);
// One case whose choices come from the tape; a harness without one has no
// coverage-guided workload.
void TapeCase(vh::Run& run, vh::Rng& rng) __attribute__((weak));
#endif
