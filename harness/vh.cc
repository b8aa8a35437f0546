#include "vh.h"

#include <sched.h>

#include <fstream>
#include <thread>

#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

namespace vh {
// A writable range of |len| bytes backed by a few pages over and over: what is
// written there does not matter, and the memory is not there to spend.
void* HugeOutput(size_t len) {
  const size_t kChunk = size_t{64} << 20;
  int fd = memfd_create("vh", 0);
  if (fd < 0 || ftruncate(fd, static_cast<off_t>(kChunk)) != 0) return MAP_FAILED;
  uint8_t* base = static_cast<uint8_t*>(mmap(nullptr, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  for (size_t at = 0; base != MAP_FAILED && at < len; at += kChunk) {
    if (mmap(base + at, std::min(kChunk, len - at), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) {
      munmap(base, len);
      base = static_cast<uint8_t*>(MAP_FAILED);
    }
  }
  close(fd);
  return base;
}

uint64_t Mix(uint64_t z) {
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
uint64_t HashBytes(const void* p, size_t n, uint64_t h) {
  const uint8_t* b = static_cast<const uint8_t*>(p);
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ULL;
  return Mix(h ^ n);
}
std::string Hex(const uint8_t* p, size_t n, size_t max) {
  static const char* d = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < n && i < max; i++) { s.push_back(d[p[i] >> 4]); s.push_back(d[p[i] & 15]); }
  if (n > max) s += Fmt("...(%zu bytes)", n);
  return s;
}
std::string Fmt(const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  char* s = nullptr;
  if (vasprintf(&s, f, ap) < 0) s = nullptr;
  va_end(ap);
  std::string r = s ? s : "";
  free(s);
  return r;
}
CodeConstants& Constants() {
  static CodeConstants* c = new CodeConstants;
  return *c;
}
std::vector<size_t> CodeSizes(size_t max) {
  std::set<size_t> s;
  for (uint64_t c : Constants().numbers)
    for (int d : {-22, -21, -17, -16, -5, -4, -1, 0, 1, 4, 5, 16, 17, 21, 22}) {
      uint64_t v = c + static_cast<uint64_t>(static_cast<int64_t>(d));
      if (v <= max) s.insert(v);
    }
  return std::vector<size_t>(s.begin(), s.end());
}
bool Rng::FromCode(uint64_t max, unsigned one_in, uint64_t* v) {
  const auto& pool = Constants().numbers;
  if (pool.empty() || Plain(one_in)) return false;
  static const int kNear[] = {5, 16, 17, 21, 22, 2, 3, 4};
  uint64_t c = pool[Plain(pool.size())];
  switch (Plain(8)) {
    case 0: c++; break;
    case 1: c--; break;
    case 2: c += kNear[Plain(8)]; break;
    case 3: c -= kNear[Plain(8)]; break;
    case 4: c *= 1 + Plain(8); break;
    default: break;
  }
  *v = c;
  return c <= max;
}
std::string Rng::CodeText() {
  const auto& pool = Constants().texts;
  return pool.empty() ? "" : pool[Plain(pool.size())];
}
Bytes Rng::Data(size_t n) {
  Bytes b(n);
  size_t i = 0;
  if (left_) {
    uint64_t how = n > 4 ? Take(1) : 0;
    if (how < 40) { for (; i < n && left_; i++) b[i] = static_cast<uint8_t>(Take(1)); }
    else if (how < 56) { for (; i < n; i++) b[i] = static_cast<uint8_t>(how & 1 ? 0xff : 0); }
    Rng rest(how * 1000003 + n);
    for (; i < n; i++) b[i] = static_cast<uint8_t>(rest.U64());
    return b;
  }
  for (; i + 8 <= n; i += 8) { uint64_t v = U64(); memcpy(&b[i], &v, 8); }
  for (; i < n; i++) b[i] = static_cast<uint8_t>(U64());
  return b;
}
Bytes Rng::Content(size_t n) {
  if (n < 2 || !Chance(1, 10)) return Data(n);
  size_t period = size_t{1} << Plain(5);
  Bytes b = Data(std::min(n, period));
  while (b.size() < n) b.push_back(b[b.size() - period]);
  return b;
}
Bytes Rng::Key(size_t n) {
  Bytes& last = last_key_[n];
  if (last.size() != n || n == 0 || Chance(1, 2)) {
    Bytes fresh = Data(n);
    if (fresh != last) return last = fresh;
  }
  if (n == 0) return last;
  last[Chance(1, 4) ? n - 1 : Chance(1, 4) ? 0 : Below(n)] ^= static_cast<uint8_t>(1 << Below(8));
  return last;
}
size_t Rng::Len(size_t max) {
  size_t r;
  uint64_t c;
  if (FromCode(max, 8, &c)) return c;
  if (left_ && Take(1) < 128) return Below(max + 1);
  switch (Below(6)) {
    case 0: r = Below(20); break;
    case 1: r = 16 * Below(20) + Below(3) - 1; if (r > max) r = 0; break;
    case 2: r = (size_t{1} << Below(15)) + Below(5) - 2; if (r > (1u << 20)) r = 1; break;
    case 3: r = Below(300); break;
    case 4: r = Below(2000); break;
    default: r = Below(max + 1); break;
  }
  return r > max ? max : r;
}
std::vector<size_t> Rng::Split(size_t n, size_t max_pieces, bool allow_empty) {
  std::vector<size_t> out;
  size_t k = 1 + Below(max_pieces);
  if (n >= 16 && k > 1 && Chance(1, 12)) {
    // Pieces of one size, and what remains.
    size_t t = std::max<size_t>(16, n / k / 16 * 16);
    for (; n >= t && out.size() + 1 < k; n -= t) out.push_back(t);
    if (n > 0) out.push_back(n);
    return out;
  }
  for (size_t i = 0; i < k; i++) {
    if (i + 1 == k) { if (n > 0 || allow_empty) out.push_back(n); n = 0; break; }
    size_t t;
    switch (Below(5)) {
      case 0: t = allow_empty ? 0 : 1; break;
      case 1: t = 1 + Below(3); break;
      case 2: t = 1 + Below(20); break;
      case 3: { uint64_t c; t = FromCode(n, 2, &c) ? c : Below(n + 1); break; }
      default: t = Below(n + 1); break;
    }
    if (t > n) t = n;
    if (t == 0 && !allow_empty) continue;
    out.push_back(t);
    n -= t;
  }
  return out;
}

namespace {
const size_t kPage = 4096;
struct Pages {
  std::map<size_t, std::vector<uint8_t*>> free;
  ~Pages() { for (auto& p : free) for (uint8_t* b : p.second) munmap(b - kPage, (p.first + 2) * kPage); }
};
// Per thread; guards do not move between threads.
std::map<size_t, std::vector<uint8_t*>>& Pool() {
  static thread_local Pages p;
  return p.free;
}
const uint8_t kCanary = 0xC7;
const size_t kCanaryMax = 256;
}  // namespace
void Guard::Alloc(size_t n, bool right) {
  n_ = n;
  pages_ = (n + kPage - 1) / kPage;
  if (pages_ == 0) pages_ = 1;
  auto& pool = Pool()[pages_];
  if (!pool.empty()) {
    base_ = pool.back();
    pool.pop_back();
  } else {
    void* m = mmap(nullptr, (pages_ + 2) * kPage, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) { perror("mmap"); _exit(3); }
    base_ = static_cast<uint8_t*>(m) + kPage;
    if (mprotect(base_, pages_ * kPage, PROT_READ | PROT_WRITE)) { perror("mprotect"); _exit(3); }
  }
  size_t slack = pages_ * kPage - n;
  size_t c = slack < kCanaryMax ? slack : kCanaryMax;
  if (right) { p_ = base_ + slack; memset(p_ - c, kCanary, c); }
  else { p_ = base_; memset(p_ + n, kCanary, c); }
}
Guard::Guard(size_t n, bool right) { Alloc(n, right); memset(p_, 0xEE, n_); }
Guard::Guard(const Bytes& b, bool right) { Alloc(b.size(), right); if (n_) memcpy(p_, b.data(), n_); }
Guard::Guard(Guard&& o) : base_(o.base_), pages_(o.pages_), p_(o.p_), n_(o.n_) { o.base_ = nullptr; }
Guard::~Guard() { if (base_) Pool()[pages_].push_back(base_); }
void Guard::Fill(uint8_t v) { memset(p_, v, n_); }
bool Guard::CanaryOk() const {
  size_t slack = pages_ * kPage - n_;
  size_t c = slack < kCanaryMax ? slack : kCanaryMax;
  const uint8_t* q = p_ == base_ && n_ != pages_ * kPage ? p_ + n_ : p_ - c;
  for (size_t i = 0; i < c; i++) if (q[i] != kCanary) return false;
  return true;
}

Run::Run(int argc, char** argv) {
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    size_t eq = a.find('=');
    if (a.compare(0, 2, "--") == 0 && eq != std::string::npos) args_[a.substr(2, eq - 2)] = a.substr(eq + 1);
  }
  property_ = Arg("property");
  tier_ = Arg("tier", "quick");
  out_ = Arg("out");
  std::ifstream consts(Arg("consts"));
  for (std::string line; std::getline(consts, line);) {
    if (line.size() < 3) continue;
    if (line[0] == 's') {
      std::string s;
      for (size_t i = 2; i + 1 < line.size(); i += 2) s.push_back(static_cast<char>(strtoul(line.substr(i, 2).c_str(), nullptr, 16)));
      Constants().texts.push_back(s);
    } else {
      uint64_t n = strtoull(line.c_str() + 2, nullptr, 10);
      if (n > 16) Constants().numbers.push_back(n);
    }
  }
  Count("code_constants", Constants().numbers.size() + Constants().texts.size());
  seed_ = strtoull(Arg("seed", "1").c_str(), nullptr, 10);
  first_seed_ = seed_;
  scale_ = strtoull(Arg("scale", "1").c_str(), nullptr, 10);
  std::string pf = Arg("progress");
  if (!pf.empty()) {
    int fd = open(pf.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd >= 0 && ftruncate(fd, 4096) == 0) {
      void* m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (m != MAP_FAILED) progress_ = static_cast<char*>(m);
      close(fd);
    }
  }
}
std::string Run::Arg(const std::string& name, const std::string& dflt) const {
  auto it = args_.find(name);
  return it == args_.end() ? dflt : it->second;
}
void Run::Begin(const char* f, ...) {
  char buf[1024];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof(buf), f, ap);
  va_end(ap);
  label_ = prefix_.empty() ? buf : prefix_ + buf;
  evaluations_++;
  if ((evaluations_ & (evaluations_ - 1)) == 0 && auto_.size() < 24) auto_.push_back(label_.size() < 400 ? label_ : label_.substr(0, 300) + ".." + label_.substr(label_.size() - 99));
  if (progress_) {
    size_t n = label_.size() < 4000 ? label_.size() : 4000;
    memcpy(progress_, label_.data(), n);
    progress_[n] = 0;
  }
}
bool Run::Check(bool ok, const char* key, const char* f, ...) {
  if (ok) return true;
  if (per_key_[key]++ >= 3 || violations_.size() >= 40) return false;
  va_list ap;
  va_start(ap, f);
  char* s = nullptr;
  if (vasprintf(&s, f, ap) < 0) s = nullptr;
  va_end(ap);
  violations_.push_back({key, label_, s ? s : ""});
  fprintf(stderr, "CHECK FAILED [%s] case <%s>: %s\n", key, label_.c_str(), s ? s : "");
  free(s);
  return false;
}
namespace {
std::string J(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o.push_back('\\'); o.push_back(static_cast<char>(c)); }
    else if (c < 0x20 || c >= 0x7f) o += Fmt("\\u%04x", c);
    else o.push_back(static_cast<char>(c));
  }
  return o + "\"";
}
}  // namespace
int Run::Finish() {
  std::string o = "{\"evaluations\":" + std::to_string(evaluations_) +
                  ",\"distinct_nontrivial\":" + std::to_string(distinct_.size()) +
                  ",\"rule\":" + J(rule_) + ",\"counts\":{";
  bool first = true;
  for (auto& c : counts_) { o += (first ? "" : ",") + J(c.first) + ":" + std::to_string(c.second); first = false; }
  if (samples_.empty()) for (size_t i = auto_.size() > 6 ? auto_.size() - 6 : 0; i < auto_.size(); i++) samples_.push_back(auto_[i]);
  o += "},\"samples\":[";
  first = true;
  for (auto& s : samples_) { o += (first ? "" : ",") + J(s); first = false; }
  o += "],\"violations\":[";
  first = true;
  for (auto& v : violations_) {
    o += std::string(first ? "" : ",") + "{\"key\":" + J(v.key) + ",\"case\":" + J(v.label) + ",\"msg\":" + J(v.msg) + "}";
    first = false;
  }
  o += "]}\n";
  if (!out_.empty()) {
    FILE* f = fopen(out_.c_str(), "w");
    if (!f) { perror("out"); return 3; }
    fwrite(o.data(), 1, o.size(), f);
    fclose(f);
  } else {
    fwrite(o.data(), 1, o.size(), stdout);
  }
  return violations_.empty() ? 0 : 1;
}
}  // namespace vh

namespace {
// A deliberate error, to see that the sanitizer of this build responds.
int Canary() {
#if __has_feature(thread_sanitizer)
  static int shared = 0;
  std::thread a([] { for (int i = 0; i < 1000; i++) { *const_cast<volatile int*>(&shared) += 1; sched_yield(); } });
  for (int i = 0; i < 1000; i++) { *const_cast<volatile int*>(&shared) += 1; sched_yield(); }
  a.join();
#elif !__has_feature(address_sanitizer)
  volatile int x = 0x7fffffff;
  x = x + 1;
  int* volatile q = static_cast<int*>(malloc(sizeof(int)));  // for memcheck
  if (*q == 1234567) puts("?");
  free(q);
#else
  uint8_t* volatile p = new uint8_t[10];
  volatile size_t i = 10;
  volatile uint8_t x = p[i];
  (void)x;
#endif
  return 0;
}
}  // namespace

extern "C" int LLVMFuzzerRunDriver(int* argc, char*** argv, int (*)(const uint8_t*, size_t)) __attribute__((weak));
namespace {
vh::Run* g_run;
void Finished() { int rc = g_run->Finish(); fflush(nullptr); _exit(rc); }
int OneTape(const uint8_t* p, size_t n) {
  if (n < 2) return 0;
  g_run->Prefix("tape=" + vh::Hex(p, n, n) + " ");
  vh::Rng rng(p, n);
  TapeCase(*g_run, rng);
  if (g_run->failed()) Finished();
  return 0;
}
// Coverage-guided: --fuzz=RUNS, at most --fuzz-s=SECONDS, corpus in --corpus=DIR.
int Fuzz(vh::Run& run) {
  std::string tape = run.Arg("tape");
  g_run = &run;
  if (!tape.empty()) {
    vh::Bytes b;
    for (size_t i = 0; i + 1 < tape.size(); i += 2) b.push_back(static_cast<uint8_t>(strtoul(tape.substr(i, 2).c_str(), nullptr, 16)));
    OneTape(b.data(), b.size());
    return run.Finish();
  }
  if (!LLVMFuzzerRunDriver || !TapeCase) { fprintf(stderr, "not a coverage-guided build\n"); return 3; }
  std::string dir = run.Arg("corpus");
  vh::Rng rng(run.seed() + 99);
  for (int i = 0; i < 64; i++) {
    vh::Bytes b = rng.Data(rng.Chance(1, 2) ? 8 + rng.Below(60) : 8 + rng.Below(400));
    FILE* f = fopen((dir + "/" + std::to_string(i)).c_str(), "w");
    if (!f || fwrite(b.data(), 1, b.size(), f) != b.size()) { perror("corpus"); return 3; }
    fclose(f);
  }
  std::vector<std::string> a{"fuzz", dir, "-runs=" + run.Arg("fuzz"), "-max_total_time=" + run.Arg("fuzz-s", "60"), "-seed=" + std::to_string(run.seed() % 1000000 + 1),
                             "-max_len=700", "-len_control=0", "-use_value_profile=1", "-detect_leaks=0", "-rss_limit_mb=0", "-timeout=120", "-artifact_prefix=" + dir + "/", "-print_final_stats=1"};
  std::vector<char*> v;
  for (auto& s : a) v.push_back(&s[0]);
  int n = static_cast<int>(v.size());
  v.push_back(nullptr);
  char** vv = v.data();
  atexit(Finished);
  return LLVMFuzzerRunDriver(&n, &vv, OneTape);
}
}  // namespace

int main(int argc, char** argv) {
  if (argc == 2 && std::string(argv[1]) == "--canary") return Canary();
  vh::Run run(argc, argv);
  if (!run.Arg("fuzz").empty() || !run.Arg("tape").empty()) return Fuzz(run);
  for (size_t r = 0; r < run.Rounds() && !run.TooMany(); r++) {
    run.Round(r);
    if (int rc = Workload(run)) { fprintf(stderr, "no workload for %s\n", run.property().c_str()); return rc; }
  }
  return run.Finish();
}
