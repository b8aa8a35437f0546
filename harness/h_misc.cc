// Whole-library monitors: C31 (no secrets in diagnostics), C32 (objects exist
// only with valid parameters), C33 (a connection's memory does not grow).
#include <fcntl.h>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/common_interface_defs.h>
extern "C" void __sanitizer_set_report_fd(void*) __attribute__((weak));
#include <sys/mman.h>
#include <unistd.h>

#include "include/access_token_manager_factory.h"
#include "include/s2a_frame_protector.h"
#include "px.h"
#include "src/crypto/hkdf.h"
#include "src/crypto/s2a_aead_crypter.h"
#include "src/crypto/s2a_aead_crypter_util.h"
#include "src/record_protocol/handshake_message_handler.h"
#include "wrap_ssl.h"

using namespace px;
using s2a::aead_crypter::S2AAeadCrypter;
using s2a::frame_protector::S2AFrameProtector;
using vh::Guard;
typedef S2ACrypter::RecordType RT;

namespace {

// ------------------------------------------------------------------ C31
// Everything the library said, and the search for secrets in it.
struct Texts {
  std::vector<std::string> said;
  size_t bytes = 0;
  void Say(const std::string& s) { if (!s.empty()) { said.push_back(s); bytes += s.size(); } }
};
Texts* g_texts = nullptr;
void Logger(const std::string& s) { if (g_texts) g_texts->Say(s); }

class Secrets {
 public:
  void Add(const Bytes& b) {
    for (size_t i = 0; i + kWin <= b.size(); i++) win_.insert(Win(b.data() + i));
    for (size_t i = 0; i + 4 <= b.size(); i++) four_.insert(Four(b.data() + i));
  }
  void Add(const std::string& s) { Add(Bytes(s.begin(), s.end())); }
  void Remove(const std::string& s) {
    for (size_t i = 0; i + kWin <= s.size(); i++) win_.erase(Win(reinterpret_cast<const uint8_t*>(s.data()) + i));
    for (size_t i = 0; i + 4 <= s.size(); i++) four_.erase(Four(reinterpret_cast<const uint8_t*>(s.data()) + i));
  }
  // The form in which text gives away eight consecutive bytes of a secret.
  std::string Find(const std::string& t) const {
    if (In(t)) return "verbatim";
    // Four bytes are enough if they stand as four numbers in a row.
    Bytes dec, hex2;
    size_t gap = 0;
    for (size_t i = 0; i < t.size();) {
      if (!isalnum(static_cast<unsigned char>(t[i]))) { if (++gap > 4) { dec.clear(); hex2.clear(); } i++; continue; }
      gap = 0;
      bool neg = i > 0 && t[i - 1] == '-';
      size_t e = i;
      while (e < t.size() && isalnum(static_cast<unsigned char>(t[e]))) e++;
      std::string w = t.substr(i, e - i);
      i = e;
      if (w.size() > 2 && w[0] == '0' && (w[1] | 32) == 'x') w = w.substr(2);
      bool d = w.size() <= 3 && w.find_first_not_of("0123456789") == std::string::npos && atoi(w.c_str()) < 256;
      bool h = w.size() <= 2 && w.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos;
      if (d) { dec.push_back(static_cast<uint8_t>(neg ? -atoi(w.c_str()) : atoi(w.c_str()))); if (Last4(dec)) return "as decimal numbers"; } else dec.clear();
      if (h) { hex2.push_back(static_cast<uint8_t>(strtol(w.c_str(), nullptr, 16))); if (Last4(hex2)) return "as hexadecimal numbers"; } else hex2.clear();
    }
    for (int sign = 0; sign < 2; sign++) {
      std::string b;
      bool neg = false;
      for (size_t i = 0; i < t.size();) {
        if (isdigit(static_cast<unsigned char>(t[i]))) {
          long v = 0;
          while (i < t.size() && isdigit(static_cast<unsigned char>(t[i])) && v < 100000) v = v * 10 + (t[i++] - '0');
          b.push_back(static_cast<char>(neg ? -v : v));
          neg = false;
        } else {
          neg = sign && t[i] == '-';
          i++;
        }
      }
      if (In(b)) return "as decimal numbers";
    }
    // Hex, with any separators; both alignments.
    std::string hex;
    for (size_t i = 0; i < t.size(); i++) {
      if ((t[i] == '0' || t[i] == '\\') && i + 1 < t.size() && (t[i + 1] == 'x' || t[i + 1] == 'X')) { i++; continue; }
      if (isxdigit(static_cast<unsigned char>(t[i]))) hex.push_back(t[i]);
      else if (!strchr(" :,-[]{}();\n", t[i])) hex.push_back('|');
    }
    auto nib = [](char c) { return c == '|' ? -1 : isdigit(static_cast<unsigned char>(c)) ? c - '0' : (c | 32) - 'a' + 10; };
    for (size_t o = 0; o < 2; o++) {
      std::string b;
      for (size_t i = o; i + 1 < hex.size(); i += 2) {
        int x = nib(hex[i]), y = nib(hex[i + 1]);
        if (x < 0 || y < 0) { if (In(b)) return "in hex"; b.clear(); continue; }
        b.push_back(static_cast<char>(x << 4 | y));
      }
      if (In(b)) return "in hex";
    }
    // Base64, all alignments.
    for (size_t o = 0; o < 4; o++) {
      std::string b;
      uint32_t acc = 0;
      int n = 0;
      for (size_t i = o; i <= t.size(); i++) {
        const char* al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        char c = i < t.size() ? (t[i] == '-' ? '+' : t[i] == '_' ? '/' : t[i]) : '|';
        const char* p = c ? strchr(al, c) : nullptr;
        if (!p) { if (In(b)) return "in base64"; b.clear(); n = 0; acc = 0; continue; }
        acc = acc << 6 | static_cast<uint32_t>(p - al);
        if (++n == 4) { b.push_back(static_cast<char>(acc >> 16)); b.push_back(static_cast<char>(acc >> 8)); b.push_back(static_cast<char>(acc)); n = 0; acc = 0; }
      }
      if (In(b)) return "in base64";
    }
    return "";
  }
  size_t size() const { return win_.size(); }

 private:
  static const size_t kWin = 8;
  static uint64_t Win(const uint8_t* p) { uint64_t v; memcpy(&v, p, 8); return v; }
  bool In(const std::string& s) const {
    for (size_t i = 0; i + kWin <= s.size(); i++) if (win_.count(Win(reinterpret_cast<const uint8_t*>(s.data()) + i))) return true;
    return false;
  }
  static uint32_t Four(const uint8_t* p) { uint32_t v; memcpy(&v, p, 4); return v; }
  bool Last4(const Bytes& b) const { return b.size() >= 4 && four_.count(Four(b.data() + b.size() - 4)); }
  std::unordered_set<uint64_t> win_;
  std::unordered_set<uint32_t> four_;
};

// What goes to stdout and stderr meanwhile.
class Capture {
 public:
  Capture() {
    out_ = dup(1);
    err_ = dup(2);
    mem_ = memfd_create("captured", 0);
    if (out_ < 0 || err_ < 0 || mem_ < 0) { perror("capture"); _exit(3); }
    if (__sanitizer_set_report_fd) __sanitizer_set_report_fd(reinterpret_cast<void*>(static_cast<intptr_t>(err_)));
    fflush(stdout);
    dup2(mem_, 1);
    dup2(mem_, 2);
  }
  std::string Take() {
    fflush(stdout);
    fflush(stderr);
    off_t n = lseek(mem_, 0, SEEK_END);
    std::string s(static_cast<size_t>(n > 0 ? n : 0), 0);
    if (n > 0 && pread(mem_, &s[0], s.size(), 0) != n) s.clear();
    if (ftruncate(mem_, 0) == 0) lseek(mem_, 0, SEEK_SET);
    return s;
  }
  ~Capture() {
    fflush(stdout);
    dup2(out_, 1);
    dup2(err_, 2);
    if (__sanitizer_set_report_fd) __sanitizer_set_report_fd(reinterpret_cast<void*>(static_cast<intptr_t>(2)));
    close(out_);
    close(err_);
    close(mem_);
  }

 private:
  int out_, err_, mem_;
};

std::string Word(Rng& rng, size_t n) {
  std::string s;
  while (s.size() < n) s.push_back("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789._-"[rng.Below(65)]);
  return s;
}

Conn MakeLogged(ref::Aead a, const Bytes& is, const Bytes& os, uint64_t iq, uint64_t oq) {
  Conn k;
  k.a = a;
  auto v = S2ACrypter::Create(TlsVersion::TLS1_3, SuiteOf(a), 7, "s2a:1234", Identity::FromHostname("local"), is, os, iq, oq, Sender, nullptr, nullptr, Logger);
  if (v.index() == 1) k.c = std::move(absl::get<1>(v));
  else k.status = absl::get<0>(v);
  k.in.reset(new ref::Tls13Half(a, is, iq));
  k.out.reset(new ref::Tls13Half(a, os, oq));
  return k;
}

Bytes Damage(Rng& rng, Bytes b) {
  switch (rng.Below(4)) {
    case 0: if (!b.empty()) b[rng.Below(b.size())] ^= static_cast<uint8_t>(1 + rng.Below(255)); break;
    case 1: b.resize(rng.Below(b.size() + 1)); break;
    case 2: { Bytes x = rng.Data(1 + rng.Below(30)); b.insert(b.end(), x.begin(), x.end()); break; }
    default: if (b.size() > 5) b[5 + rng.Below(b.size() - 5)] ^= 0x40; break;
  }
  return b;
}
// Inner plaintexts of all kinds; what is in them is secret.
Bytes Inner(Rng& rng, Secrets* s) {
  Bytes c = rng.Data(rng.Chance(1, 8) ? rng.Below(16000) : rng.Below(200));
  uint8_t type = 23;
  switch (rng.Below(8)) {
    case 0: type = static_cast<uint8_t>(rng.Below(256)); break;
    case 1: type = 21; if (rng.Chance(1, 2)) c.resize(std::min<size_t>(c.size(), rng.Below(4))); if (c.size() > 1 && c[1] == 0) c[1] = 40; break;
    case 2: type = 22; c = Msg(4, c); break;
    case 3: type = 22; break;
    case 4: type = 22; c = Msg(24, Bytes{static_cast<uint8_t>(rng.Below(3))}); break;
    case 5: type = 22; c = Cat(Msg(4, rng.Data(40)), Msg(24, c)); break;
    default: break;
  }
  s->Add(c);
  c.push_back(type);
  c.insert(c.end(), rng.Below(20), 0);
  return c;
}

void KeysOf(ref::Aead a, const Bytes& secret, Secrets* s) {
  ref::Tls13Half h(a, secret, 0);
  for (int i = 0; i < 3; i++) { s->Add(h.secret()); s->Add(h.key()); s->Add(h.iv()); h.KeyUpdate(); }
}

void SayRecord(Rng& rng, Secrets* s, Texts* t) {
  ref::Aead a = kAeads[rng.Below(3)];
  Bytes is = rng.Data(SecretSize(a)), os = rng.Data(SecretSize(a));
  if (rng.Chance(1, 6)) (rng.Chance(1, 2) ? is : os).resize(rng.Below(100));
  uint64_t iq = rng.Chance(1, 5) ? ~0ULL - rng.Below(4) : rng.Below(9), oq = rng.Chance(1, 5) ? ~0ULL - rng.Below(4) : rng.Below(9);
  s->Add(is);
  s->Add(os);
  if (is.size() == SecretSize(a)) KeysOf(a, is, s);
  if (os.size() == SecretSize(a)) KeysOf(a, os, s);
  bool faults = rng.Chance(1, 3);
  if (faults && rng.Chance(1, 3)) wrapssl::Arm(static_cast<long>(1 + rng.Below(12)), rng.Chance(1, 2));
  Conn k = MakeLogged(a, is, os, iq, oq);
  wrapssl::Arm(0);
  if (!k.c) { t->Say(k.status.ToString()); return; }
  for (int i = 0, n = static_cast<int>(3 + rng.Below(12)); i < n; i++) {
    if (faults && rng.Chance(1, 2)) wrapssl::Arm(static_cast<long>(1 + rng.Below(10)), rng.Chance(1, 3));
    if (rng.Chance(1, 3)) {
      Bytes pt = rng.Data(rng.Chance(1, 10) ? rng.Range(16380, 16400) : rng.Below(300));
      s->Add(pt);
      Guard g(pt), out(pt.size() + (rng.Chance(1, 3) ? rng.Below(22) : 22));
      auto r = k.c->Protect(rng.Chance(1, 6) ? static_cast<RT>(9) : RT::APPLICATION_DATA, {{g.data(), g.size()}}, {out.data(), out.size()});
      t->Say(r.GetErrorMessage());
    } else if (rng.Chance(1, 12)) {
      t->Say(k.c->UpdateOutboundKey().ToString());
    } else {
      if (k.in->seq() == ~0ULL) break;
      Bytes rec = k.in->ProtectInner(Inner(rng, s));
      if (rng.Chance(1, 3)) rec = Damage(rng, rec);
      size_t hl = std::min<size_t>(kHeader, rec.size());
      Guard h(Bytes(rec.begin(), rec.begin() + hl)), p(Bytes(rec.begin() + hl, rec.end())), out(rec.size() + 1 - (rng.Chance(1, 6) ? rng.Below(rec.size() + 1) : 0));
      auto r = k.c->Unprotect({h.data(), h.size()}, {{p.data(), p.size()}}, {out.data(), out.size()});
      t->Say(r.GetErrorMessage());
    }
    wrapssl::Arm(0);
  }
}

void SayAead(Rng& rng, Secrets* s, Texts* t) {
  Bytes key = rng.Data(rng.Chance(1, 2) ? (rng.Chance(1, 2) ? 16 : 32) : rng.Below(60));
  s->Add(key);
  auto v = rng.Chance(1, 2) ? s2a::aead_crypter::CreateAesGcmAeadCrypter(key) : s2a::aead_crypter::CreateChachaPolyAeadCrypter(key);
  if (v.index() == 0) { t->Say(absl::get<0>(v).ToString()); }
  else {
    auto c = std::move(absl::get<1>(v));
    for (int i = 0; i < 5; i++) {
      if (rng.Chance(1, 3)) wrapssl::Arm(static_cast<long>(1 + rng.Below(8)), rng.Chance(1, 3));
      Bytes pt = rng.Data(rng.Below(200)), nonce = rng.Data(rng.Chance(4, 5) ? 12 : rng.Below(30)), aad = rng.Data(rng.Below(30));
      s->Add(pt);
      Guard g(pt), a(aad), out(rng.Chance(1, 3) ? rng.Below(pt.size() + 20) : pt.size() + 16), back(pt.size() + 1);
      auto r = c->Encrypt(nonce, {{a.data(), a.size()}}, {{g.data(), g.size()}}, {out.data(), out.size()});
      t->Say(r.GetStatus().ToString());
      if (rng.Chance(1, 2) && out.size()) out.data()[rng.Below(out.size())] ^= 4;
      auto d = c->Decrypt(nonce, {{a.data(), a.size()}}, {{out.data(), out.size()}}, {back.data(), back.size()});
      t->Say(d.GetStatus().ToString());
      wrapssl::Arm(0);
    }
  }
  Bytes prk = rng.Data(rng.Chance(1, 2) ? rng.Below(48) : rng.Range(48, 90)), info = rng.Data(rng.Below(30)), out(rng.Chance(1, 4) ? rng.Range(8160, 13000) : rng.Below(200));
  s->Add(prk);
  if (rng.Chance(1, 3)) wrapssl::Arm(static_cast<long>(1 + rng.Below(8)));
  auto st = s2a::hkdf::HkdfDeriveSecret(static_cast<s2a::hkdf::HashFunction>(rng.Below(3)), prk, info, out);
  wrapssl::Arm(0);
  if (out.size() < 300) s->Add(out);
  t->Say(st.ToString());
}

struct Mem {
  std::map<void*, size_t> live;
  long calls = 0, fail_at = 0;
  Iovec Alloc(size_t n) { if (++calls == fail_at) return {nullptr, 0}; void* p = malloc(n ? n : 1); memset(p, 0xC3, n ? n : 1); live[p] = n; return {p, n}; }
  void Free(Iovec v) { auto it = live.find(v.iov_base); if (it != live.end()) { free(it->first); live.erase(it); } }
  ~Mem() { for (auto& p : live) free(p.first); }
};
struct Framed {
  std::unique_ptr<Mem> mem{new Mem};
  std::string url = "s2a";
  Identity ident = Identity::FromHostname("h");
  std::unique_ptr<S2AFrameProtector> f;
  absl::Status status;
};
std::unique_ptr<Framed> MakeFramed(ref::Aead a, const Bytes& is, const Bytes& os, uint64_t iq, uint64_t oq, std::function<void(const std::string&)> logger) {
  std::unique_ptr<Framed> k(new Framed);
  Mem* p = k->mem.get();
  S2AFrameProtector::S2AFrameProtectorOptions o = {TlsVersion::TLS1_3, SuiteOf(a), is, os, iq, oq, k->url, k->ident, 5, nullptr, nullptr,
                                                   [p](size_t n) { return p->Alloc(n); }, [p](Iovec v) { p->Free(v); }, logger};
  auto r = S2AFrameProtector::Create(o);
  if (r.ok()) k->f = std::move(*r);
  else k->status = r.status();
  return k;
}

void SayFrames(Rng& rng, Secrets* s, Texts* t) {
  ref::Aead a = kAeads[rng.Below(3)];
  Bytes is = rng.Data(SecretSize(a)), os = rng.Data(SecretSize(a));
  if (rng.Chance(1, 6)) (rng.Chance(1, 2) ? is : os).resize(rng.Below(100));
  s->Add(is);
  s->Add(os);
  if (is.size() == SecretSize(a)) KeysOf(a, is, s);
  if (os.size() == SecretSize(a)) KeysOf(a, os, s);
  auto k = MakeFramed(a, is, os, 0, rng.Chance(1, 4) ? ~0ULL - 2 : 0, Logger);
  if (!k->f) { t->Say(k->status.ToString()); return; }
  ref::Tls13Half peer(a, is, 0);
  for (int i = 0, n = static_cast<int>(2 + rng.Below(8)); i < n; i++) {
    k->mem->calls = 0;
    k->mem->fail_at = rng.Chance(1, 5) ? 1 + static_cast<long>(rng.Below(3)) : 0;
    if (rng.Chance(1, 4)) wrapssl::Arm(static_cast<long>(1 + rng.Below(10)), rng.Chance(1, 3));
    if (rng.Chance(1, 2)) {
      Bytes pt = rng.Data(rng.Chance(1, 8) ? rng.Range(16000, 34000) : rng.Below(300));
      s->Add(pt);
      Guard g(pt);
      if (rng.Chance(1, 2)) {
        auto r = k->f->Protect({{g.data(), g.size()}});
        t->Say(r.status.ToString());
        for (auto& b : r.bytes) k->mem->Free(b);
      } else {
        Guard out(rng.Below(pt.size() + 60));
        Iovec v{out.data(), out.size()};
        t->Say(k->f->Protect({{g.data(), g.size()}}, v).ToString());
      }
    } else {
      Bytes rec;
      for (int j = static_cast<int>(1 + rng.Below(3)); j; j--) { Bytes x = peer.ProtectInner(Inner(rng, s)); rec.insert(rec.end(), x.begin(), x.end()); }
      if (rng.Chance(1, 3)) rec = Damage(rng, rec);
      Guard g(rec);
      if (rng.Chance(1, 2)) {
        auto r = k->f->Unprotect({{g.data(), g.size()}});
        t->Say(r.status.ToString());
        for (auto& b : r.bytes) k->mem->Free(b);
      } else {
        Guard out(rng.Chance(1, 2) ? rec.size() + 1 : 1 + rng.Below(rec.size() + 1));
        Iovec v{out.data(), out.size()};
        t->Say(k->f->Unprotect({{g.data(), g.size()}}, v).ToString());
      }
    }
    wrapssl::Arm(0);
  }
}

void SayProxy(Rng& rng, Secrets* s, Texts* t) {
  Config c = RandomConfig(rng);
  if (rng.Chance(1, 5)) c.suites.push_back(9);
  if (c.client && rng.Chance(1, 6)) c.locals.push_back(RandomId(rng));
  auto tok = std::make_shared<Tokens>();
  tok->has_default = rng.Chance(3, 4);
  tok->dflt = Word(rng, 24 + rng.Below(30));
  s->Add(tok->dflt);
  for (auto& i : c.locals) if (rng.Chance(2, 3)) { tok->token[i] = Word(rng, 24 + rng.Below(30)); s->Add(tok->token[i]); }
  S2AProxy::S2AProxyOptions o = {Logger, c.client, c.protocol, c.target, Options(c), nullptr, nullptr, rng.Chance(7, 8) ? std::unique_ptr<AccessTokenManagerInterface>(new Manager(tok)) : nullptr};
  auto p = S2AProxy::Create(o);
  if (!p) return;
  auto first = p->GetBytesForS2A(c.client && rng.Chance(5, 6) ? nullptr : Buf(Str(rng.Data(rng.Below(60)))));
  t->Say(first.status.ToString());
  for (int i = static_cast<int>(rng.Below(4)); i >= 0; i--) {
    Resp r = GoodResult(rng);
    s->Add(r.in_key);
    s->Add(r.out_key);
    r.result = i == 0 || rng.Chance(1, 4);
    if (rng.Chance(1, 3)) switch (rng.Below(8)) {
      case 0: r.status = 0; break;
      case 1: r.code = 1 + static_cast<unsigned>(rng.Below(20)); r.details = "S2A said no"; break;
      case 2: r.state = false; break;
      case 3: r.version = 2 + rng.Below(5); break;
      case 4: r.suite = 3 + rng.Below(5); break;
      case 5: r.has_result_local = false; break;
      case 6: r.in_key.resize(rng.Below(60)); break;
      default: r.version = 0; break;
    }
    if (!c.locals.empty() && rng.Chance(1, 3)) { r.has_local = true; r.local = rng.Chance(1, 2) ? c.locals[rng.Below(c.locals.size())] : RandomId(rng); }
    std::string e = r.Encode(&rng);
    if (rng.Chance(1, 4)) e = Str(Damage(rng, Bytes(e.begin(), e.end())));
    auto st = p->GetBytesForPeer(rng.Chance(1, 12) ? nullptr : Buf(e));
    t->Say(st.status.ToString());
    auto n = p->GetBytesForS2A(rng.Chance(1, 8) ? nullptr : Buf(Str(rng.Data(rng.Below(60)))));
    t->Say(n.status.ToString());
    auto cx = p->GetS2AContext();
    if (cx.index() == 0) t->Say(absl::get<0>(cx).ToString());
    auto f = p->CreateFrameProtector();
    if (!f.ok()) { t->Say(f.status().ToString()); continue; }
    Bytes pt = rng.Data(60);
    s->Add(pt);
    Guard g(pt), junk(rng.Data(60));
    auto pr = (*f)->Protect({{g.data(), g.size()}});
    t->Say(pr.status.ToString());
    for (auto& b : pr.bytes) delete[] static_cast<uint8_t*>(b.iov_base);
    auto un = (*f)->Unprotect({{junk.data(), junk.size()}});
    t->Say(un.status.ToString());
    for (auto& b : un.bytes) delete[] static_cast<uint8_t*>(b.iov_base);
    break;
  }
}

void SayTokens(Rng& rng, Secrets* s, Texts* t) {
  std::string token = Word(rng, 20 + rng.Below(60));
  s->Add(token);
  if (rng.Chance(1, 4)) unsetenv("S2A_ACCESS_TOKEN");
  else setenv("S2A_ACCESS_TOKEN", token.c_str(), 1);
  auto m = s2a::token_manager::BuildAccessTokenManager();
  t->Say(m.status().ToString());
  if (m.ok()) {
    t->Say((*m)->DebugName());
    t->Say((*m)->GetDefaultToken().status().ToString());
    t->Say((*m)->GetToken(ToS2A(RandomId(rng))).status().ToString());
  }
  unsetenv("S2A_ACCESS_TOKEN");
}

void SayHandshake(Rng& rng, Secrets* s, Texts* t) {
  s2a::handshake_message_handler::HandshakeMessageHandler h;
  for (int i = static_cast<int>(1 + rng.Below(6)); i; i--) {
    Bytes m = rng.Data(12 + rng.Below(120));
    s->Add(m);
    if (rng.Chance(2, 3)) m = Msg(rng.Chance(1, 2) ? 4 : rng.Chance(1, 2) ? 24 : static_cast<uint8_t>(rng.Below(256)), m);
    if (rng.Chance(1, 4)) m.resize(rng.Below(m.size() + 1));
    auto r = h.ProcessHandshakeMessage(m.empty() ? nullptr : m.data(), m.size());
    if (r.index() == 0) t->Say(absl::get<0>(r).ToString());
    if (rng.Chance(1, 2)) { auto g = h.GetStoredTickets(); if (g.index() == 0) t->Say(absl::get<0>(g).ToString()); }
  }
}

void Diagnostics(Run& run) {
  run.Rule("distinct texts produced by the library, by area");
  Rng rng(run.seed() * 31 + 31);
  typedef void (*Fn)(Rng&, Secrets*, Texts*);
  const std::pair<const char*, Fn> areas[] = {{"record", SayRecord}, {"aead", SayAead}, {"frame", SayFrames}, {"proxy", SayProxy}, {"token", SayTokens}, {"handshake", SayHandshake}};
  // The search itself is checked first: a monitor that cannot see a leak is worth nothing.
  {
    Secrets s;
    Bytes b = rng.Data(40);
    s.Add(b);
    std::string dec, dec2, hex;
    for (uint8_t x : b) { dec += Fmt("%d ", x); dec2 += Fmt("%d,", static_cast<int8_t>(x)); hex += Fmt("0x%02X, ", x); }
    run.Begin("search self-test");
    if (s.Find("x" + Str(b)).empty() || s.Find(dec).empty() || s.Find(dec2).empty() || s.Find("k=" + hex).empty() || s.Find("k: " + vh::Hex(b)).empty() || !s.Find("error:0606506D:digital envelope").empty()) { fprintf(stderr, "search self-test failed\n"); _exit(3); }
  }
  size_t n = run.N(400, 12000);
  Capture cap;
  for (size_t i = 0; i < n; i++) {
    for (auto& area : areas) {
      Secrets s;
      Texts t;
      g_texts = &t;
      run.Begin("%s case %zu seed %llu", area.first, i, static_cast<unsigned long long>(run.seed()));
      area.second(rng, &s, &t);
      g_texts = nullptr;
      wrapssl::Arm(0);
      std::string console = cap.Take();
      run.Count("secret windows", s.size());
      run.Count("bytes on stdout/stderr", console.size());
      std::string form = s.Find(console);
      run.Check(form.empty(), "console-leak", "a secret was printed to stdout or stderr %s", form.c_str());
      std::string all;
      for (auto& x : t.said) {
        run.Count(std::string("texts: ") + area.first);
        run.Nontrivial(std::string(area.first) + x.substr(0, 200));
        form = s.Find(x);
        run.Check(form.empty(), "text-leak", "the text starting <%s> gives away a secret %s", vh::Hex(reinterpret_cast<const uint8_t*>(x.data()), std::min<size_t>(x.size(), 24)).c_str(), form.c_str());
        if (x.size() < 120) run.Sample(std::string(area.first) + ": " + x.substr(0, 110));
        all += x + "\n";
      }
      // Spread over several messages.
      if (t.said.size() > 1) { form = s.Find(all); run.Check(form.empty(), "text-leak", "the texts together give away a secret %s", form.c_str()); }
      if (run.TooMany()) return;
    }
  }
}

// ------------------------------------------------------------------ C32
bool ValidSuite(int s) { return s >= 0 && s <= 2; }
size_t NeedSecret(int s) { return s == 1 ? 48 : 32; }
size_t NeedKey(int s) { return s == 0 ? 16 : 32; }
ref::Aead AeadOfSuite(int s) { return kAeads[s]; }
Suite SuiteNo(int s) { return s == 0 ? Suite::AES_128_GCM_SHA256 : s == 1 ? Suite::AES_256_GCM_SHA384 : s == 2 ? Suite::CHACHA20_POLY1305_SHA256 : static_cast<Suite>(s); }
TlsVersion VersionNo(int v) { return v == 0 ? TlsVersion::TLS1_2 : v == 1 ? TlsVersion::TLS1_3 : static_cast<TlsVersion>(v); }

struct P32 {
  int version = 1, suite = 0;
  size_t in = 32, out = 32;
  bool url = true, logger = true, sender = true, alloc = true, destroy = true;
  bool Valid(bool frame) const {
    return version == 1 && ValidSuite(suite) && in == NeedSecret(suite) && out == NeedSecret(suite) && url && logger && (frame ? alloc && destroy : sender);
  }
  std::string Show() const { return Fmt("version %d suite %d secrets %zu/%zu url %d logger %d sender %d alloc %d destroy %d", version, suite, in, out, url, logger, sender, alloc, destroy); }
};
// A created connection must work, in both directions.
void Works(Run& run, S2ACrypter* c, ref::Aead a, const Bytes& is, const Bytes& os, uint64_t iq, uint64_t oq, Rng& rng) {
  ref::Tls13Half in(a, is, iq), out(a, os, oq);
  Bytes pt = rng.Data(rng.Below(40));
  auto g = Deliver(c, in.Protect(23, pt));
  run.Check(g.code == Code::OK && g.data == pt, "created-unusable", "a connection that was created does not receive");
  Guard p(pt), rec(pt.size() + 22);
  auto st = c->Protect(RT::APPLICATION_DATA, {{p.data(), p.size()}}, {rec.data(), rec.size()});
  run.Check(st.GetCode() == Code::OK && rec.Get() == out.Protect(23, pt), "created-unusable", "a connection that was created does not send what its peer expects");
}
void OneCrypter(Run& run, Rng& rng, const P32& p) {
  run.Begin("crypter %s", p.Show().c_str());
  Bytes is = rng.Data(p.in), os = rng.Data(p.out);
  uint64_t iq = rng.Chance(1, 3) ? rng.Number(1) : 0, oq = rng.Chance(1, 3) ? rng.Number(1) : 0;
  auto v = S2ACrypter::Create(VersionNo(p.version), SuiteNo(p.suite), rng.Number(), p.url ? "u" : "", Identity::GetEmptyIdentity(), is, os, iq, oq, p.sender ? Sender : nullptr, nullptr, nullptr,
                              p.logger ? std::function<void(const std::string&)>([](const std::string&) {}) : nullptr);
  bool made = v.index() == 1 && absl::get<1>(v) != nullptr;
  run.Check(made || (v.index() == 0 && !absl::get<0>(v).ok()), "neither", "neither a connection nor an error");
  run.Check(made == p.Valid(false), made ? "invalid-accepted" : "valid-refused", "created: %d", made);
  run.Nontrivial(p.Show());
  if (made || rng.Chance(1, 400)) run.Sample("crypter, " + p.Show() + (made ? ": created" : ": refused"));
  run.Count(made ? "created" : "refused");
  if (made && p.Valid(false)) Works(run, absl::get<1>(v).get(), AeadOfSuite(p.suite), is, os, iq, oq, rng);
}
void OneFrame(Run& run, Rng& rng, const P32& p) {
  run.Begin("frame protector %s", p.Show().c_str());
  Bytes is = rng.Data(p.in), os = rng.Data(p.out);
  std::string url = p.url ? "u" : "";
  Identity ident = Identity::GetEmptyIdentity();
  Mem mem;
  S2AFrameProtector::S2AFrameProtectorOptions o = {VersionNo(p.version), SuiteNo(p.suite), is, os, 3, 4, url, ident, 5, nullptr, nullptr, nullptr, nullptr, nullptr};
  if (p.alloc) o.allocator = [&mem](size_t n) { return mem.Alloc(n); };
  if (p.destroy) o.destroy = [&mem](Iovec v) { mem.Free(v); };
  if (p.logger) o.logger = [](const std::string&) {};
  auto r = S2AFrameProtector::Create(o);
  bool made = r.ok();
  run.Check(!made || *r != nullptr, "neither", "success without a frame protector");
  run.Check(made == p.Valid(true), made ? "invalid-accepted" : "valid-refused", "created: %d", made);
  run.Nontrivial("f" + p.Show());
  run.Count(made ? "created" : "refused");
  if (made && p.Valid(true)) {
    ref::Tls13Half in(AeadOfSuite(p.suite), is, 3), out(AeadOfSuite(p.suite), os, 4);
    Bytes pt = rng.Data(20);
    Guard g(pt), rec(in.Protect(23, pt));
    auto s = (*r)->Protect({{g.data(), g.size()}});
    Bytes got;
    for (auto& b : s.bytes) { got.insert(got.end(), static_cast<uint8_t*>(b.iov_base), static_cast<uint8_t*>(b.iov_base) + b.iov_len); mem.Free(b); }
    run.Check(s.status.ok() && got == out.Protect(23, pt), "created-unusable", "a frame protector that was created does not send what its peer expects");
    auto u = (*r)->Unprotect({{rec.data(), rec.size()}});
    got.clear();
    for (auto& b : u.bytes) { got.insert(got.end(), static_cast<uint8_t*>(b.iov_base), static_cast<uint8_t*>(b.iov_base) + b.iov_len); mem.Free(b); }
    run.Check(u.status.ok() && got == pt, "created-unusable", "a frame protector that was created does not receive");
  }
}
void Crowd(Run& run);
void Creation(Run& run) {
  run.Rule("distinct parameter combinations");
  Rng rng(run.seed() * 77 + 32);
  const int versions[] = {0, 1, 2, 3, -1}, suites[] = {0, 1, 2, 3, -1, 0x1301, 255};
  if (run.round() == 0) {
    // Every secret length, in each direction.
    for (int s : suites)
      for (size_t n = 0; n <= 130; n++)
        for (int dir = 0; dir < 3; dir++) {
          P32 p;
          p.suite = s;
          p.in = p.out = ValidSuite(s) ? NeedSecret(s) : 32;
          (dir == 0 ? p.in : p.out) = n;
          if (dir == 2) p.in = n;
          OneCrypter(run, rng, p);
          if (n >= 28 && n <= 52) OneFrame(run, rng, p);
          run.Begin("half connection suite %d secret %zu", s, n);
          auto h = s2a::record_protocol::S2AHalfConnection::Create(SuiteNo(s), rng.Number(), rng.Data(n));
          bool made = h.index() == 1 && absl::get<1>(h) != nullptr, ok = ValidSuite(s) && n == NeedSecret(s);
          run.Check(made == ok, made ? "invalid-accepted" : "valid-refused", "created: %d", made);
          run.Nontrivial(Fmt("h%d.%zu", s, n));
        }
    // Every AEAD key length.
    for (size_t n = 0; n <= 300; n++) {
      run.Begin("aead key of %zu bytes", n);
      auto a = s2a::aead_crypter::CreateAesGcmAeadCrypter(rng.Data(n));
      bool made = a.index() == 1 && absl::get<1>(a) != nullptr;
      run.Check(made == (n == 16 || n == 32), made ? "invalid-accepted" : "valid-refused", "AES-GCM created: %d", made);
      auto c = s2a::aead_crypter::CreateChachaPolyAeadCrypter(rng.Data(n));
      made = c.index() == 1 && absl::get<1>(c) != nullptr;
      run.Check(made == (n == 32), made ? "invalid-accepted" : "valid-refused", "ChaCha20-Poly1305 created: %d", made);
      run.Nontrivial(Fmt("k%zu", n));
    }
    Crowd(run);
    for (int m = 0; m < 8; m++) {
      run.Begin("proxy mask %d", m);
      Config c = RandomConfig(rng);
      S2AProxy::S2AProxyOptions o = {nullptr, c.client, c.protocol, c.target, nullptr, nullptr, nullptr, nullptr};
      if (m & 1) o.logger = [](const std::string&) {};
      if (m & 2) o.options = Options(c);
      if (m & 4) o.token_manager.reset(new Manager(std::make_shared<Tokens>()));
      auto p = S2AProxy::Create(o);
      run.Check((p != nullptr) == ((m & 3) == 3), p ? "invalid-accepted" : "valid-refused", "proxy created: %d", p != nullptr);
      if (p) { run.Check(!p->IsHandshakeFinished(), "new-proxy", "a new proxy claims a finished handshake"); }
      run.Nontrivial(Fmt("p%d", m));
    }
  }
  // All combinations of the small parameters, secret lengths near the right ones.
  const size_t lens[] = {0, 16, 31, 32, 33, 47, 48, 49, 64};
  size_t step = run.N(3, 1), at = run.seed() % step;
  for (int v : versions) for (int s : suites) for (size_t in : lens) for (size_t out : lens) for (int m = 0; m < 32; m++) {
    if (__builtin_popcount(static_cast<unsigned>(~m & 31)) > 1 && (at++ % step)) continue;
    if (__builtin_popcount(static_cast<unsigned>(~m & 31)) > 2 && !run.thorough()) continue;
    P32 p;
    p.version = v; p.suite = s; p.in = in; p.out = out;
    p.url = m & 1; p.logger = m & 2; p.sender = m & 4; p.alloc = m & 8; p.destroy = m & 16;
    bool near = (v == 1) + ValidSuite(s) + (p.in == p.out) >= 2;
    if (!near && rng.Chance(3, 4)) continue;
    if (m >= 24) OneCrypter(run, rng, p);
    if (m & 4) OneFrame(run, rng, p);
    if (run.TooMany()) return;
  }
}

// Many connections at once, and many one after another: each stays usable as
// long as it lives.
void Crowd(Run& run) {
  struct Member { ref::Aead a; Bytes is, os; uint64_t q; std::unique_ptr<S2ACrypter> c; std::unique_ptr<Framed> f; };
  Rng rng(run.seed() * 79 + 32);
  const size_t total = run.Many(1500), alive = std::min<size_t>(total / 2, 4000);
  std::vector<Member> crowd(alive);
  auto use = [&](Member& m) {
    if (m.c) Works(run, m.c.get(), m.a, m.is, m.os, m.q, m.q, rng);
    else if (m.f && m.f->f) {
      ref::Tls13Half in(m.a, m.is, m.q), out(m.a, m.os, m.q);
      Bytes pt = rng.Data(9), rec = in.Protect(23, pt), got;
      auto s = m.f->f->Protect({{pt.data(), pt.size()}});
      for (auto& b : s.bytes) { got.insert(got.end(), static_cast<uint8_t*>(b.iov_base), static_cast<uint8_t*>(b.iov_base) + b.iov_len); m.f->mem->Free(b); }
      run.Check(s.status.ok() && got == out.Protect(23, pt), "created-unusable", "a frame protector among many does not send what its peer expects");
      auto u = m.f->f->Unprotect({{rec.data(), rec.size()}});
      got.clear();
      for (auto& b : u.bytes) { got.insert(got.end(), static_cast<uint8_t*>(b.iov_base), static_cast<uint8_t*>(b.iov_base) + b.iov_len); m.f->mem->Free(b); }
      run.Check(u.status.ok() && got == pt, "created-unusable", "a frame protector among many does not receive");
    }
    m.q++;
  };
  for (size_t i = 0; i < total && !run.TooMany(); i++) {
    Member& m = crowd[i < alive ? i : rng.Below(alive)];
    if (i % 64 == 0) run.Begin("connection %zu of a crowd of %zu", i, std::min(i, alive));
    if (i >= alive && rng.Chance(1, 4)) use(m);  // before it goes
    m.a = kAeads[rng.Below(3)];
    m.is = rng.Key(SecretSize(m.a));
    m.os = rng.Key(SecretSize(m.a));
    m.q = rng.Number(8);
    m.c.reset();
    m.f.reset();
    bool made;
    if (rng.Chance(1, 2)) {
      Conn k = Make(m.a, m.is, m.os, m.q, m.q, i);
      made = k.c != nullptr;
      m.c = std::move(k.c);
    } else {
      m.f = MakeFramed(m.a, m.is, m.os, m.q, m.q, [](const std::string&) {});
      made = m.f->f != nullptr;
    }
    if (!run.Check(made, "valid-refused", "connection %zu is not created", i)) return;
    if (rng.Chance(1, 3)) use(m);
    run.Count("crowd_created");
  }
  for (size_t i = 0; i < 2 * alive && !run.TooMany(); i++) { if (i % 64 == 0) run.Begin("use %zu of a crowd", i); use(crowd[i < alive ? i : rng.Below(alive)]); }
  run.Nontrivial(Fmt("crowd%zu", total));
}

// ------------------------------------------------------------------ C33
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
size_t Live() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }

// Repeats one period of operations and compares what is allocated after a
// few periods with what is allocated after many.
template <class F>
void Steady(Run& run, const char* what, size_t periods, size_t ops, F period) {
  run.Begin("%s, seed %llu", what, static_cast<unsigned long long>(run.seed()));
  size_t warm = 4;
  for (size_t i = 0; i < warm; i++) if (!period()) { run.Check(false, "workload", "an operation of the period did not behave"); return; }
  size_t before = Live(), peak = 0;
  for (size_t i = 0; i < periods; i++) {
    if (!period()) { run.Check(false, "workload", "an operation of the period did not behave"); return; }
    peak = std::max(peak, Live());
  }
  size_t after = Live();
  run.Count("periods", periods);
  run.Count("operations", periods * ops);
  run.Nontrivial(Fmt("%s %llu", what, static_cast<unsigned long long>(run.seed())));
  run.Sample(Fmt("%s: %zu operations, %zu bytes live before, %zu after", what, periods * ops, before, after));
  run.Check(after <= before + 256, "grows", "%zu bytes more are held after %zu further operations", after - before, periods * ops);
  run.Check(peak <= before + (1 << 20), "grows", "memory peaked %zu bytes above the steady state", peak - before);
}

void Memory(Run& run) {
  run.Rule("distinct (kind of history, seed)");
  Rng rng(run.seed() * 131 + 33);
  size_t periods = run.N(200, 2000);
  for (ref::Aead a : kAeads) {
    // The record layer: everything a peer can send for ever without ending the connection.
    Conn k = Make(rng, a);
    // One period, fixed for all: sizes and kinds do not change from one to the next.
    struct Op { int kind; Bytes data; size_t cut; };
    std::vector<Op> ops;
    for (size_t i = 0; i < 24; i++) ops.push_back({static_cast<int>(i < 12 ? i : rng.Below(12)), rng.Data(rng.Chance(1, 6) ? 16384 - rng.Below(40) : 1 + rng.Below(400)), rng.Below(1000)});
    Bytes last;
    auto period = [&]() {
      bool good = true;
      for (auto& o : ops) {
        Bytes d = o.data;
        auto Send = [&](uint8_t type, const Bytes& c) { last = k.in->Protect(type, c); return Deliver(k.c.get(), last).code; };
        switch (o.kind) {
          case 0: case 1: { auto c = Send(23, d); good &= c == Code::OK; break; }
          case 2: {  // a whole ticket
            d.resize(std::min<size_t>(d.size(), 16000));
            good &= Send(22, Msg(4, d)) == Code::OK; break;
          }
          case 3: {  // a ticket over several records
            Bytes m = Msg(4, d);
            size_t cut = 1 + o.cut % (m.size() - 1);
            good &= Send(22, Bytes(m.begin(), m.begin() + cut)) == Code::OK;
            good &= Send(22, Bytes(m.begin() + cut, m.end())) == Code::OK;
            break;
          }
          case 4: good &= Send(22, Msg(24, Bytes{static_cast<uint8_t>(o.cut & 1)})) == Code::OK; k.in->KeyUpdate(); break;
          case 5: {  // a key update over two records
            Bytes m = Msg(24, Bytes{0});
            size_t cut = 1 + o.cut % (m.size() - 1);
            good &= Send(22, Bytes(m.begin(), m.begin() + cut)) == Code::OK;
            good &= Send(22, Bytes(m.begin() + cut, m.end())) == Code::OK;
            k.in->KeyUpdate();
            break;
          }
          case 6: good &= Send(21, Bytes{1, 90}) == Code::ALERT_OTHER; break;
          case 7: {  // forged
            Bytes r = k.in->Protect(23, d);
            r[5 + o.cut % (r.size() - 5)] ^= 1;
            good &= Deliver(k.c.get(), r).code != Code::OK;
            break;
          }
          case 8: {  // refused for its header: the position is not consumed
            Bytes r = k.in->Protect(23, d);
            k.in->set_seq(k.in->seq() - 1);
            r[1] = 9;
            good &= Deliver(k.c.get(), r).code != Code::OK;
            break;
          }
          case 9: {
            Bytes rec(d.size() + 22);
            auto st = k.c->Protect(RT::APPLICATION_DATA, {{d.data(), d.size()}}, {rec.data(), rec.size()});
            good &= st.GetCode() == Code::OK;
            break;
          }
          case 10: {  // refused
            Bytes rec(d.size() + 21);
            good &= k.c->Protect(RT::APPLICATION_DATA, {{d.data(), d.size()}}, {rec.data(), rec.size()}).GetCode() != Code::OK;
            Bytes big(16385), room(17000);
            good &= k.c->Protect(RT::APPLICATION_DATA, {{big.data(), big.size()}}, {room.data(), room.size()}).GetCode() != Code::OK;
            break;
          }
          case 11: good &= k.c->UpdateOutboundKey().ok(); break;
        }
      }
      Log().calls.clear();
      Log().calls.shrink_to_fit();
      last.clear();
      last.shrink_to_fit();
      return good;
    };
    Steady(run, Fmt("record layer %s", Name(a)).c_str(), periods, ops.size(), period);

    // The same for each kind alone.
    auto all = ops;
    for (int kind = 0; kind < 12; kind++) {
      ops.clear();
      for (auto& o : all) if (o.kind == kind) { ops.push_back(o); while (ops.size() < 6) ops.push_back(o); break; }
      Steady(run, Fmt("record layer %s, only kind %d", Name(a), kind).c_str(), periods, ops.size(), period);
    }

    // AEAD crypters and HKDF.
    Bytes key = rng.Data(ref::KeySize(a)), nonce = rng.Data(12), pt = rng.Data(500);
    auto v = a == ref::Aead::kChachaPoly ? s2a::aead_crypter::CreateChachaPolyAeadCrypter(key) : s2a::aead_crypter::CreateAesGcmAeadCrypter(key);
    if (v.index() == 1) {
      auto c = std::move(absl::get<1>(v));
      Steady(run, Fmt("aead %s", Name(a)).c_str(), periods, 8, [&]() {
        bool good = true;
        Bytes ct(516), back(501);
        for (int i = 0; i < 4; i++) {
          good &= c->Encrypt(nonce, {}, {{pt.data(), pt.size()}}, {ct.data(), ct.size()}).GetStatus().ok();
          if (i & 1) ct[7] ^= 1;
          good &= c->Decrypt(nonce, {}, {{ct.data(), ct.size()}}, {back.data(), back.size()}).GetStatus().ok() == !(i & 1);
          good &= !c->Decrypt(nonce, {}, {{ct.data(), 3}}, {back.data(), back.size()}).GetStatus().ok();
          good &= !c->Encrypt(Bytes(3), {}, {{pt.data(), pt.size()}}, {ct.data(), ct.size()}).GetStatus().ok();
        }
        return good;
      });
    }
    Steady(run, "hkdf", periods, 3, [&]() {
      Bytes out(100), big(255 * 48 + 1);
      bool good = s2a::hkdf::HkdfDeriveSecret(s2a::hkdf::HashFunction::SHA384_hash_function, Bytes(48, 7), nonce, out).ok();
      good &= !s2a::hkdf::HkdfDeriveSecret(s2a::hkdf::HashFunction::SHA384_hash_function, Bytes(48, 7), nonce, big).ok();
      good &= !s2a::hkdf::HkdfDeriveSecret(s2a::hkdf::HashFunction::SHA256_hash_function, Bytes(4, 7), nonce, out).ok();
      return good;
    });

    // Frame protector.
    Bytes is = rng.Data(SecretSize(a)), os = rng.Data(SecretSize(a));
    auto f = MakeFramed(a, is, os, 0, 0, [](const std::string&) {});
    ref::Tls13Half peer(a, is, 0);
    if (run.Check(f->f != nullptr, "workload", "no frame protector")) {
      Bytes data = rng.Data(40000);
      size_t n1 = 1 + rng.Below(30000), n2 = 1 + rng.Below(16000);
      Steady(run, Fmt("frame protector %s", Name(a)).c_str(), periods, 5, [&]() {
        bool good = true;
        auto r = f->f->Protect({{data.data(), n1}});
        good &= r.status.ok();
        for (auto& b : r.bytes) f->mem->Free(b);
        Bytes s = peer.Protect(23, Bytes(data.begin(), data.begin() + n2)), s2 = peer.Protect(22, Msg(4, Bytes(100, 5))), s3 = peer.Protect(23, Bytes(data.begin(), data.begin() + 10));
        s.insert(s.end(), s2.begin(), s2.end());
        s.insert(s.end(), s3.begin(), s3.end());
        auto u = f->f->Unprotect({{s.data(), s.size()}});
        good &= u.status.ok();
        for (auto& b : u.bytes) f->mem->Free(b);
        auto w = f->f->Unprotect({{s.data(), 4}});
        good &= !w.status.ok();
        for (auto& b : w.bytes) f->mem->Free(b);
        Bytes bad = peer.Protect(23, Bytes(10));
        bad[9] ^= 1;
        auto w2 = f->f->Unprotect({{bad.data(), bad.size()}});
        good &= !w2.status.ok();
        for (auto& b : w2.bytes) f->mem->Free(b);
        f->mem->calls = 0;
        f->mem->fail_at = 1;
        auto w3 = f->f->Protect({{data.data(), n1}});
        good &= !w3.status.ok();
        for (auto& b : w3.bytes) f->mem->Free(b);
        f->mem->fail_at = 0;
        good &= f->mem->live.empty();
        Log().calls.clear();
        Log().calls.shrink_to_fit();
        return good;
      });
    }
  }
  // The proxy: a handshake of any number of rounds.
  for (int role = 0; role < 2; role++) {
    Config c = RandomConfig(rng);
    c.client = role == 0;
    c.suites = {0, 1};
    c.locals.clear();
    c.locals.push_back({2, "one"});
    if (!c.client) c.locals.push_back({1, "two"});
    auto tok = std::make_shared<Tokens>();
    for (auto& l : c.locals) tok->token[l] = Word(rng, 30);
    for (int i = 0; i < 40; i++) tok->token[{2, Fmt("other-%d", i)}] = Word(rng, 30);
    auto p = MakeProxy(c, tok);
    std::string bytes = Str(rng.Data(700));
    p->GetBytesForS2A(c.client ? nullptr : Buf(bytes));
    Resp ok;
    ok.frames = Str(rng.Data(900));
    Resp err = ok;
    err.code = 5;
    err.details = "no";
    int turn = 0;
    Steady(run, role ? "proxy server" : "proxy client", periods, 12, [&]() {
      bool good = true;
      for (int i = 0; i < 4; i++) {
        Resp r = ok;
        // Without a token for what the S2A chose, with one, and with none chosen.
        if (i == 1) { r.has_local = true; r.local = {2, Fmt("other-%d", turn++ % 40)}; }
        if (i == 2) { r.has_local = true; r.local = {3, Fmt("unknown-%d", turn % 40)}; }
        good &= p->GetBytesForPeer(Buf(r.Encode())).status.ok();
        good &= !p->GetBytesForPeer(Buf(err.Encode())).status.ok();
        good &= !p->GetBytesForPeer(Buf("\xff\xff\xff")).status.ok();
        good &= p->GetBytesForS2A(Buf(bytes)).status.ok();
        good &= !p->GetBytesForS2A(nullptr).status.ok();
      }
      tok->given.clear();
      return good;
    });
    // Finishing again and again, with contexts and protectors taken each time.
    Rng fixed(5);
    Resp fin = GoodResult(fixed);
    fin.version = 1;
    Steady(run, "proxy results", periods, 3, [&]() {
      bool good = p->GetBytesForPeer(Buf(fin.Encode())).status.ok();
      auto cx = p->GetS2AContext();
      auto fp = p->CreateFrameProtector();
      return good && fp.ok();
    });
  }
  // Creating and destroying leaves nothing.
  Steady(run, "create and destroy", periods, 6, [&]() {
    Rng r2(9);
    bool good = true;
    for (ref::Aead a : kAeads) {
      Conn k = Make(r2, a);
      good &= k.c != nullptr;
      Bytes m = Msg(4, Bytes(50, 1));
      good &= Deliver(k.c.get(), k.in->Protect(22, m)).code == Code::OK;
      good &= Deliver(k.c.get(), k.in->Protect(22, Bytes(m.begin(), m.begin() + 20))).code == Code::OK;
      Conn bad = Make(a, Bytes(SecretSize(a)), Bytes(7), 0, 0);
      good &= bad.c == nullptr;
    }
    Log().calls.clear();
    Log().calls.shrink_to_fit();
    return good;
  });
}

}  // namespace

int Workload(Run& run) {
  const std::string& p = run.property();
  if (p == "C31") Diagnostics(run);
  else if (p == "C32") Creation(run);
  else if (p == "C33") Memory(run);
  else return 3;
  return 0;
}
