// C35: the work of a call.  Every branch taken in s2a-core (coverage
// instrumentation), every byte copied and every byte allocated is counted, so
// that "in proportion to the input" is an observation, not a timing.
#include <openssl/err.h>

#include <cstdlib>
#include <new>

#include "include/s2a_frame_protector.h"
#include "px.h"
#include "src/crypto/hkdf.h"
#include "src/crypto/s2a_aead_crypter.h"
#include "src/proto/upb-generated/proto/s2a.upb.h"
#include "src/record_protocol/handshake_message_handler.h"
#include "src/record_protocol/s2a_ticket_sender.h"
#include "upb/upb.hpp"

#define PLAIN __attribute__((no_sanitize("coverage")))
namespace { uint64_t g_steps, g_copied, g_allocated; }
extern "C" {
PLAIN void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { for (; a < b; a++) *a = 1; }
PLAIN void __sanitizer_cov_trace_pc_guard(uint32_t*) { g_steps++; }
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
PLAIN void* __wrap_memcpy(void* d, const void* s, size_t n) { g_copied += n; return __real_memcpy(d, s, n); }
PLAIN void* __wrap_memmove(void* d, const void* s, size_t n) { g_copied += n; return __real_memmove(d, s, n); }
PLAIN void* __wrap_memset(void* d, int c, size_t n) { g_copied += n; return __real_memset(d, c, n); }
PLAIN int __wrap_memcmp(const void* a, const void* b, size_t n) { g_copied += n; return __real_memcmp(a, b, n); }
}
PLAIN void* operator new(size_t n) { g_allocated += n; void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
PLAIN void* operator new[](size_t n) { return operator new(n); }
PLAIN void operator delete(void* p) noexcept { free(p); }
PLAIN void operator delete[](void* p) noexcept { free(p); }
PLAIN void operator delete(void* p, size_t) noexcept { free(p); }
PLAIN void operator delete[](void* p, size_t) noexcept { free(p); }

using namespace px;
using s2a::frame_protector::S2AFrameProtector;
namespace {
struct Work { uint64_t v[3]; };
const char* const kWhat[3] = {"branches", "bytes copied", "bytes allocated"};
Work Now() { return {{g_steps, g_copied, g_allocated}}; }
Work Since(const Work& w) { Work n = Now(); for (int i = 0; i < 3; i++) n.v[i] -= w.v[i]; return n; }

class Meter {
 public:
  explicit Meter(Run& run) : run_(run) {}
  // f(n) does the call on an input of size n and returns its work; it must
  // grow in proportion at most.  A log factor is within the tolerance.
  template <class F>
  void Linear(const std::string& what, size_t most, F f) {
    if (run_.TooMany()) return;
    Work w[3];
    size_t n[3] = {most / 16, most / 4, most};
    for (int i = 0; i < 3; i++) {
      run_.Begin("%s, size %zu", what.c_str(), n[i]);
      if (i == 0) f(n[i]);  // first-time costs
      w[i] = f(n[i]);
      run_.Nontrivial(Fmt("%s/%zu", what.c_str(), n[i]));
      run_.Count("branches_counted", w[i].v[0]);
      run_.Count("bytes_copied_counted", w[i].v[1]);
      run_.Count("bytes_allocated_counted", w[i].v[2]);
    }
    run_.Check(w[2].v[0] > 0, "hook-missing", "no branch was counted");
    for (int m = 0; m < 3; m++) {
      // Growth from the small size on; what is fixed cancels out.
      double a = static_cast<double>(w[1].v[m]) - static_cast<double>(w[0].v[m]), b = static_cast<double>(w[2].v[m]) - static_cast<double>(w[1].v[m]);
      // Linear: b = 4a.  Quadratic: b = 16a.
      run_.Check(b <= 4 * 1.8 * std::max(a, 0.0) + 3.0 * static_cast<double>(most), "out-of-proportion", "%s: %.0f, %.0f, %.0f for sizes %zu, %zu, %zu", kWhat[m], static_cast<double>(w[0].v[m]),
                 static_cast<double>(w[1].v[m]), static_cast<double>(w[2].v[m]), n[0], n[1], n[2]);
    }
    run_.Sample(Fmt("%s: %llu branches, %llu bytes copied, %llu allocated for size %zu", what.c_str(), static_cast<unsigned long long>(w[2].v[0]), static_cast<unsigned long long>(w[2].v[1]),
                    static_cast<unsigned long long>(w[2].v[2]), most));
  }
  // f() is one call of a history and returns its work; the last thousand calls
  // together must not cost more than an early thousand.
  template <class F>
  void Steady(const std::string& what, size_t calls, F f) {
    if (run_.TooMany()) return;
    Work early{}, late{};
    for (size_t i = 0; i < calls; i++) {
      if (i % 512 == 0) run_.Begin("%s, call %zu", what.c_str(), i);
      Work w = f();
      for (int m = 0; m < 3; m++) {
        if (i >= 200 && i < 1200) early.v[m] += w.v[m];
        if (i >= calls - 1000) late.v[m] += w.v[m];
      }
    }
    run_.Count("history_calls", calls);
    run_.Nontrivial("h " + what);
    for (int m = 0; m < 3; m++)
      run_.Check(static_cast<double>(late.v[m]) <= 1.6 * static_cast<double>(early.v[m]) + 20000, "grows-with-history", "%s per thousand calls: %llu early, %llu after %zu calls", kWhat[m],
                 static_cast<unsigned long long>(early.v[m]), static_cast<unsigned long long>(late.v[m]), calls);
  }
 private:
  Run& run_;
};

std::vector<Iovec> Ones(Bytes& b) { std::vector<Iovec> v; v.reserve(b.size()); for (auto& x : b) v.push_back({&x, 1}); return v; }
std::vector<Iovec> Empties(size_t n, Bytes& b, bool before) {
  std::vector<Iovec> v(n, Iovec{nullptr, 0});
  v.insert(before ? v.end() : v.begin(), Iovec{b.data(), b.size()});
  return v;
}
Iovec Whole(Bytes& b) { return {b.data(), b.size()}; }

void Aead(Run& run, Meter& m, Rng& rng) {
  using s2a::aead_crypter::S2AAeadCrypter;
  for (ref::Aead a : kAeads) {
    Bytes key = rng.Data(ref::KeySize(a)), nonce = rng.Data(12);
    auto made = a == ref::Aead::kChachaPoly ? s2a::aead_crypter::CreateChachaPolyAeadCrypter(key) : s2a::aead_crypter::CreateAesGcmAeadCrypter(key);
    if (!run.Check(made.index() == 1, "create", "crypter not created")) return;
    S2AAeadCrypter* c = absl::get<1>(made).get();
    ref::Sealer ref(a, key);
    auto call = [&](bool enc, std::vector<Iovec> aad, std::vector<Iovec> in, size_t room, bool good) {
      Bytes out(room + 1);
      Work w = Now();
      auto s = enc ? c->Encrypt(nonce, aad, in, {out.data(), room}) : c->Decrypt(nonce, aad, in, {out.data(), room});
      w = Since(w);
      run.Check(s.GetStatus().ok() == good, "verdict", "%s", std::string(s.GetStatus().message()).c_str());
      ERR_clear_error();
      return w;
    };
    std::string p = Name(a);
    m.Linear(p + " encrypt n bytes", 1 << 20, [&](size_t n) { Bytes d(n, 1); return call(true, {}, {Whole(d)}, n + 16, true); });
    m.Linear(p + " encrypt n buffers", 1 << 16, [&](size_t n) { Bytes d(n, 1); return call(true, {}, Ones(d), n + 16, true); });
    m.Linear(p + " encrypt with n empty buffers", 1 << 16, [&](size_t n) { Bytes d(9, 1); return call(true, Empties(n, d, true), Empties(n, d, n % 2), 25, true); });
    m.Linear(p + " encrypt with n buffers of AAD", 1 << 16, [&](size_t n) { Bytes d(n, 1), e(3); return call(true, Ones(d), {Whole(e)}, 19, true); });
    for (bool good : {true, false}) {
      auto sealed = [&](const Bytes& aad, const Bytes& pt) { Bytes ct = ref.Seal(nonce, aad, pt); if (!good) ct[0] ^= 1; return ct; };
      std::string q = p + (good ? " decrypt" : " decrypt forged");
      m.Linear(q + " n bytes", 1 << 20, [&](size_t n) { Bytes ct = sealed({}, Bytes(n, 1)); return call(false, {}, {Whole(ct)}, n, good); });
      m.Linear(q + " n buffers", 1 << 16, [&](size_t n) { Bytes ct = sealed({}, Bytes(n, 1)); return call(false, {}, Ones(ct), n, good); });
      m.Linear(q + " with n empty buffers", 1 << 16, [&](size_t n) { Bytes d(9, 1), ct = sealed(d, d); return call(false, Empties(n, d, false), Empties(n, ct, n % 2), 9, good); });
      m.Linear(q + " with n buffers of AAD", 1 << 16, [&](size_t n) { Bytes d(n, 1), ct = sealed(d, {1, 2}); return call(false, Ones(d), {Whole(ct)}, 2, good); });
    }
  }
  for (auto h : {s2a::hkdf::HashFunction::SHA256_hash_function, s2a::hkdf::HashFunction::SHA384_hash_function}) {
    auto hkdf = [&](size_t prk, size_t info, size_t out) {
      Bytes p(prk, 1), i(info, 2), o(out);
      Work w = Now();
      auto s = s2a::hkdf::HkdfDeriveSecret(h, p, i, o);
      w = Since(w);
      run.Check(s.ok(), "verdict", "derivation fails");
      return w;
    };
    m.Linear("derive n bytes", 8000, [&](size_t n) { return hkdf(64, 20, n); });
    m.Linear("derive from n bytes of info", 1 << 20, [&](size_t n) { return hkdf(64, n, 64); });
    m.Linear("derive from a PRK of n bytes", 1 << 20, [&](size_t n) { return hkdf(n, 9, 64); });
  }
}

void Record(Run& run, Meter& m, Rng& rng) {
  for (ref::Aead a : kAeads) {
    std::string p = Name(a);
    auto protect = [&](std::vector<Iovec> in, size_t room) {
      Conn k = Make(rng, a);
      Bytes out(room);
      Work w = Now();
      auto s = k.c->Protect(S2ACrypter::RecordType::APPLICATION_DATA, in, {out.data(), room});
      w = Since(w);
      run.Check(s.GetCode() == Code::OK, "verdict", "protect fails: %d", static_cast<int>(s.GetCode()));
      return w;
    };
    m.Linear(p + " protect n bytes", 16384, [&](size_t n) { Bytes d(n, 1); return protect({Whole(d)}, n + 22); });
    m.Linear(p + " protect n buffers", 16384, [&](size_t n) { Bytes d(n, 1); return protect(Ones(d), n + 22); });
    m.Linear(p + " protect with n empty buffers", 1 << 18, [&](size_t n) { Bytes d(9, 1); return protect(Empties(n, d, n % 2), 31); });
    auto unprotect = [&](Conn& k, Bytes rec, Code want, int cut, size_t empties = 0) {
      Bytes out(rec.size());
      Iovec body{rec.data() + 5, rec.size() - 5};
      std::vector<Iovec> in;
      if (cut) for (size_t i = 5; i < rec.size(); i++) in.push_back({&rec[i], 1});
      else in.push_back(body);
      in.resize(in.size() + empties, Iovec{nullptr, 0});
      Work w = Now();
      auto s = k.c->Unprotect({rec.data(), 5}, in, {out.data(), out.size()});
      w = Since(w);
      run.Check(s.GetCode() == want, "verdict", "unprotect gives %d, not %d", static_cast<int>(s.GetCode()), static_cast<int>(want));
      return w;
    };
    m.Linear(p + " unprotect n bytes", 16384, [&](size_t n) { Conn k = Make(rng, a); return unprotect(k, k.in->Protect(23, Bytes(n, 1)), Code::OK, 0); });
    m.Linear(p + " unprotect n buffers", 16384, [&](size_t n) { Conn k = Make(rng, a); return unprotect(k, k.in->Protect(23, Bytes(n, 1)), Code::OK, 1); });
    m.Linear(p + " unprotect with n empty buffers", 1 << 18, [&](size_t n) { Conn k = Make(rng, a); return unprotect(k, k.in->Protect(23, Bytes(9, 1)), Code::OK, 0, n); });
    m.Linear(p + " unprotect n bytes of padding", 16384, [&](size_t n) { Conn k = Make(rng, a); return unprotect(k, k.in->Protect(23, {}, n), Code::OK, 0); });
    m.Linear(p + " unprotect n bytes of nothing but padding", 16384, [&](size_t n) { Conn k = Make(rng, a); return unprotect(k, k.in->ProtectInner(Bytes(n, 0)), Code::INVALID_RECORD, 0); });
    m.Linear(p + " unprotect a forgery of n buffers", 16384, [&](size_t n) { Conn k = Make(rng, a); Bytes r = k.in->Protect(23, Bytes(n, 1)); r.back() ^= 1; return unprotect(k, r, Code::INTERNAL_ERROR, 1); });
    m.Linear(p + " unprotect n tickets in one record", 3072, [&](size_t n) { Conn k = Make(rng, a); Bytes t; for (size_t i = 0; i < n; i++) t = Cat(t, Msg(4, {1})); return unprotect(k, k.in->Protect(22, t), Code::OK, 0); });
    // A ticket of n records, then data, then the end.
    m.Linear(p + " a ticket of n records", 4096, [&](size_t n) {
      Conn k = Make(rng, a);
      Bytes t = Msg(4, Bytes(n, 5));
      Work sum{};
      auto add = [&](const Work& w) { for (int i = 0; i < 3; i++) sum.v[i] += w.v[i]; };
      for (uint8_t b : t) add(unprotect(k, k.in->Protect(22, Bytes(1, b)), Code::OK, 0));
      add(unprotect(k, k.in->Protect(23, {1}), Code::OK, 0));
      Work w = Now();
      k.c.reset();
      add(Since(w));
      return sum;
    });
    Conn k = Make(rng, a);
    const size_t calls = run.N(30000, 200000);
    unsigned i = 0;
    m.Steady(p + " a connection's history", calls, [&] {
      Bytes d(20, 1), rec(64);
      Work w{};
      auto add = [&](const Work& x) { for (int j = 0; j < 3; j++) w.v[j] += x.v[j]; };
      Work at = Now();
      auto s = k.c->Protect(S2ACrypter::RecordType::APPLICATION_DATA, {Whole(d)}, {rec.data(), 64});
      add(Since(at));
      run.Check(s.GetCode() == Code::OK, "verdict", "protect fails");
      k.out->Protect(23, d);
      switch (i++ % 6) {
        case 0: add(unprotect(k, k.in->Protect(23, d), Code::OK, 0)); break;
        case 1: add(unprotect(k, k.in->Protect(22, Msg(4, d)), Code::OK, 0)); break;
        case 2: add(unprotect(k, k.in->Protect(22, Msg(24, {0})), Code::OK, 0)); k.in->KeyUpdate(); break;
        case 3: add(unprotect(k, k.in->Protect(21, {1, 90}), Code::ALERT_OTHER, 0)); break;
        case 4: { Bytes r = k.in->Protect(23, d); r.back() ^= 1; add(unprotect(k, r, Code::INTERNAL_ERROR, 0)); break; }
        case 5: at = Now(); run.Check(k.c->UpdateOutboundKey().ok(), "verdict", "update fails"); add(Since(at)); k.out->KeyUpdate(); break;
      }
      return w;
    });
  }
}

void Messages(Run& run, Meter& m, Rng&) {
  using Handler = s2a::handshake_message_handler::HandshakeMessageHandler;
  auto feed = [&](const Bytes& stream, size_t piece, bool retrieve) {
    std::unique_ptr<Handler> h(new Handler());
    Work w = Now();
    bool ok = true;
    for (size_t at = 0; at < stream.size(); at += piece) ok &= h->ProcessHandshakeMessage(stream.data() + at, std::min(piece, stream.size() - at)).index() == 1;
    if (retrieve) ok &= h->GetStoredTickets().index() == 1;
    h.reset();
    run.Check(ok, "verdict", "messages refused");
    return Since(w);
  };
  auto tickets = [](size_t n, size_t each) { Bytes t; for (size_t i = 0; i < n; i++) { Bytes one = Msg(4, Bytes(each, 7)); t.insert(t.end(), one.begin(), one.end()); } return t; };
  m.Linear("n tickets in one piece", 1 << 16, [&](size_t n) { return feed(tickets(n, 3), 1 << 30, true); });
  m.Linear("n tickets in small pieces", 1 << 15, [&](size_t n) { return feed(tickets(n, 3), 2, true); });
  m.Linear("a ticket of n bytes", 1 << 20, [&](size_t n) { return feed(tickets(1, n), 1 << 30, true); });
  m.Linear("a ticket of n pieces", 1 << 16, [&](size_t n) { return feed(tickets(1, n), 1, true); });
  m.Linear("five tickets of n pieces", 1 << 14, [&](size_t n) { return feed(tickets(5, n), 1, true); });
  m.Linear("ignored tickets of n pieces", 1 << 15, [&](size_t n) { return feed(Cat(tickets(5, 1), tickets(1, n)), 1, false); });
  m.Linear("a KeyUpdate of n pieces", 1 << 16, [&](size_t n) { return feed(Msg(24, Bytes(n, 0)), 1, false); });
  std::unique_ptr<Handler> h(new Handler());
  unsigned i = 0;
  m.Steady("a stream of messages", run.N(60000, 300000), [&] {
    Bytes t = i++ % 3 ? Msg(4, {1, 2, 3}) : Msg(24, {1});
    Work w = Now();
    bool ok = h->ProcessHandshakeMessage(t.data(), 4).index() == 1 && h->ProcessHandshakeMessage(t.data() + 4, t.size() - 4).index() == 1;
    w = Since(w);
    run.Check(ok, "verdict", "messages refused");
    return w;
  });
}

struct Fp {
  std::string url = "s2a";
  Identity ident = Identity::FromHostname("h");
  std::unique_ptr<S2AFrameProtector> f;
  std::unique_ptr<ref::Tls13Half> in, out;
};
std::unique_ptr<Fp> MakeFp(Rng& rng, ref::Aead a) {
  std::unique_ptr<Fp> k(new Fp);
  Bytes is = rng.Data(SecretSize(a)), os = rng.Data(SecretSize(a));
  S2AFrameProtector::S2AFrameProtectorOptions o = {TlsVersion::TLS1_3, SuiteOf(a), is, os, 0, 0, k->url, k->ident, 5, nullptr, nullptr,
                                                   [](size_t n) -> Iovec { return {new uint8_t[n ? n : 1], n}; }, [](Iovec v) { delete[] static_cast<uint8_t*>(v.iov_base); }, [](const std::string&) {}};
  auto r = S2AFrameProtector::Create(o);
  if (r.ok()) k->f = std::move(*r);
  k->in.reset(new ref::Tls13Half(a, is, 0));
  k->out.reset(new ref::Tls13Half(a, os, 0));
  return k;
}

void Frames(Run& run, Meter& m, Rng& rng) {
  ref::Aead a = kAeads[run.seed() % 3];
  auto drop = [](std::vector<Iovec>& v) { for (auto& x : v) delete[] static_cast<uint8_t*>(x.iov_base); };
  auto protect = [&](std::vector<Iovec> in) {
    auto k = MakeFp(rng, a);
    Work w = Now();
    auto r = k->f->Protect(in);
    w = Since(w);
    run.Check(r.status.ok() && k->f->NumberBytesToProtect(in) == r.bytes[0].iov_len, "verdict", "protect fails");
    drop(r.bytes);
    return w;
  };
  m.Linear("frame protect n bytes", 1 << 21, [&](size_t n) { Bytes d(n, 1); return protect({Whole(d)}); });
  m.Linear("frame protect n buffers", 1 << 18, [&](size_t n) { Bytes d(n, 1); return protect(Ones(d)); });
  m.Linear("frame protect with n empty buffers", 1 << 18, [&](size_t n) { Bytes d(40000, 1); return protect(Empties(n, d, true)); });
  auto unprotect = [&](Fp& k, std::vector<Iovec> in, bool good) {
    Work w = Now();
    auto r = k.f->Unprotect(in);
    w = Since(w);
    run.Check(r.status.ok() == good, "verdict", "unprotect: %s", std::string(r.status.message()).c_str());
    drop(r.bytes);
    return w;
  };
  auto stream = [&](Fp& k, size_t n, int type) {
    Bytes s;
    for (size_t i = 0; i < n; i++) { Bytes r = k.in->Protect(static_cast<uint8_t>(type), type == 22 ? Msg(4, {1}) : Bytes(1, 1)); s.insert(s.end(), r.begin(), r.end()); }
    return s;
  };
  m.Linear("frame unprotect n records in one buffer", 1 << 14, [&](size_t n) { auto k = MakeFp(rng, a); Bytes s = stream(*k, n, 23); return unprotect(*k, {Whole(s)}, true); });
  m.Linear("frame unprotect n records in tiny buffers", 1 << 13, [&](size_t n) { auto k = MakeFp(rng, a); Bytes s = stream(*k, n, 23); return unprotect(*k, Ones(s), true); });
  m.Linear("frame unprotect n records, each in a buffer", 1 << 14, [&](size_t n) {
    auto k = MakeFp(rng, a);
    Bytes s = stream(*k, n, 23);
    std::vector<Iovec> v;
    for (size_t i = 0; i < n; i++) v.push_back({s.data() + i * (s.size() / n), s.size() / n});
    return unprotect(*k, v, true);
  });
  m.Linear("frame unprotect n records of tickets", 1 << 14, [&](size_t n) { auto k = MakeFp(rng, a); Bytes s = stream(*k, n, 22); return unprotect(*k, {Whole(s)}, true); });
  m.Linear("frame unprotect n good records and a bad one", 1 << 14, [&](size_t n) { auto k = MakeFp(rng, a); Bytes s = stream(*k, n, 23); s.back() ^= 1; return unprotect(*k, {Whole(s)}, false); });
  m.Linear("frame unprotect n good records and a cut one", 1 << 14, [&](size_t n) { auto k = MakeFp(rng, a); Bytes s = stream(*k, n, 23); s.pop_back(); return unprotect(*k, {Whole(s)}, false); });
  m.Linear("frame unprotect with n empty buffers", 1 << 18, [&](size_t n) { auto k = MakeFp(rng, a); Bytes s = stream(*k, 5, 23); return unprotect(*k, Empties(n, s, n % 2), true); });
  m.Linear("frame unprotect one record of n buffers with n empty ones", 16384, [&](size_t n) {
    auto k = MakeFp(rng, a);
    Bytes r = k->in->Protect(23, Bytes(n, 1)), out(n + 40);
    std::vector<Iovec> v;
    for (auto& x : r) { v.push_back({&x, 1}); v.push_back({nullptr, 0}); }
    Iovec o{out.data(), out.size()};
    Work w = Now();
    bool ok = k->f->Unprotect(v, o).ok();
    w = Since(w);
    run.Check(ok, "verdict", "unprotect fails");
    return w;
  });
  auto k = MakeFp(rng, a);
  m.Steady("a frame protector's history", run.N(30000, 200000), [&] {
    Bytes d(20, 1);
    Work w = Now();
    auto r = k->f->Protect({Whole(d)});
    w = Since(w);
    run.Check(r.status.ok(), "verdict", "protect fails");
    drop(r.bytes);
    Bytes s = k->in->Protect(23, d);
    bool bad = rng.Chance(1, 4);
    if (bad) s.back() ^= 1;
    Work u = unprotect(*k, {Whole(s)}, !bad);
    for (int i = 0; i < 3; i++) w.v[i] += u.v[i];
    return w;
  });
}

void Handshakes(Run& run, Meter& m, Rng& rng) {
  auto start = [&](const Config& c, size_t peer, bool tokens) {
    auto t = std::make_shared<Tokens>();
    if (tokens) for (auto& i : c.locals) t->token[i] = "token";
    Work w = Now();
    auto p = MakeProxy(c, t);
    auto s = p->GetBytesForS2A(Buf(std::string(peer, 'p')));
    w = Since(w);
    run.Check(s.status.ok(), "verdict", "start fails: %s", std::string(s.status.message()).c_str());
    return w;
  };
  Config base;
  base.client = false;
  base.protocol = "grpc";
  base.locals = {{2, "local"}};
  auto ids = [](size_t n) { std::vector<Id> v; for (size_t i = 0; i < n; i++) v.push_back({2, "host" + std::to_string(i)}); return v; };
  m.Linear("a start with n local identities and tokens", 4096, [&](size_t n) { Config c = base; c.locals = ids(n); return start(c, 3, true); });
  m.Linear("a start with n ciphersuites", 1 << 14, [&](size_t n) { Config c = base; c.suites.assign(n, 1); return start(c, 3, true); });
  m.Linear("a start with an application protocol of n bytes", 1 << 16, [&](size_t n) { Config c = base; c.protocol = std::string(n, 'a'); return start(c, 3, true); });
  m.Linear("a start with n bytes from the peer", 1 << 18, [&](size_t n) { return start(base, n, true); });
  m.Linear("a start with n target identities", 4096, [&](size_t n) {
    Config c = base;
    c.client = true;
    c.targets = ids(n);
    auto t = std::make_shared<Tokens>();
    Work w = Now();
    auto p = MakeProxy(c, t);
    auto s = p->GetBytesForS2A(nullptr);
    w = Since(w);
    run.Check(s.status.ok(), "verdict", "start fails");
    return w;
  });
  auto answer = [&](const Resp& r, bool good) {
    auto p = MakeProxy(base, std::make_shared<Tokens>());
    p->GetBytesForS2A(nullptr);
    auto b = Buf(r.Encode());
    Work w = Now();
    auto s = p->GetBytesForPeer(std::move(b));
    w = Since(w);
    run.Check(s.status.ok() == good, "verdict", "answer: %s", std::string(s.status.message()).c_str());
    return w;
  };
  m.Linear("an answer with n bytes of frames", 1 << 18, [&](size_t n) { Resp r; r.has_frames = true; r.frames = std::string(n, 'f'); return answer(r, true); });
  m.Linear("an error of n bytes", 1 << 18, [&](size_t n) { Resp r; r.code = 3; r.details = std::string(n, 'e'); return answer(r, false); });
  m.Linear("a result with secrets of n bytes", 1 << 18, [&](size_t n) { Resp r = GoodResult(rng); r.in_key = r.out_key = std::string(n, 'k'); return answer(r, true); });
  m.Linear("a result with texts of n bytes", 1 << 18, [&](size_t n) {
    Resp r = GoodResult(rng);
    r.has_peer = true;
    r.peer = {2, std::string(n, 'h')};
    r.result_local = {2, std::string(n, 'l')};
    r.protocol = std::string(n, 'a');
    r.peer_fp = r.local_fp = std::string(n, 'c');
    return answer(r, true);
  });
  m.Linear("serializing a context with n bytes", 1 << 18, [&](size_t n) {
    s2a::s2a_context::S2AContext c(std::string(n, 'a'), TlsVersion::TLS1_3, Suite::AES_128_GCM_SHA256, Identity::FromHostname(std::string(n, 'h')), Identity::FromHostname("l"),
                                   std::string(n, 'f'), std::string(n, 'g'), false);
    Work w = Now();
    auto s = c.GetSerializedContext();
    bool ok = s.index() == 1 && s2a::s2a_context::GetS2AContextFromSerializedContext(absl::get<1>(s)->data(), absl::get<1>(s)->size()).ok();
    w = Since(w);
    run.Check(ok, "verdict", "context refused");
    return w;
  });
  auto resume = [&](size_t n, size_t each) {
    std::unique_ptr<std::vector<std::unique_ptr<std::string>>> t(new std::vector<std::unique_ptr<std::string>>);
    for (size_t i = 0; i < n; i++) t->emplace_back(new std::string(each, 't'));
    upb::Arena arena;
    s2a_proto_SessionReq* req = s2a_proto_SessionReq_new(arena.ptr());
    Identity id = Identity::FromHostname("h");
    Work w = Now();
    bool ok = s2a::s2a_ticket_sender::PrepareResumptionTicketReq(7, id, t, arena.ptr(), req);
    w = Since(w);
    run.Check(ok, "verdict", "resumption request refused");
    return w;
  };
  m.Linear("a resumption request with n tickets", 1 << 12, [&](size_t n) { return resume(n, 3); });
  m.Linear("a resumption request with a ticket of n bytes", 1 << 18, [&](size_t n) { return resume(1, n); });
  auto t = std::make_shared<Tokens>();
  t->token[{2, "local"}] = "token";
  auto p = MakeProxy(base, t);
  p->GetBytesForS2A(nullptr);
  m.Steady("a handshake's history", run.N(20000, 100000), [&] {
    Resp r;
    r.has_frames = true;
    r.frames = "frames";
    r.code = rng.Chance(1, 4) ? 3 : 0;
    if (rng.Chance(1, 4)) { r.has_local = true; r.local = {2, "local"}; }
    auto b = Buf(r.Encode()), q = Buf("peer");
    Work w = Now();
    p->GetBytesForPeer(std::move(b));
    auto s = p->GetBytesForS2A(std::move(q));
    t->given.clear();
    w = Since(w);
    run.Check(s.status.ok(), "verdict", "next refused");
    return w;
  });
}

void Values(Run& run, Meter& m, Rng&) {
  m.Linear("options with n identities, suites and their copy", 1 << 14, [&](size_t n) {
    std::vector<std::string> text;
    for (size_t i = 0; i < n; i++) text.push_back("host" + std::to_string(i * 7919));
    Work w = Now();
    S2AOptions o;
    for (auto& x : text) { o.add_local_hostname(x); o.add_target_spiffe_id(x); o.add_supported_ciphersuite(Suite::AES_128_GCM_SHA256); }
    auto copy = o.Copy();
    w = Since(w);
    run.Check(copy->local_identities().size() == n && copy->supported_ciphersuites().size() >= n, "verdict", "the copy is not complete");
    return w;
  });
}
}  // namespace

int Workload(Run& run) {
  run.Rule("a case is one call (or one message in pieces) with an input of one of three sizes, or one call of a long history; its branches, bytes copied and bytes allocated "
           "are counted by instrumentation; distinct by call and size");
  Rng rng(run.seed() * 101 + 35);
  Meter m(run);
  Aead(run, m, rng);
  Record(run, m, rng);
  Messages(run, m, rng);
  Frames(run, m, rng);
  Handshakes(run, m, rng);
  Values(run, m, rng);
  return 0;
}
void TapeCase(Run&, Rng&) {}
