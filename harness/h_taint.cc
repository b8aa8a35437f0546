// C37: what secrets and opaque contents may influence.  Runs under Valgrind's
// memcheck.  Key material, application data, ticket bodies, handshake bytes and
// fingerprints are marked undefined; memcheck follows everything computed from
// them and reports when a branch, an address or a length depends on them.  What
// the SSL library hands out as public (ciphertext, tags, verdicts, what is
// needed of an authentic record: its type, padding, message headers) is marked
// defined where it leaves the library.
#include <openssl/err.h>
#include <openssl/evp.h>
#ifdef OPENSSL_IS_BORINGSSL
#include <openssl/aead.h>
#endif
#include <valgrind/memcheck.h>

#include <deque>

#include "include/s2a_frame_protector.h"
#include "px.h"
#include "src/crypto/hkdf.h"
#include "src/crypto/s2a_aead_crypter.h"
#include "src/proto/upb-generated/proto/s2a.upb.h"
#include "src/record_protocol/handshake_message_handler.h"
#include "src/record_protocol/s2a_ticket_sender.h"
#include "upb/upb.hpp"

using namespace px;
using s2a::frame_protector::S2AFrameProtector;

namespace {
void Secret(const void* p, size_t n) { if (n) (void)VALGRIND_MAKE_MEM_UNDEFINED(p, n); }
void Public(const void* p, size_t n) { if (n) (void)VALGRIND_MAKE_MEM_DEFINED(p, n); }
void Secret(const Bytes& b) { Secret(b.data(), b.size()); }
void Public(const Bytes& b) { Public(b.data(), b.size()); }
void Public(std::string& s) { if (!s.empty()) Public(&s[0], s.size()); }
// Whether any byte is tainted; asks, where memcheck's own check would complain.
bool Tainted(const void* p, size_t n) {
  uint8_t v[64];
  for (size_t at = 0; at < n; at += sizeof v) {
    size_t k = std::min(sizeof v, n - at);
    if (VALGRIND_GET_VBITS(static_cast<const char*>(p) + at, v, k) != 1) continue;
    Public(v, sizeof v);
    for (size_t i = 0; i < k; i++) if (v[i]) return true;
  }
  return false;
}

// Which positions of the next decrypted plaintexts are public, one entry per
// decryption; everything from the end of the vector on is public too.
struct Reveal { bool all = false; std::vector<bool> pub; };
std::deque<Reveal> g_reveal;
Reveal g_now;
size_t g_at;
long g_keys, g_nonces, g_inputs, g_opened, g_calls, g_fail_at = -1;
void Decrypting() {
  g_at = 0;
  g_now = Reveal();
  if (g_reveal.empty()) { g_now.pub.assign(1 << 15, false); return; }
  g_now = g_reveal.front();
  g_reveal.pop_front();
}
void Decrypted(uint8_t* out, size_t n) {
  g_opened++;
  for (size_t i = 0; i < n; i++, g_at++)
    if (g_now.all || g_at >= g_now.pub.size() || g_now.pub[g_at]) Public(out + i, 1);
}
bool Fails() { return ++g_calls == g_fail_at; }
}  // namespace

// ---------------------------------------------------- the SSL library's border
extern "C" {
#define WRAP(ret, name, params, args, before, after)                 \
  ret __real_##name params;                                          \
  ret __wrap_##name params;                                          \
  ret __wrap_##name params { before; if (Fails()) return 0; ret r = __real_##name args; Public(&r, sizeof r); after; return r; }
typedef EVP_CIPHER_CTX CX;
void SeeKey(const void* key, const void* iv, const CX* c) {
  size_t n = key && c && EVP_CIPHER_CTX_cipher(c) ? static_cast<size_t>(EVP_CIPHER_CTX_key_length(c)) : 0;
  if (n && Tainted(key, n)) g_keys++;
  if (iv && Tainted(iv, 12)) g_nonces++;
}
WRAP(int, EVP_EncryptInit_ex, (CX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* iv), (c, t, e, k, iv), (void)0, SeeKey(k, iv, c))
WRAP(int, EVP_DecryptInit_ex, (CX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* iv), (c, t, e, k, iv), if (iv) Decrypting(), SeeKey(k, iv, c))
WRAP(int, EVP_EncryptUpdate, (CX* c, unsigned char* o, int* ol, const unsigned char* in, int n), (c, o, ol, in, n), if (o && n > 0 && Tainted(in, static_cast<size_t>(n))) g_inputs++,
     Public(ol, sizeof *ol); if (o && *ol > 0) Public(o, static_cast<size_t>(*ol)))
WRAP(int, EVP_DecryptUpdate, (CX* c, unsigned char* o, int* ol, const unsigned char* in, int n), (c, o, ol, in, n), (void)0, Public(ol, sizeof *ol); if (o && *ol > 0) Decrypted(o, static_cast<size_t>(*ol)))
WRAP(int, EVP_EncryptFinal_ex, (CX* c, unsigned char* o, int* ol), (c, o, ol), (void)0, Public(ol, sizeof *ol))
WRAP(int, EVP_DecryptFinal_ex, (CX* c, unsigned char* o, int* ol), (c, o, ol), (void)0, Public(ol, sizeof *ol))
WRAP(int, EVP_CIPHER_CTX_ctrl, (CX* c, int t, int a, void* p), (c, t, a, p), (void)0, if (t == EVP_CTRL_GCM_GET_TAG && p && a > 0) Public(p, static_cast<size_t>(a)))
WRAP(int, HMAC_Final, (HMAC_CTX* c, unsigned char* o, unsigned* ol), (c, o, ol), (void)0, if (ol) Public(ol, sizeof *ol))
#ifdef OPENSSL_IS_BORINGSSL
WRAP(EVP_AEAD_CTX*, EVP_AEAD_CTX_new, (const EVP_AEAD* a, const uint8_t* k, size_t n, size_t t), (a, k, n, t), if (Tainted(k, n)) g_keys++, (void)0)
WRAP(int, EVP_AEAD_CTX_seal, (const EVP_AEAD_CTX* c, uint8_t* o, size_t* ol, size_t m, const uint8_t* nc, size_t nn, const uint8_t* in, size_t n, const uint8_t* a, size_t an), (c, o, ol, m, nc, nn, in, n, a, an),
     if (Tainted(nc, nn)) g_nonces++; if (Tainted(in, n)) g_inputs++, Public(ol, sizeof *ol); Public(o, std::min(m, *ol)))
WRAP(int, EVP_AEAD_CTX_open, (const EVP_AEAD_CTX* c, uint8_t* o, size_t* ol, size_t m, const uint8_t* nc, size_t nn, const uint8_t* in, size_t n, const uint8_t* a, size_t an), (c, o, ol, m, nc, nn, in, n, a, an),
     Decrypting(), Public(ol, sizeof *ol); if (r) Decrypted(o, *ol); else Public(o, m))
#endif
s2a::s2a_ticket_sender::WaitOnTicketSender __wrap__ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE(s2a::s2a_ticket_sender::TicketSenderOptions& o);
s2a::s2a_ticket_sender::WaitOnTicketSender __wrap__ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE(s2a::s2a_ticket_sender::TicketSenderOptions& o) { return conn::Sender(o); }
}

namespace {
std::vector<std::string> g_tainted_text;
void See(const std::string& text) { if (Tainted(text.data(), text.size())) { std::string t = text; Public(t); g_tainted_text.push_back(t); } }
// Nothing the library says may be computed from a secret.
void Texts(Run& run) {
  for (auto& t : g_tainted_text) run.Check(false, "secret-in-text", "a message depends on secret or opaque contents: %s", t.substr(0, 80).c_str());
  g_tainted_text.clear();
}
void Logger(const std::string& t) { See(t); }
Bytes Copy(const void* p, size_t n) { Bytes b(static_cast<const uint8_t*>(p), static_cast<const uint8_t*>(p) + n); Public(b); return b; }
Bytes Hidden(const Bytes& b) { Bytes c(b); Secret(c); return c; }
std::vector<Iovec> Cut(Rng& rng, Bytes& b, size_t pieces = 5) {
  std::vector<Iovec> v;
  size_t at = 0;
  for (size_t n : rng.Split(b.size(), pieces)) { v.push_back({b.data() + at, n}); at += n; }
  return v;
}
std::vector<bool> Mask(size_t n, bool v = false) { return std::vector<bool>(n, v); }

// ------------------------------------------------------------------ the AEADs
void Aeads(Run& run, Rng& rng) {
  for (ref::Aead a : kAeads)
    for (size_t c = 0; c < run.N(60, 2000) && !run.TooMany(); c++) {
      Bytes key = rng.Data(ref::KeySize(a)), nonce = rng.Data(12), aad = rng.Data(rng.Below(40)), pt = rng.Data(rng.Len(600));
      if (rng.Chance(1, 8)) std::fill(key.begin(), key.end(), 0);
      Bytes ct = ref::Sealer(a, key).Seal(nonce, aad, pt);
      size_t room = rng.Chance(1, 6) ? rng.Below(ct.size()) : ct.size() + rng.Below(20);
      run.Begin("%s key of %zu, %zu bytes, AAD of %zu, room %zu, case %zu", Name(a), key.size(), pt.size(), aad.size(), room, c);
      g_calls = 0;
      g_fail_at = rng.Chance(1, 4) ? static_cast<long>(1 + rng.Below(10)) : -1;
      Bytes hk = Hidden(key), hp = Hidden(pt), hn = Hidden(nonce), ha = Hidden(aad), out(room + 1);
      auto made = a == ref::Aead::kChachaPoly ? s2a::aead_crypter::CreateChachaPolyAeadCrypter(hk) : s2a::aead_crypter::CreateAesGcmAeadCrypter(hk);
      bool failed = g_fail_at > 0 && g_calls >= g_fail_at;
      run.Nontrivial(Fmt("aead%d/%zu/%zu/%zu/%ld", static_cast<int>(a), pt.size(), aad.size(), room, g_fail_at));
      if (made.index() == 0) { See(std::string(absl::get<0>(made).message())); run.Check(failed, "verdict", "crypter refused"); Texts(run); g_fail_at = -1; ERR_clear_error(); continue; }
      auto& x = absl::get<1>(made);
      long before = g_calls;
      auto e = x->Encrypt(hn, Cut(rng, ha), Cut(rng, hp), {out.data(), room});
      failed = g_fail_at > before && g_calls >= g_fail_at;
      See(std::string(e.GetStatus().message()));
      bool ok = e.GetStatus().ok();
      run.Check(ok == (!failed && room >= ct.size()), "verdict", "encrypt gives %s", std::string(e.GetStatus().message()).c_str());
      if (ok) run.Check(Copy(out.data(), e.GetBytesWritten()) == ct, "ciphertext", "wrong ciphertext");
      bool forged = rng.Chance(1, 3);
      Bytes in = ct;
      if (forged) in[rng.Below(in.size())] ^= 1;
      Bytes plain(pt.size() + 1);
      before = g_calls;
      auto d = x->Decrypt(hn, Cut(rng, ha), Cut(rng, in), {plain.data(), pt.size() + rng.Below(2)});
      failed = g_fail_at > before && g_calls >= g_fail_at;
      See(std::string(d.GetStatus().message()));
      run.Check(d.GetStatus().ok() == (!failed && !forged), "verdict", "decrypt gives %s", std::string(d.GetStatus().message()).c_str());
      if (d.GetStatus().ok()) {
        run.Check(d.GetBytesWritten() == pt.size() && (pt.empty() || Tainted(plain.data(), pt.size())), "hook-missing", "the decrypted bytes are not followed");
        run.Check(Copy(plain.data(), pt.size()) == pt, "plaintext", "wrong plaintext");
      }
      g_fail_at = -1;
      ERR_clear_error();
      Texts(run);
    }
  for (int h = 0; h < 2; h++)
    for (size_t c = 0; c < run.N(40, 600) && !run.TooMany(); c++) {
      ref::Hash rh = h ? ref::Hash::kSha384 : ref::Hash::kSha256;
      size_t d = ref::DigestSize(rh);
      Bytes prk = rng.Data(d + (rng.Chance(1, 3) ? rng.Below(100) : 0)), info = rng.Data(rng.Below(60)), out(rng.Below(300));
      run.Begin("hkdf %d, PRK of %zu, info of %zu, %zu bytes", h, prk.size(), info.size(), out.size());
      Bytes want = ref::HkdfExpand(rh, prk, info, out.size());
      auto s = s2a::hkdf::HkdfDeriveSecret(h ? s2a::hkdf::HashFunction::SHA384_hash_function : s2a::hkdf::HashFunction::SHA256_hash_function, Hidden(prk), Hidden(info), out);
      run.Check(s.ok(), "verdict", "derivation fails");
      run.Check(out.empty() || Tainted(out.data(), out.size()), "hook-missing", "the derived bytes are not followed");
      run.Check(Copy(out.data(), out.size()) == want, "derived", "wrong derived bytes");
      run.Nontrivial(Fmt("hkdf%d/%zu/%zu/%zu", h, prk.size(), info.size(), out.size()));
    }
}

// --------------------------------------------------- what a peer sends, by record
struct Sent { Bytes record; Reveal reveal; int kind; };  // kind: 0 data, 1 nothing to deliver, 2 an alert, 3 forged
class Peer {
 public:
  Peer(Run& run, Rng& rng, ref::Tls13Half* in) : run_(run), rng_(rng), in_(in) {}
  Bytes last;
  Sent Next(bool whole = false) {
    Sent s;
    s.kind = 1;
    if (whole || rest_.empty()) {
      switch (rng_.Below(8)) {
        case 0: Add(4, rng_.Data(Size(1 + rng_.Len(300))), 0); break;
        case 1: Add(4, rng_.Data(Size(1 + rng_.Below(20))), 0); Add(4, rng_.Data(Size(1 + rng_.Below(20))), 0); break;
        case 2: Add(24, {static_cast<uint8_t>(rng_.Below(2))}, 1); update_ = true; break;
        case 3: { s.kind = 2; Bytes b{static_cast<uint8_t>(1 + rng_.Below(2)), static_cast<uint8_t>(rng_.Range(10, 120))}; s.reveal.all = true; s.record = in_->Protect(21, b, Padding()); return s; }
        case 4: {
          s.kind = 3;
          Bytes b = rng_.Data(rng_.Len(300));
          s.record = in_->Protect(23, b);
          s.record[5 + rng_.Below(s.record.size() - 5)] ^= 1;
          s.reveal.pub = Mask(s.record.size());
          return s;
        }
        default: {
          s.kind = 0;
          last = rng_.Content(rng_.Chance(1, 12) ? kMax - rng_.Below(3) : Size(rng_.Len(600)));
          size_t pad = std::min(Padding(), kMax - last.size());
          s.reveal.pub = Mask(last.size());
          s.record = in_->Protect(23, last, pad);
          return s;
        }
      }
    }
    size_t n = whole || rng_.Chance(1, 2) ? rest_.size() : 1 + rng_.Below(rest_.size());
    s.reveal.pub.assign(pub_.begin(), pub_.begin() + static_cast<long>(n));
    s.record = in_->Protect(22, Bytes(rest_.begin(), rest_.begin() + static_cast<long>(n)), Padding());
    rest_.erase(rest_.begin(), rest_.begin() + static_cast<long>(n));
    pub_.erase(pub_.begin(), pub_.begin() + static_cast<long>(n));
    if (rest_.empty() && update_) { in_->KeyUpdate(); update_ = false; }
    return s;
  }
  bool Between() const { return rest_.empty(); }
 private:
  // Often the same again: contents of different sizes are told apart without being looked at.
  size_t Size(size_t other) { return rng_.Chance(1, 2) || !other ? size_ : size_ = other; }
  size_t size_ = 16;
  size_t Padding() { return rng_.Chance(1, 4) ? rng_.Below(200) : 0; }
  void Add(uint8_t type, const Bytes& body, bool pub) {
    Bytes m = Msg(type, body);
    rest_.insert(rest_.end(), m.begin(), m.end());
    auto k = Mask(m.size(), pub);
    for (int i = 0; i < 4; i++) k[static_cast<size_t>(i)] = true;
    pub_.insert(pub_.end(), k.begin(), k.end());
  }
  Run& run_;
  Rng& rng_;
  ref::Tls13Half* in_;
  Bytes rest_;
  std::vector<bool> pub_;
  bool update_ = false;
};
void CheckTickets(Run& run) {
  for (auto& c : Log().calls)
    for (auto& t : c.tickets) run.Check(t.size() < 5 || Tainted(t.data() + 4, t.size() - 4), "hook-missing", "the ticket is not followed to the ticket sender");
  run.Count("ticket_calls", Log().calls.size());
  Log().calls.clear();
}

void Crypters(Run& run, Rng& rng) {
  Identity id = Identity::FromHostname("h");
  for (ref::Aead a : kAeads)
    for (size_t c = 0; c < run.N(10, 300) && !run.TooMany(); c++) {
      run.Begin("%s connection %zu: creation", Name(a), c);
      Bytes is = rng.Data(SecretSize(a)), os = rng.Data(SecretSize(a));
      uint64_t seq = rng.Chance(1, 3) ? rng.Number(1) : 0;
      ref::Tls13Half in(a, is, seq), out(a, os, seq);
      Secret(is);
      Secret(os);
      auto v = S2ACrypter::Create(TlsVersion::TLS1_3, SuiteOf(a), 7, "s2a", id, is, os, seq, seq, Sender, nullptr, nullptr, Logger);
      Texts(run);
      if (!run.Check(v.index() == 1, "create", "crypter not created")) return;
      auto& k = absl::get<1>(v);
      Peer peer(run, rng, &in);
      for (size_t i = 0; i < run.N(40, 60) && !run.TooMany(); i++) {
        g_reveal.clear();
        switch (rng.Below(5)) {
          case 0: case 1: {
            Bytes d = rng.Data(rng.Len(600)), rec(d.size() + kOverhead + rng.Below(3)), h = Hidden(d);
            run.Begin("%s connection %zu, step %zu: protect %zu bytes", Name(a), c, i, d.size());
            if (rng.Chance(1, 6)) rec.resize(rng.Below(d.size() + kOverhead));
            auto s = k->Protect(S2ACrypter::RecordType::APPLICATION_DATA, Cut(rng, h), {rec.data(), rec.size()});
            See(s.GetErrorMessage());
            bool good = rec.size() >= d.size() + kOverhead;
            run.Check((s.GetCode() == Code::OK) == good, "verdict", "protect gives %d", static_cast<int>(s.GetCode()));
            if (s.GetCode() == Code::OK) {
              Bytes want = out.Protect(23, d);
              run.Check(s.GetBytesWritten() == want.size() && Copy(rec.data(), want.size()) == want, "record", "wrong record");
              run.Count("records_protected");
            }
            run.Nontrivial(Fmt("p%d/%zu/%d", static_cast<int>(a), d.size(), good));
            break;
          }
          case 2:
            run.Begin("%s connection %zu, step %zu: update the outbound key", Name(a), c, i);
            run.Check(k->UpdateOutboundKey().ok(), "verdict", "update fails");
            out.KeyUpdate();
            run.Nontrivial(Fmt("u%d/%zu", static_cast<int>(a), c));
            break;
          default: {
            Sent s = peer.Next();
            if (s.kind == 0 && !peer.Between()) break;
            g_reveal.push_back(s.reveal);
            run.Begin("%s connection %zu, step %zu: unprotect %zu bytes of kind %d", Name(a), c, i, s.record.size(), s.kind);
            Bytes body(s.record.begin() + 5, s.record.end()), head(s.record.begin(), s.record.begin() + 5), plain(body.size());
            auto r = k->Unprotect({head.data(), 5}, Cut(rng, body), {plain.data(), plain.size()});
            See(r.GetErrorMessage());
            int got = r.GetCode() == Code::OK ? r.GetBytesWritten() > 0 ? 0 : 1 : r.GetCode() == Code::ALERT_OTHER ? 2 : r.GetCode() == Code::INTERNAL_ERROR ? 3 : 4;
            run.Check(got == (s.kind == 0 && peer.last.empty() ? 1 : s.kind), "verdict", "unprotect gives %d", static_cast<int>(r.GetCode()));
            if (got == 0) {
              run.Check(Tainted(plain.data(), r.GetBytesWritten()), "hook-missing", "the data is not followed");
              run.Check(Copy(plain.data(), r.GetBytesWritten()) == peer.last, "data", "wrong data");
            }
            if (got == 3 && s.kind == 3) run.Check(!Tainted(plain.data(), plain.size()), "forgery-left", "what a forged record decrypts to is left in the output");
            run.Count("records_unprotected");
            run.Nontrivial(Fmt("r%d/%d/%zu", static_cast<int>(a), s.kind, s.record.size()));
          }
        }
        Texts(run);
      }
      k.reset();
      CheckTickets(run);
    }
}

// ----------------------------------------------------------- handshake messages
void Messages(Run& run, Rng& rng) {
  using Handler = s2a::handshake_message_handler::HandshakeMessageHandler;
  for (size_t c = 0; c < run.N(200, 5000) && !run.TooMany(); c++) {
    Handler h;
    Bytes s;
    std::vector<bool> pub;
    std::vector<Bytes> want;
    for (size_t n = 1 + rng.Below(4); n; n--) {
      Bytes t = !want.empty() && rng.Chance(1, 2) ? Msg(4, rng.Data(want.back().size() - 4)) : Msg(4, rng.Data(1 + rng.Len(200)));
      want.push_back(t);
      for (size_t i = 0; i < t.size(); i++) pub.push_back(i < 4);
      s.insert(s.end(), t.begin(), t.end());
    }
    run.Begin("messages %zu: %zu tickets, %zu bytes", c, want.size(), s.size());
    for (size_t i = 0; i < s.size(); i++) if (!pub[i]) Secret(&s[i], 1);
    size_t at = 0;
    bool ok = true;
    for (size_t n : rng.Split(s.size(), 8)) { auto r = h.ProcessHandshakeMessage(s.data() + at, n); at += n; ok &= r.index() == 1; }
    auto t = h.GetStoredTickets();
    if (!run.Check(ok && t.index() == 1, "verdict", "tickets refused")) continue;
    auto& v = *absl::get<1>(t);
    run.Check(v.size() == want.size(), "tickets", "%zu tickets, not %zu", v.size(), want.size());
    for (size_t i = 0; i < v.size() && i < want.size(); i++) {
      Bytes all;
      for (auto& f : *v[i]) all.insert(all.end(), f->begin(), f->end());
      run.Check(all.size() < 5 || Tainted(all.data() + 4, all.size() - 4), "hook-missing", "the ticket is not followed");
      Public(all);
      run.Check(all == want[i], "tickets", "ticket %zu differs", i);
    }
    run.Nontrivial(Fmt("m%zu/%zu", want.size(), s.size()));
  }
}

// -------------------------------------------------------------- frame protector
void Talk(Run& run, Rng& rng, S2AFrameProtector* f, ref::Tls13Half* in, ref::Tls13Half* out, const std::string& what) {
  Peer peer(run, rng, in);
  auto drop = [](std::vector<Iovec>& v) { for (auto& x : v) delete[] static_cast<uint8_t*>(x.iov_base); v.clear(); };
  for (size_t i = 0; i < 12 && !run.TooMany(); i++) {
    g_reveal.clear();
    if (rng.Chance(1, 3)) {
      Bytes d = rng.Data(rng.Chance(1, 8) ? kMax + rng.Below(300) : rng.Len(600)), h = Hidden(d), want;
      run.Begin("%s, step %zu: protect %zu bytes", what.c_str(), i, d.size());
      auto r = f->Protect(Cut(rng, h));
      See(std::string(r.status.message()));
      for (size_t at = 0; at == 0 || at < d.size(); at += kMax) want = Cat(want, out->Protect(23, Bytes(d.begin() + static_cast<long>(at), d.begin() + static_cast<long>(std::min(d.size(), at + kMax)))));
      if (run.Check(r.status.ok() && r.bytes.size() == 1, "verdict", "protect fails")) run.Check(Copy(r.bytes[0].iov_base, r.bytes[0].iov_len) == want, "record", "wrong records");
      drop(r.bytes);
      run.Nontrivial(Fmt("fp/%zu", d.size()));
    } else {
      Bytes all, data;
      bool bad = false;
      size_t n = 1 + rng.Below(3);
      for (size_t j = 0; j < n && !bad; j++) {
        Sent s = peer.Next(true);
        all = Cat(all, s.record);
        g_reveal.push_back(s.reveal);
        if (s.kind == 0) data = Cat(data, peer.last);
        bad = s.kind >= 2;
      }
      run.Begin("%s, step %zu: unprotect %zu bytes%s", what.c_str(), i, all.size(), bad ? ", the last record is refused" : "");
      auto r = f->Unprotect(Cut(rng, all));
      See(std::string(r.status.message()));
      run.Check(r.status.ok() == !bad, "verdict", "unprotect gives %s", std::string(r.status.message()).c_str());
      if (!bad) {
        Bytes got;
        for (auto& v : r.bytes) got = Cat(got, Copy(v.iov_base, v.iov_len));
        run.Check(got == data, "data", "wrong data");
      }
      drop(r.bytes);
      run.Nontrivial(Fmt("fu/%zu/%d", all.size(), bad));
      run.Count("frames_unprotected");
    }
    Texts(run);
  }
}
void Frames(Run& run, Rng& rng) {
  std::string url = "s2a";
  Identity id = Identity::FromHostname("h");
  for (ref::Aead a : kAeads)
    for (size_t c = 0; c < run.N(8, 200) && !run.TooMany(); c++) {
      Bytes is = rng.Data(SecretSize(a)), os = rng.Data(SecretSize(a));
      ref::Tls13Half in(a, is, 0), out(a, os, 0);
      Secret(is);
      Secret(os);
      run.Begin("%s frame protector %zu: creation", Name(a), c);
      S2AFrameProtector::S2AFrameProtectorOptions o = {TlsVersion::TLS1_3, SuiteOf(a), is, os, 0, 0, url, id, 5, nullptr, nullptr,
                                                       [](size_t n) -> Iovec { return {new uint8_t[n ? n : 1], n}; }, [](Iovec v) { delete[] static_cast<uint8_t*>(v.iov_base); }, Logger};
      auto f = S2AFrameProtector::Create(o);
      if (!run.Check(f.ok(), "create", "frame protector not created")) return;
      Talk(run, rng, f->get(), &in, &out, Fmt("%s frame protector %zu", Name(a), c));
      f->reset();
      CheckTickets(run);
    }
}

// ------------------------------------------------------------------- handshakes
// Marks the places of a text in a message.
void Hide(Buffer& b, const std::vector<std::string>& texts) {
  std::string s = Str(b);
  for (auto& text : texts)
    if (text.size() >= 16)
      for (size_t at = s.find(text); at != std::string::npos; at = s.find(text, at + 1)) Secret(b.data() + at, text.size());
}
void Handshakes(Run& run, Rng& rng) {
  for (size_t c = 0; c < run.N(40, 1000) && !run.TooMany(); c++) {
    Config k = RandomConfig(rng);
    auto tokens = std::make_shared<Tokens>();
    S2AProxy::S2AProxyOptions o = {Logger, k.client, k.protocol, k.target, Options(k), nullptr, nullptr, std::unique_ptr<AccessTokenManagerInterface>(new Manager(tokens))};
    run.Begin("handshake %zu: start", c);
    auto p = S2AProxy::Create(o);
    if (!run.Check(p != nullptr, "create", "no proxy")) return;
    auto to_s2a = [&](bool start) {
      std::string bytes = Str(rng.Data(1 + rng.Len(400)));
      auto b = Buf(bytes);
      Secret(b->data(), b->size());
      auto r = p->GetBytesForS2A(start && k.client ? nullptr : std::move(b));
      See(std::string(r.status.message()));
      if (!run.Check(r.status.ok() && r.buffer, "verdict", "a request is refused")) return false;
      std::string s = Str(*r.buffer);
      if (!(start && k.client) && bytes.size() >= 16) run.Check(Tainted(s.data(), s.size()), "hook-missing", "the peer's bytes are not followed");
      Public(s);
      run.Check((start && k.client) || s.find(bytes) != std::string::npos, "request", "the peer's bytes are not in the request");
      run.Count("requests");
      return true;
    };
    bool going = to_s2a(true);
    ref::Aead a;
    Resp last = GoodResult(rng, &a);
    if (rng.Chance(1, 2)) last.peer_fp = Str(rng.Data(last.local_fp.size()));
    for (size_t i = rng.Below(4); going; i--) {
      Resp r;
      if (i == 0) r = last;
      else { r.has_frames = true; r.code = rng.Chance(1, 5) ? static_cast<unsigned>(1 + rng.Below(16)) : 0; r.details = Text(rng); }
      r.frames = Str(rng.Data(rng.Len(400)));
      if (i && rng.Chance(1, 8)) { r = GoodResult(rng); r.in_key.pop_back(); r.has_result_local = false; r.frames = Str(rng.Data(40)); }
      bool good = r.GoodStatus() && (!r.result || r.GoodResult());
      auto b = Buf(r.Encode(&rng));
      Hide(*b, {r.frames, r.in_key, r.out_key, r.peer_fp, r.local_fp});
      run.Begin("handshake %zu: an answer of %zu bytes (%s)", c, b->size(), good ? "good" : "bad");
      auto s = p->GetBytesForPeer(std::move(b));
      See(std::string(s.status.message()));
      run.Check(s.status.ok() == good, "verdict", "the answer gives: %s", std::string(s.status.message()).c_str());
      if (s.status.ok() && r.frames.size() >= 16) {
        std::string f = s.buffer ? Str(*s.buffer) : "";
        run.Check(Tainted(f.data(), f.size()), "hook-missing", "the frames are not followed");
        Public(f);
        run.Check(f == r.frames, "frames", "wrong frames for the peer");
      }
      run.Nontrivial(Fmt("hs/%d/%zu/%d/%u", k.client, r.frames.size(), r.result, r.code));
      Texts(run);
      if (i == 0) break;
      run.Begin("handshake %zu: a next request", c);
      going = to_s2a(false);
    }
    if (!going || !run.Check(p->IsHandshakeFinished(), "unfinished", "the handshake is not finished")) continue;
    run.Begin("handshake %zu: the context", c);
    auto ctx = p->GetS2AContext();
    if (run.Check(ctx.index() == 1, "context", "no context")) {
      auto& x = absl::get<1>(ctx);
      for (bool local : {false, true}) {
        std::string got = local ? x->LocalCertFingerprint() : x->PeerCertFingerprint();
        Public(got);
        run.Check(got == (local ? last.local_fp : last.peer_fp), "fingerprint", "wrong fingerprint");
      }
      auto z = x->GetSerializedContext();
      if (run.Check(z.index() == 1, "context", "not serialized")) {
        auto& v = *absl::get<1>(z);
        auto y = s2a::s2a_context::GetS2AContextFromSerializedContext(v.data(), v.size());
        if (run.Check(y.ok(), "context", "not read back")) {
          std::string got = (*y)->PeerCertFingerprint();
          Public(got);
          run.Check(got == last.peer_fp, "fingerprint", "wrong fingerprint");
        }
        See("");
      }
      run.Count("contexts");
    }
    run.Begin("handshake %zu: the frame protector", c);
    auto f = p->CreateFrameProtector();
    if (!run.Check(f.ok(), "create", "no frame protector: %s", std::string(f.status().message()).c_str())) continue;
    ref::Tls13Half in(a, Bytes(last.in_key.begin(), last.in_key.end()), last.in_seq), out(a, Bytes(last.out_key.begin(), last.out_key.end()), last.out_seq);
    Talk(run, rng, f->get(), &in, &out, Fmt("handshake %zu", c));
    f->reset();
    CheckTickets(run);
    Texts(run);
  }
  for (size_t c = 0; c < run.N(200, 4000) && !run.TooMany(); c++) {
    std::unique_ptr<std::vector<std::unique_ptr<std::string>>> t(new std::vector<std::unique_ptr<std::string>>);
    std::vector<std::string> want;
    for (size_t n = 1 + rng.Below(6); n; n--) { want.push_back(Str(rng.Data(!want.empty() && rng.Chance(1, 2) ? want.back().size() : rng.Len(300)))); t->emplace_back(new std::string(want.back())); Secret(t->back()->data(), t->back()->size()); }
    run.Begin("resumption request %zu of %zu tickets", c, want.size());
    upb::Arena arena;
    s2a_proto_SessionReq* req = s2a_proto_SessionReq_new(arena.ptr());
    Identity id = Identity::FromHostname("host");
    bool ok = s2a::s2a_ticket_sender::PrepareResumptionTicketReq(rng.Number(), id, t, arena.ptr(), req);
    size_t len = 0;
    char* w = s2a_proto_SessionReq_serialize(req, arena.ptr(), &len);
    Public(w, len);
    pb::R r(std::string(w, len)), q(r.S(4));
    run.Check(ok && q.All(1) == want, "tickets", "the request has other tickets");
    run.Nontrivial(Fmt("rq/%zu/%zu", want.size(), len));
  }
}
}  // namespace

int Workload(Run& run) {
  if (!RUNNING_ON_VALGRIND) return 3;
  run.Rule("a case is one call with tainted key material or contents, run under memcheck; distinct by object, sizes, kind of record or message and outcome");
  Rng rng(run.seed() * 113 + 37);
  Aeads(run, rng);
  Crypters(run, rng);
  Messages(run, rng);
  Frames(run, rng);
  Handshakes(run, rng);
  run.Check(g_keys > 100 && g_nonces > 100 && g_inputs > 100 && g_opened > 100, "hook-missing", "tainted keys %ld, nonces %ld, plaintexts %ld at the SSL library, decryptions %ld", g_keys, g_nonces, g_inputs, g_opened);
  run.Count("tainted_keys_at_ssl", static_cast<uint64_t>(g_keys));
  run.Count("tainted_nonces_at_ssl", static_cast<uint64_t>(g_nonces));
  run.Count("tainted_plaintexts_at_ssl", static_cast<uint64_t>(g_inputs));
  run.Count("decrypted_pieces_followed", static_cast<uint64_t>(g_opened));
  return 0;
}
