// A crypter under test together with an independent TLS 1.3 peer.
#ifndef VERIF_CONN_H_
#define VERIF_CONN_H_
#include <algorithm>
#include <cstring>
#include <memory>
#include <string>
#include <vector>

#include "absl/status/status.h"
#include "absl/types/variant.h"
#include "include/s2a_options.h"
#include "ref.h"
#include "src/record_protocol/s2a_crypter.h"
#include "src/record_protocol/s2a_half_connection.h"
#include "src/record_protocol/s2a_ticket_sender.h"
#include "vh.h"

namespace conn {
using s2a::aead_crypter::Iovec;
using s2a::record_protocol::S2ACrypter;
typedef S2ACrypter::S2ACrypterStatusCode Code;
typedef s2a::s2a_options::S2AOptions::Ciphersuite Suite;
typedef s2a::s2a_options::S2AOptions::Identity Identity;
typedef s2a::s2a_options::S2AOptions::TlsVersion TlsVersion;
using vh::Bytes;

const ref::Aead kAeads[] = {ref::Aead::kAes128Gcm, ref::Aead::kAes256Gcm, ref::Aead::kChachaPoly};
inline Suite SuiteOf(ref::Aead a) {
  return a == ref::Aead::kAes128Gcm ? Suite::AES_128_GCM_SHA256 : a == ref::Aead::kAes256Gcm ? Suite::AES_256_GCM_SHA384 : Suite::CHACHA20_POLY1305_SHA256;
}
inline const char* Name(ref::Aead a) {
  return a == ref::Aead::kAes128Gcm ? "aes128gcm" : a == ref::Aead::kAes256Gcm ? "aes256gcm" : "chachapoly";
}
inline size_t SecretSize(ref::Aead a) { return ref::DigestSize(ref::HashOf(a)); }
const size_t kMax = 16384, kOverhead = 22, kHeader = 5;

struct TicketCall { std::string url, identity; int type; uint64_t id; std::vector<std::string> tickets; const void* factory; const void* options; bool null_tickets; };
struct TicketLog { std::vector<TicketCall> calls; int waits = 0; };
TicketLog& Log();  // per thread

class Factory : public s2a::s2a_channel::S2AChannelFactoryInterface {
 public:
  void WaitForChannelReady() override {}
  absl::StatusOr<std::unique_ptr<s2a::s2a_channel::S2AChannelInterface>> Build(S2AChannelOptionsInterface*) override { return absl::UnimplementedError("x"); }
};
s2a::s2a_ticket_sender::WaitOnTicketSender Sender(s2a::s2a_ticket_sender::TicketSenderOptions& o);

struct Conn {
  ref::Aead a;
  std::unique_ptr<S2ACrypter> c;
  std::unique_ptr<ref::Tls13Half> in, out;  // in: what the peer sends; out: mirror of what c sends
  absl::Status status;
  const void* factory = nullptr;
};
inline Conn Make(ref::Aead a, const Bytes& in_secret, const Bytes& out_secret, uint64_t in_seq, uint64_t out_seq, uint64_t id = 7,
                 const std::string& url = "s2a:1234", Identity ident = Identity::FromHostname("local")) {
  Conn k;
  k.a = a;
  auto f = std::unique_ptr<Factory>(new Factory);
  k.factory = f.get();
  auto v = S2ACrypter::Create(TlsVersion::TLS1_3, SuiteOf(a), id, url, ident, in_secret, out_secret, in_seq, out_seq, Sender, std::move(f),
                              std::unique_ptr<s2a::s2a_channel::S2AChannelFactoryInterface::S2AChannelOptionsInterface>(
                                  new s2a::s2a_channel::S2AChannelFactoryInterface::S2AChannelOptionsInterface),
                              [](const std::string&) {});
  if (v.index() == 1) k.c = std::move(absl::get<1>(v));
  else k.status = absl::get<0>(v);
  k.in.reset(new ref::Tls13Half(a, in_secret, in_seq));
  k.out.reset(new ref::Tls13Half(a, out_secret, out_seq));
  return k;
}
inline Conn Make(vh::Rng& rng, ref::Aead a, uint64_t in_seq = 0, uint64_t out_seq = 0) {
  return Make(a, rng.Key(SecretSize(a)), rng.Key(SecretSize(a)), in_seq, out_seq);
}

struct Pieces {
  std::vector<vh::Guard> g;
  std::vector<Iovec> iov;
  bool Unchanged(const Bytes& data) const {
    size_t off = 0;
    for (auto& v : iov) {
      if (v.iov_len && memcmp(v.iov_base, data.data() + off, v.iov_len)) return false;
      off += v.iov_len;
    }
    for (auto& x : g) if (!x.CanaryOk()) return false;
    return true;
  }
  void Build(const uint8_t* p, const std::vector<size_t>& split, unsigned salt) {
    const bool share = (salt & 2) == 0;
    for (size_t n : split) {
      if (n == 0 && salt % 3 == 0) { iov.push_back({nullptr, 0}); salt++; continue; }
      // Equal pieces may be the same memory.
      bool shared = false;
      for (size_t j = iov.size() < 8 ? 0 : iov.size() - 8; share && n && j < iov.size() && !shared; j++) {
        if (iov[j].iov_len != n || memcmp(iov[j].iov_base, p, n)) continue;
        Iovec same = iov[j];
        iov.push_back(same);
        shared = true;
      }
      if (!shared) {
        g.emplace_back(Bytes(p, p + n), (salt++ & 1) == 0);
        iov.push_back({g.back().data(), n});
      }
      p += n;
    }
  }
};

// Unprotects one whole record held in `rec`; returns code, and delivered bytes.
struct Got { Code code; Bytes data; Bytes raw; size_t written; };
inline Got Deliver(S2ACrypter* c, const Bytes& rec, const std::vector<size_t>& split, unsigned salt, size_t room_extra = 0, size_t header_len = kHeader) {
  size_t hl = std::min(header_len, rec.size());
  vh::Guard header(Bytes(rec.begin(), rec.begin() + hl), salt & 1);
  Pieces p;
  p.Build(rec.data() + hl, split, salt);
  size_t room = (rec.size() > hl ? rec.size() - hl : 0) + room_extra;
  vh::Guard out(room ? room : 1, (salt & 2) == 0);
  out.Fill(0xA7);
  auto s = c->Unprotect({header.data(), header.size()}, p.iov, {out.data(), out.size()});
  Got g;
  g.code = s.GetCode();
  g.written = s.GetBytesWritten();
  g.raw = out.Get();
  // What is given to Unprotect stays as it is: no valid answer otherwise.
  if (!p.Unchanged(Bytes(rec.begin() + static_cast<long>(hl), rec.end())) || header.Get() != Bytes(rec.begin(), rec.begin() + static_cast<long>(hl))) g.code = static_cast<Code>(99);
  if (g.code == Code::OK) g.data.assign(out.data(), out.data() + std::min(out.size(), g.written));
  return g;
}
inline Got Deliver(S2ACrypter* c, const Bytes& rec) { return Deliver(c, rec, {rec.size() > kHeader ? rec.size() - kHeader : 0}, 0); }

inline Bytes Msg(uint8_t type, const Bytes& body) {
  Bytes m{type, static_cast<uint8_t>(body.size() >> 16), static_cast<uint8_t>(body.size() >> 8), static_cast<uint8_t>(body.size())};
  m.insert(m.end(), body.begin(), body.end());
  return m;
}
inline Bytes Cat(Bytes a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline std::string Show(const std::vector<size_t>& s) {
  std::string o = "[";
  for (size_t i = 0; i < s.size() && i < 16; i++) o += vh::Fmt(i ? ",%zu" : "%zu", s[i]);
  if (s.size() > 16) o += vh::Fmt(",..%zu", s.size());
  return o + "]";
}
}  // namespace conn
#endif
