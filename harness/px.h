// The S2A proxy under test together with what a test S2A would say to it.
#ifndef VERIF_PX_H_
#define VERIF_PX_H_
#include <functional>
#include <map>
#include <set>

#include "conn.h"
#include "include/access_token_manager.h"
#include "include/s2a_context.h"
#include "include/s2a_proxy.h"
#include "pb.h"

namespace px {
using namespace conn;
using s2a::s2a_context::S2AContext;
using s2a::s2a_options::S2AOptions;
using s2a::s2a_proxy::S2AProxy;
using s2a::token_manager::AccessTokenManagerInterface;
using vh::Fmt;
using vh::Rng;
using vh::Run;
typedef S2AOptions::IdentityType IT;
typedef S2AProxy::Buffer Buffer;

struct Id {
  int kind;  // 0 none, 1 SPIFFE, 2 hostname, 3 UID (as IdentityType); wire field 1, 2, 4
  std::string text;
  bool operator<(const Id& o) const { return kind != o.kind ? kind < o.kind : text < o.text; }
  bool operator==(const Id& o) const { return kind == o.kind && text == o.text; }
  std::string Show() const { return Fmt("%d:%s", kind, text.substr(0, 20).c_str()); }
};
inline int Wire(int kind) { return kind == 3 ? 4 : kind; }
inline Identity ToS2A(const Id& i) { return i.kind == 1 ? Identity::FromSpiffeId(i.text) : i.kind == 2 ? Identity::FromHostname(i.text) : i.kind == 3 ? Identity::FromUid(i.text) : Identity::GetEmptyIdentity(); }
inline Id FromS2A(const Identity& i) {
  int k = i.GetIdentityType() == IT::SPIFFE_ID ? 1 : i.GetIdentityType() == IT::HOSTNAME ? 2 : i.GetIdentityType() == IT::UID ? 3 : 0;
  return {k, i.GetIdentityString()};
}
inline pb::W IdMsg(const Id& i) { pb::W w; if (i.kind) w.B(Wire(i.kind), i.text); return w; }
// An identity as an independent reader sees it; kind -1: not one.
inline Id ReadId(const std::string& s) {
  pb::R r(s);
  if (!r.ok || !r.Only({1, 2, 4}) || r.f.size() > 1) return {-1, ""};
  if (r.f.empty()) return {0, ""};
  return {r.f[0].field == 4 ? 3 : r.f[0].field, r.f[0].b};
}
inline std::string Text(Rng& rng, size_t max = 40) {
  static const char* const bits[] = {"a", "z", "0", ".", "-", "/", ":", "spiffe://", "\xc3\xa9", "\xe2\x82\xac", " ", "%", "\x7f", "\x01", "A", "_"};
  std::string s;
  size_t n = rng.Chance(1, 12) ? 0 : rng.Chance(1, 10) ? rng.Below(max * 8) : 1 + rng.Below(max);
  if (rng.Chance(1, 12)) n = rng.Range(120, 140);
  uint64_t c;
  if (rng.FromCode(2000, 16, &c)) n = c;
  if (rng.Chance(1, 16)) s = rng.CodeText();
  if (!s.empty() && rng.Chance(1, 2)) return s;
  while (s.size() < n) s += bits[rng.Below(16)];
  return s;
}
inline Id RandomId(Rng& rng, const std::vector<Id>* near = nullptr) {
  // Sometimes the same text under another kind, so that kinds must be kept apart.
  if (near && !near->empty() && rng.Chance(1, 3)) { Id i = (*near)[rng.Below(near->size())]; i.kind = 1 + static_cast<int>(rng.Below(3)); return i; }
  return {1 + static_cast<int>(rng.Below(3)), Text(rng)};
}
inline std::unique_ptr<Buffer> Buf(const std::string& s) { return std::unique_ptr<Buffer>(new Buffer(s.begin(), s.end())); }
inline std::string Str(const Bytes& b) { return std::string(b.begin(), b.end()); }
inline std::string Str(const Buffer& b) { return std::string(b.begin(), b.end()); }

// The token manager under the monitor's control.
struct Tokens {
  std::map<Id, std::string> token;   // identity -> token; absent: none
  bool has_default = true;
  std::string dflt = "default-token";
  std::set<std::pair<Id, std::string>> given;  // everything ever handed out
  long asked = 0;
};
class Manager : public AccessTokenManagerInterface {
 public:
  explicit Manager(std::shared_ptr<Tokens> t) : t_(t) {}
  absl::StatusOr<std::string> GetDefaultToken() override {
    t_->asked++;
    if (!t_->has_default) return absl::NotFoundError("no default token");
    t_->given.insert({Id{0, ""}, t_->dflt});
    return t_->dflt;
  }
  absl::StatusOr<std::string> GetToken(const Identity& identity) override {
    t_->asked++;
    auto it = t_->token.find(FromS2A(identity));
    if (it == t_->token.end()) return absl::NotFoundError("no token");
    t_->given.insert({it->first, it->second});
    return it->second;
  }
  std::string DebugName() const override { return "m"; }
 private:
  std::shared_ptr<Tokens> t_;
};

struct Config {
  bool client = true;
  std::string protocol, target;
  int min = 1, max = 1;
  std::vector<int> suites;
  std::vector<Id> locals, targets;
  std::string address = "s2a-address";
};
inline std::unique_ptr<S2AOptions> Options(const Config& c) {
  std::unique_ptr<S2AOptions> o(new S2AOptions);
  o->set_min_tls_version(c.min ? TlsVersion::TLS1_3 : TlsVersion::TLS1_2);
  o->set_max_tls_version(c.max ? TlsVersion::TLS1_3 : TlsVersion::TLS1_2);
  o->set_s2a_address(c.address);
  for (int s : c.suites) o->add_supported_ciphersuite(s == 0 ? Suite::AES_128_GCM_SHA256 : s == 1 ? Suite::AES_256_GCM_SHA384 : s == 2 ? Suite::CHACHA20_POLY1305_SHA256 : static_cast<Suite>(s));
  for (auto& i : c.locals) i.kind == 1 ? o->add_local_spiffe_id(i.text) : i.kind == 2 ? o->add_local_hostname(i.text) : o->add_local_uid(i.text);
  for (auto& i : c.targets) i.kind == 1 ? o->add_target_spiffe_id(i.text) : i.kind == 2 ? o->add_target_hostname(i.text) : o->add_target_uid(i.text);
  return o;
}
inline Config RandomConfig(Rng& rng) {
  Config c;
  c.client = rng.Chance(1, 2);
  c.protocol = Text(rng, 20);
  c.target = Text(rng, 60);
  c.min = static_cast<int>(rng.Below(2));
  c.max = static_cast<int>(rng.Below(2));
  for (size_t n = rng.Below(rng.Chance(1, 5) ? 12 : 4); n; n--) c.suites.push_back(static_cast<int>(rng.Below(3)));
  size_t nl = c.client ? rng.Below(2) : rng.Below(rng.Chance(1, 6) ? 30 : 5), nt = rng.Below(rng.Chance(1, 6) ? 30 : 5);
  while (nl--) c.locals.push_back(RandomId(rng, &c.locals));
  while (nt--) c.targets.push_back(RandomId(rng, &c.targets));
  return c;
}
inline std::unique_ptr<S2AProxy> MakeProxy(const Config& c, std::shared_ptr<Tokens> tokens, bool with_manager = true) {
  S2AProxy::S2AProxyOptions o = {[](const std::string&) {}, c.client, c.protocol, c.target, Options(c), nullptr, nullptr,
                                 with_manager ? std::unique_ptr<AccessTokenManagerInterface>(new Manager(tokens)) : nullptr};
  return S2AProxy::Create(o);
}
inline std::multiset<Id> ReadIds(const std::vector<std::string>& v) { std::multiset<Id> s; for (auto& x : v) s.insert(ReadId(x)); return s; }
inline std::multiset<Id> SetOf(const std::vector<Id>& v) { std::set<Id> s(v.begin(), v.end()); return std::multiset<Id>(s.begin(), s.end()); }

// Checks a start request; in_bytes as the proxy was given them.
inline void CheckStart(Run& run, const Config& c, const std::string& bytes, const std::string& in_bytes) {
  pb::R r(bytes);
  if (!run.Check(r.ok && r.Only({1, 2, 5}) && r.Count(c.client ? 1 : 2) == 1 && r.Count(c.client ? 2 : 1) == 0, "start-framing", "not exactly one start request of the configured role")) return;
  pb::R s(r.S(c.client ? 1 : 2));
  if (!run.Check(s.ok && (c.client ? s.Only({1, 2, 3, 4, 5, 6, 7}) : s.Only({1, 2, 3, 4, 5, 6})), "start-framing", "the start request is malformed or has unknown fields")) return;
  run.Check(s.All(1) == std::vector<std::string>{c.protocol}, "start-protocol", "application protocols differ");
  run.Check(s.U(2) == static_cast<uint64_t>(c.min) && s.U(3) == static_cast<uint64_t>(c.max), "start-version", "versions %llu..%llu, configured %d..%d", static_cast<unsigned long long>(s.U(2)), static_cast<unsigned long long>(s.U(3)), c.min, c.max);
  std::vector<uint64_t> suites(c.suites.begin(), c.suites.end());
  run.Check(s.Nums(4) == suites, "start-ciphersuites", "%zu ciphersuites in the request, %zu configured, or order or values differ", s.Nums(4).size(), suites.size());
  if (c.client) {
    run.Check(ReadIds(s.All(5)) == SetOf(c.targets), "start-targets", "target identities differ (%d sent)", s.Count(5));
    run.Check(ReadIds(s.All(6)) == SetOf(c.locals), "start-locals", "local identity differs");
    run.Check(s.S(7) == c.target && s.Count(7) <= 1, "start-target", "target name differs");
  } else {
    run.Check(ReadIds(s.All(5)) == SetOf(c.locals), "start-locals", "local identities differ (%d sent)", s.Count(5));
    run.Check(s.S(6) == in_bytes && s.Count(6) <= 1, "start-bytes", "%zu peer bytes sent, %zu given", s.S(6).size(), in_bytes.size());
  }
}
inline std::multiset<std::pair<Id, std::string>> Auth(Run& run, const std::string& bytes) {
  std::multiset<std::pair<Id, std::string>> out;
  pb::R r(bytes);
  for (auto& a : r.All(5)) {
    pb::R m(a);
    run.Check(m.ok && m.Only({1, 2}) && m.Count(2) == 1 && m.Count(1) <= 1, "auth-framing", "malformed authentication mechanism");
    Id id = m.Has(1) ? ReadId(m.S(1)) : Id{0, ""};
    run.Check(id.kind >= 0 && (!m.Has(1) || id.kind > 0), "auth-framing", "malformed identity in an authentication mechanism");
    out.insert({id, m.S(2)});
  }
  return out;
}


// A session response under construction.
struct Resp {
  int status = 1;  // 0 absent, 1 OK, 2 error
  unsigned code = 0;
  std::string details, frames;
  bool has_frames = true;
  uint32_t consumed = 0;
  bool has_local = false;
  Id local{0, ""};
  bool result = false, state = true, has_peer = true, has_result_local = true;
  std::string protocol;
  uint64_t version = 1, suite = 0, in_seq = 0, out_seq = 0, cid = 0;
  std::string in_key, out_key, peer_fp, local_fp;
  bool resumed = false;
  Id peer{1, "p"}, result_local{2, "l"};
  std::string Encode(Rng* rng = nullptr) const {
    pb::W w;
    if (has_local) w.M(1, IdMsg(local));
    if (has_frames) w.B(2, frames);
    if (consumed || (rng && rng->Chance(1, 2))) w.V(3, consumed);
    if (result) {
      pb::W r;
      if (!protocol.empty()) r.B(1, protocol);
      if (state) {
        pb::W s;
        if (version || (rng && rng->Chance(1, 2))) s.V(1, version);
        if (suite || (rng && rng->Chance(1, 2))) s.V(2, suite);
        if (in_seq) s.V(3, in_seq);
        if (out_seq) s.V(4, out_seq);
        s.B(5, in_key).B(6, out_key);
        if (rng && rng->Chance(1, 4)) s.B(7, "fixed-in").B(8, "fixed-out");
        if (cid) s.V(9, cid);
        if (resumed) s.V(10, 1);
        r.M(2, s);
      }
      if (has_peer) r.M(4, IdMsg(peer));
      if (has_result_local) r.M(5, IdMsg(result_local));
      if (!local_fp.empty()) r.B(6, local_fp);
      if (!peer_fp.empty()) r.B(7, peer_fp);
      w.M(4, r);
    }
    if (status) { pb::W s; if (code) s.V(1, code); if (!details.empty()) s.B(2, details); w.M(5, s); }
    if (rng && rng->Chance(1, 6)) w.V(99, 7);  // a field of a later protocol version
    return w.s;
  }
  bool GoodStatus() const { return status == 1 && code == 0; }
  bool GoodResult() const { return state && version <= 1 && suite <= 2 && has_result_local; }
};
// Any non-zero status code.
inline unsigned BadCode(Rng& rng) {
  switch (rng.Below(4)) {
    case 0: { static const unsigned k[] = {256, 512, 65536, 131072, 0x1000000, 0x7fffff00, 0x80000000, 0xffffff00, 0xffff0000, 0xffffffff, 0x80000001, 0x100}; return k[rng.Below(12)]; }
    case 1: return std::max(1u, static_cast<unsigned>(rng.Number(32)));
    default: return 1 + static_cast<unsigned>(rng.Below(20));
  }
}
inline Resp GoodResult(Rng& rng, ref::Aead* aead = nullptr) {
  Resp r;
  r.result = true;
  int a = static_cast<int>(rng.Below(3));
  if (aead) *aead = kAeads[a];
  r.suite = static_cast<uint64_t>(a);
  r.in_key = Str(rng.Key(SecretSize(kAeads[a])));
  r.out_key = Str(rng.Key(SecretSize(kAeads[a])));
  r.in_seq = rng.Chance(1, 2) ? 0 : rng.Number(1);
  r.out_seq = rng.Chance(1, 2) ? 0 : rng.Number(1);
  r.cid = rng.Number();
  r.resumed = rng.Chance(1, 2);
  r.protocol = Text(rng, 20);
  r.peer = RandomId(rng);
  r.result_local = RandomId(rng);
  r.peer_fp = Str(rng.Data(rng.Chance(1, 4) ? rng.Below(70) : 32));
  r.local_fp = Str(rng.Data(rng.Chance(1, 4) ? rng.Below(70) : 32));
  r.frames = Str(rng.Data(rng.Len(500)));
  r.consumed = static_cast<uint32_t>(rng.Number(32));
  return r;
}
}  // namespace px
#endif
