// The handshake side: C15 (resumption request), C20-C24 (proxy), C25 (context
// serialization), C30 (conversions), C34 (tickets of sessions).
#include <functional>
#include <map>
#include <set>

#include "include/access_token_manager.h"
#include "include/s2a_context.h"
#include "include/s2a_proxy.h"
#include "px.h"
#include "src/crypto/hkdf.h"
#include "src/handshaker/s2a_util.h"
#include "src/proto/upb-generated/proto/s2a.upb.h"
#include "src/proto/upb-generated/proto/s2a_context.upb.h"
#include "src/record_protocol/s2a_crypter_util.h"
#include "src/record_protocol/s2a_ticket_sender.h"
#include "upb/upb.hpp"

using namespace px;
using vh::Guard;

namespace {
// What comes with every error.
bool Nothing(const S2AProxy::ProxyStatus& s) { return s.buffer == nullptr && s.bytes_consumed == 0; }

// ---------------------------------------------------------------- C15
void Resumption(Run& run, Rng* tape = nullptr) {
  run.Rule("a case is one resumption request built from random tickets, identity and connection id, serialized and read by an independent protobuf reader; "
           "distinct by identity kind, ticket sizes and id");
  Rng own(run.seed() * 23 + 15);
  Rng& rng = tape ? *tape : own;
  CASES(c, 4000, 80000) {
    Id id = rng.Chance(1, 10) ? Id{0, ""} : RandomId(rng);
    uint64_t cid = c < 64 ? (c == 0 ? 0 : ~0ULL >> (64 - c)) : rng.Number();
    std::unique_ptr<std::vector<std::unique_ptr<std::string>>> tickets;
    std::vector<std::string> want;
    std::string sizes;
    if (!rng.Chance(1, 15)) {
      tickets.reset(new std::vector<std::unique_ptr<std::string>>);
      size_t n = rng.Below(rng.Chance(1, 8) ? 40 : 7);
      for (size_t i = 0; i < n; i++) {
        size_t z = rng.Chance(1, 40) ? rng.Below(200000) : rng.Len(400);
        want.push_back(Str(rng.Data(z)));
        if (i && rng.Chance(1, 6)) want.back() = want[rng.Below(i)];  // repeated tickets stay repeated
        tickets->emplace_back(new std::string(want.back()));
        sizes += Fmt("%zu,", want.back().size());
      }
    }
    bool null = tickets == nullptr;
    run.Begin("case %zu: identity %s, connection %llu, tickets %s", c, id.Show().c_str(), static_cast<unsigned long long>(cid), null ? "null" : sizes.substr(0, 100).c_str());
    upb::Arena arena;
    s2a_proto_SessionReq* req = s2a_proto_SessionReq_new(arena.ptr());
    std::string text = id.text;
    Identity ident = ToS2A(id);
    bool ok = s2a::s2a_ticket_sender::PrepareResumptionTicketReq(cid, ident, tickets, arena.ptr(), req);
    run.Check(ok == (!null && id.kind != 0), "prepare", "returned %d for identity kind %d, tickets %s", ok, id.kind, null ? "null" : "given");
    run.Nontrivial(Fmt("%d/%s/%d", id.kind, sizes.c_str(), null) + std::to_string(cid));
    if (!ok) { run.Count("refused"); continue; }
    run.Count("requests");
    run.Count("tickets", want.size());
    size_t len = 0;
    char* p = s2a_proto_SessionReq_serialize(req, arena.ptr(), &len);
    pb::R r(std::string(p, len));
    if (!run.Check(r.ok && r.Only({4}) && r.Count(4) == 1, "request-framing", "not exactly one resumption request")) continue;
    pb::R t(r.S(4));
    if (!run.Check(t.ok && t.Only({1, 2, 3}), "request-framing", "malformed resumption request")) continue;
    run.Check(t.All(1) == want, "tickets", "%d tickets sent, %zu given, or bytes or order differ", t.Count(1), want.size());
    run.Check(t.U(2) == cid, "connection-id", "%llu sent", static_cast<unsigned long long>(t.U(2)));
    run.Check(t.Count(3) == 1 && ReadId(t.S(3)) == id, "identity", "identity %s sent, %s given", ReadId(t.S(3)).Show().c_str(), id.Show().c_str());
    if (c < 3) run.Sample(Fmt("identity %s connection %llu tickets %s", id.Show().c_str(), static_cast<unsigned long long>(cid), sizes.c_str()));
  }
}

// ---------------------------------------------------------------- C20
void Start(Run& run, Rng* tape = nullptr) {
  run.Rule("a case is one first request for a random configuration and role, read by an independent protobuf reader and compared with the configuration; "
           "distinct by configuration");
  Rng own(run.seed() * 23 + 20);
  Rng& rng = tape ? *tape : own;
  CASES(c, 6000, 120000) {
    Config k = RandomConfig(rng);
    if (c % 25 == 0 && k.client) { k.locals.clear(); while (SetOf(k.locals).size() < 2 + rng.Below(3)) k.locals.push_back(RandomId(rng)); }
    bool many = k.client && SetOf(k.locals).size() > 1;
    bool bad_suite = rng.Chance(1, 25);
    if (bad_suite) k.suites.insert(k.suites.begin() + static_cast<long>(rng.Below(k.suites.size() + 1)), 3 + static_cast<int>(rng.Below(100)));
    auto tokens = std::make_shared<Tokens>();
    auto proxy = MakeProxy(k, tokens, rng.Chance(1, 2));
    run.Begin("case %zu: %s, versions %d-%d, %zu suites, %zu local, %zu target identities, protocol of %zu, target of %zu bytes", c, k.client ? "client" : "server", k.min, k.max, k.suites.size(),
              k.locals.size(), k.targets.size(), k.protocol.size(), k.target.size());
    if (!run.Check(proxy != nullptr, "create", "proxy not created")) continue;
    std::string in;
    if (!k.client && rng.Chance(4, 5)) in = Str(rng.Data(rng.Chance(1, 30) ? rng.Below(70000) : rng.Len(600)));
    if (k.client && rng.Chance(1, 6)) {
      // A client must not be given peer bytes first; the refusal leaves it able to start.
      auto s = proxy->GetBytesForS2A(Buf("x" + Str(rng.Data(rng.Below(30)))));
      run.Check(!s.status.ok() && Nothing(s), "client-bytes", "a client start with peer bytes was accepted");
      run.Count("refused_client_bytes");
    }
    auto s = proxy->GetBytesForS2A(in.empty() && rng.Chance(1, 2) ? nullptr : Buf(in));
    run.Nontrivial(Fmt("%d%d%d/%zu/%zu/%zu/%zu/%zu", k.client, k.min, k.max, k.suites.size(), k.locals.size(), k.targets.size(), in.size(), vh::Hash(k.protocol + k.target)));
    if (many || bad_suite) {
      run.Check(!s.status.ok() && Nothing(s), "bad-config", "a start with %s was accepted", many ? "several client identities" : "an unknown ciphersuite");
      run.Count(many ? "refused_many_identities" : "refused_unknown_ciphersuite");
      continue;
    }
    if (!run.Check(s.status.ok() && s.buffer != nullptr, "start", "refused: %s", std::string(s.status.message()).c_str())) continue;
    CheckStart(run, k, Str(*s.buffer), in);
    run.Count(k.client ? "client_starts" : "server_starts");
    if (c < 4) run.Sample(Fmt("%s: %zu suites, %zu local, %zu targets", k.client ? "client" : "server", k.suites.size(), k.locals.size(), k.targets.size()));
  }
  // No options or no logger: no proxy.
  for (int i = 0; i < 3; i++) {
    run.Begin("create without %s", i == 0 ? "options" : i == 1 ? "a logger" : "both");
    Config k;
    S2AProxy::S2AProxyOptions o = {i == 0 ? S2AProxy::Logger([](const std::string&) {}) : S2AProxy::Logger(nullptr), true, "p", "t", i == 1 ? Options(k) : nullptr, nullptr, nullptr, nullptr};
    run.Check(S2AProxy::Create(o) == nullptr, "create", "created");
  }
}

bool ContextMatches(const S2AContext& c, const Resp& r, std::string* why) {
  auto bad = [&](const char* w) { *why = w; return false; };
  if (c.ApplicationProtocol() != r.protocol) return bad("application protocol");
  if (c.TlsVersion() != (r.version ? TlsVersion::TLS1_3 : TlsVersion::TLS1_2)) return bad("TLS version");
  if (c.Ciphersuite() != SuiteOf(kAeads[r.suite])) return bad("ciphersuite");
  if (!(FromS2A(c.PeerIdentity()) == (r.has_peer ? r.peer : Id{0, ""}))) return bad("peer identity");
  if (!(FromS2A(c.LocalIdentity()) == r.result_local)) return bad("local identity");
  if (c.PeerCertFingerprint() != r.peer_fp) return bad("peer certificate fingerprint");
  if (c.LocalCertFingerprint() != r.local_fp) return bad("local certificate fingerprint");
  if (c.IsHandshakeResumed() != r.resumed) return bad("resumption flag");
  return true;
}
// Uses whatever the proxy offers; only for memory safety and consistency.
void Exercise(Run& run, S2AProxy* p, bool expect_finished) {
  bool fin = p->IsHandshakeFinished();
  auto fp = p->CreateFrameProtector();
  auto ctx = p->GetS2AContext();
  run.Check(fin || !fp.ok(), "early-protector", "a frame protector before the handshake finished");
  run.Check(fin || ctx.index() == 0, "early-context", "a context before the handshake finished");
  if (fin && ctx.index() == 1 && absl::get<1>(ctx)) {
    auto& c = *absl::get<1>(ctx);
    run.Check(c.TlsVersion() == TlsVersion::TLS1_2 || c.TlsVersion() == TlsVersion::TLS1_3, "context", "undefined TLS version");
    run.Check(static_cast<int>(c.Ciphersuite()) >= 0 && static_cast<int>(c.Ciphersuite()) <= 2, "context", "undefined ciphersuite");
    c.GetSerializedContext();
  }
  if (fp.ok()) {
    uint8_t x[3] = {1, 2, 3};
    auto r = (*fp)->Protect({{x, 3}});
    run.Check(r.status.ok(), "protector", "a frame protector that cannot protect");
    for (auto& b : r.bytes) delete[] static_cast<uint8_t*>(b.iov_base);
  }
  (void)expect_finished;
}

// ---------------------------------------------------------------- C21
void Forward(Run& run, Rng* tape = nullptr) {
  run.Rule("a case is one call of a handshake: peer bytes in, request out, or response in, frames out; read by an independent protobuf reader; distinct by role, step, sizes");
  Rng own(run.seed() * 23 + 21);
  Rng& rng = tape ? *tape : own;
  CASES(c, 1200, 25000) {
    Config k = RandomConfig(rng);
    auto tokens = std::make_shared<Tokens>();
    for (auto& i : k.locals) if (rng.Chance(1, 2)) tokens->token[i] = "t" + i.Show();
    auto proxy = MakeProxy(k, tokens, rng.Chance(2, 3));
    if (!run.Check(proxy != nullptr, "create", "proxy not created")) continue;
    bool started = false, finished = false;
    size_t steps = !tape && c < 2 ? run.Many(300) : 3 + rng.Below(10);
    for (size_t i = 0; i < steps && !run.TooMany(); i++) {
      if (rng.Chance(1, 2) || !started) {
        size_t n = rng.Chance(1, 5) ? 0 : rng.Chance(1, 40) ? rng.Below(70000) : rng.Len(600);
        std::string in = Str(rng.Data(n));
        bool null = n == 0 && rng.Chance(1, 2);
        run.Begin("case %zu step %zu: %s %s, %zu bytes from the peer", c, i, k.client ? "client" : "server", started ? "next" : "start", n);
        auto s = proxy->GetBytesForS2A(null ? nullptr : Buf(in));
        bool want = started ? n > 0 : !k.client || n == 0;
        run.Check(s.status.ok() == want && (want ? s.buffer != nullptr : Nothing(s)), "order", "%s with %zu bytes was %s", started ? "next" : "start", n, s.status.ok() ? "accepted" : "refused");
        run.Nontrivial(Fmt("s%d%d/%zu/%zu", k.client, started, n, i));
        if (!s.status.ok() || !s.buffer) { run.Count("refused"); continue; }
        run.Check(s.bytes_consumed == 0, "consumed", "%zu bytes reported consumed before the S2A has said so", s.bytes_consumed);
        if (!started) { CheckStart(run, k, Str(*s.buffer), in); started = true; run.Count("starts"); continue; }
        pb::R r(Str(*s.buffer));
        if (!run.Check(r.ok && r.Only({3, 5}) && r.Count(3) == 1, "next-framing", "not exactly one next request")) continue;
        pb::R m(r.S(3));
        run.Check(m.ok && m.Only({1}) && m.Count(1) == 1 && m.S(1) == in, "next-bytes", "%zu peer bytes in the request, %zu given, or they differ", m.S(1).size(), in.size());
        run.Count("nexts");
        run.Count("peer_bytes", in.size());
      } else {
        Resp r;
        r.frames = Str(rng.Data(rng.Chance(1, 40) ? rng.Below(70000) : rng.Len(600)));
        r.has_frames = rng.Chance(5, 6);
        if (!r.has_frames) r.frames.clear();
        r.consumed = static_cast<uint32_t>(rng.Number(32));
        if (rng.Chance(1, 4)) { r.has_local = true; r.local = k.locals.empty() ? RandomId(rng) : k.locals[rng.Below(k.locals.size())]; }
        if (rng.Chance(1, 5)) { r.code = BadCode(rng); r.details = Text(rng, 30); }
        if (rng.Chance(1, 12)) { Resp g = GoodResult(rng); g.frames = r.frames; g.has_frames = r.has_frames; g.consumed = r.consumed; g.code = r.code; g.details = r.details; r = g; }
        run.Begin("case %zu step %zu: response with %zu bytes of frames, %u consumed, code %u%s", c, i, r.frames.size(), r.consumed, r.code, r.result ? ", result" : "");
        auto s = proxy->GetBytesForPeer(Buf(r.Encode(&rng)));
        run.Check(s.status.ok() == r.GoodStatus(), "status", "response with code %u was %s", r.code, s.status.ok() ? "accepted" : "refused");
        if (!s.status.ok()) run.Check(Nothing(s), "error", "an error came with frames or consumed bytes");
        if (r.GoodStatus() && s.status.ok()) {
          run.Check(s.buffer && Str(*s.buffer) == r.frames, "frames", "%zu bytes of frames for the peer, %zu sent by the S2A, or they differ", s.buffer ? s.buffer->size() : 0, r.frames.size());
          run.Check(s.bytes_consumed == r.consumed, "consumed", "%zu bytes reported consumed, %u by the S2A", s.bytes_consumed, r.consumed);
          finished |= r.result;
          run.Count("responses");
        }
        run.Check(proxy->IsHandshakeFinished() == finished, "finished", "handshake reported %s", finished ? "unfinished" : "finished");
        run.Nontrivial(Fmt("p%d/%zu/%u/%u/%d", k.client, r.frames.size(), r.consumed, r.code, r.result));
        if (rng.Chance(1, 8)) {
          auto e = proxy->GetBytesForPeer(rng.Chance(1, 2) ? nullptr : Buf(""));
          run.Check(!e.status.ok() && Nothing(e), "empty-response", "an empty response was accepted");
        }
      }
    }
    if (c < 4) run.Sample(Fmt("%s handshake of %zu steps", k.client ? "client" : "server", steps));
  }
  // A start that was refused is not a start: however the caller goes on, no next request comes out of that proxy.
  CASES(c, 300, 6000) {
    Config k = RandomConfig(rng);
    bool many = k.client && c % 2;
    if (many) { k.locals.clear(); while (SetOf(k.locals).size() < 2 + rng.Below(3)) k.locals.push_back(RandomId(rng)); }
    else k.suites.insert(k.suites.begin() + static_cast<long>(rng.Below(k.suites.size() + 1)), 3 + static_cast<int>(rng.Below(100)));
    auto proxy = MakeProxy(k, std::make_shared<Tokens>(), rng.Chance(2, 3));
    if (!run.Check(proxy != nullptr, "create", "proxy not created")) continue;
    for (size_t i = 0, steps = 2 + rng.Below(5); i < steps; i++) {
      size_t n = rng.Chance(1, 2) ? 0 : rng.Len(200);
      run.Begin("refused start %zu step %zu: %s with %s, %zu bytes from the peer", c, i, k.client ? "client" : "server", many ? "several identities" : "an unknown ciphersuite", n);
      auto s = proxy->GetBytesForS2A(n == 0 && rng.Chance(1, 2) ? nullptr : Buf(Str(rng.Data(n))));
      run.Check(!s.status.ok() && Nothing(s), "order-after-refused-start", "a request came out of a proxy whose start was refused");
      run.Check(!proxy->IsHandshakeFinished(), "finished", "handshake reported finished");
      run.Nontrivial(Fmt("r%d%d/%zu/%zu", k.client, many, n, i));
      run.Count("refused_after_refused_start");
    }
  }
}

// ---------------------------------------------------------------- C22
void Hostile(Run& run, Rng* tape = nullptr) {
  run.Rule("a case is one response from a misbehaving S2A: a field missing, out of range or inconsistent, or bytes truncated, flipped, spliced or random; "
           "distinct by what is wrong, or by the bytes");
  Rng own(run.seed() * 23 + 22);
  Rng& rng = tape ? *tape : own;
  Config k;
  k.protocol = "grpc";
  k.locals = {{2, "local"}};
  auto fresh = [&] { auto p = MakeProxy(k, std::make_shared<Tokens>()); p->GetBytesForS2A(nullptr); return p; };
  // Every combination of missing parts, with wrong values, alone and after a good result.
  const unsigned pick = static_cast<unsigned>(rng.Plain(8192));
  for (int after_good = 0; after_good < 2; after_good++)
    for (unsigned m = 0; m < 4096 && !run.TooMany(); m++) {
      if (rng.tape() && static_cast<unsigned>(after_good) * 4096 + m != pick) continue;
      Resp r = GoodResult(rng);
      r.status = m & 1 ? 0 : 1;
      if (m & 2) r.code = BadCode(rng);
      if (m & 4) r.result = false;
      if (m & 8) r.state = false;
      if (m & 16) r.version = rng.Chance(1, 2) ? 2 + rng.Below(5) : rng.U64() >> rng.Below(60);
      if (m & 32) r.suite = rng.Chance(1, 2) ? 3 + rng.Below(5) : rng.U64() >> rng.Below(60);
      if (m & 64) r.has_result_local = false;
      if (m & 128) r.has_peer = false;
      if (m & 256) r.in_key = Str(rng.Data(rng.Below(70)));
      if (m & 512) r.out_key = Str(rng.Data(rng.Below(70)));
      if (m & 1024) r.has_local = true, r.local = RandomId(rng);
      if (m & 2048) r.version = 0;
      // Enum fields are 32-bit on the wire.
      r.version &= 0x7fffffff;
      r.suite &= 0x7fffffff;
      if (m & 16 && r.version < 2 && !(m & 2048)) r.version = 2;
      if (m & 32 && r.suite < 3) r.suite = 3;
      run.Begin("%s response mask %03x: status %d code %u result %d state %d version %llu suite %llu local %d keys %zu/%zu", after_good ? "second" : "first", m, r.status, r.code, r.result, r.state,
                static_cast<unsigned long long>(r.version), static_cast<unsigned long long>(r.suite), r.has_result_local, r.in_key.size(), r.out_key.size());
      auto p = fresh();
      Resp first = GoodResult(rng);
      if (after_good) p->GetBytesForPeer(Buf(first.Encode()));
      auto s = p->GetBytesForPeer(Buf(r.Encode(&rng)));
      bool ok = r.GoodStatus() && (!r.result || r.GoodResult());
      run.Check(s.status.ok() == ok && (ok || Nothing(s)), "verdict", "%s (%s)", s.status.ok() ? "accepted" : "refused", std::string(s.status.message()).c_str());
      bool fin = after_good || (ok && r.result);
      run.Check(p->IsHandshakeFinished() == fin, "finished", "handshake reported %s", fin ? "unfinished" : "finished");
      if (!fin) { Exercise(run, p.get(), false); run.Count("unfinished"); }
      else {
        const Resp& used = ok && r.result ? r : first;
        auto fp = p->CreateFrameProtector();
        size_t sz = SecretSize(kAeads[used.suite]);
        bool usable = used.version == 1 && used.in_key.size() == sz && used.out_key.size() == sz;
        run.Check(fp.ok() == usable, "protector", "frame protector %s with version %llu and keys of %zu and %zu bytes", fp.ok() ? "created" : "refused", static_cast<unsigned long long>(used.version), used.in_key.size(), used.out_key.size());
        auto ctx = p->GetS2AContext();
        std::string why;
        run.Check(ctx.index() == 1 && absl::get<1>(ctx) && ContextMatches(*absl::get<1>(ctx), used, &why), "context", "%s%s", after_good && &used == &first ? "a refused second response changed the context: " : "", why.c_str());
        if (fp.ok()) {
          // Not a mixture of two responses: it decrypts what a peer with these keys sends.
          ref::Tls13Half peer(kAeads[used.suite], Bytes(used.in_key.begin(), used.in_key.end()), used.in_seq);
          Bytes d = rng.Data(9), rec = peer.Protect(23, d);
          auto u = (*fp)->Unprotect({{rec.data(), rec.size()}});
          run.Check(u.status.ok() && u.bytes.size() == 1 && u.bytes[0].iov_len == 9 && !memcmp(u.bytes[0].iov_base, d.data(), 9), "protector", "the frame protector does not use the result's keys");
          for (auto& b : u.bytes) delete[] static_cast<uint8_t*>(b.iov_base);
        }
        run.Count("finished");
      }
      run.Nontrivial(Fmt("m%d/%x", after_good, m));
    }
  // Bytes.
  CASES(c, 25000, 600000) {
    Resp r = GoodResult(rng);
    if (rng.Chance(1, 4)) r.result = false;
    if (rng.Chance(1, 4)) r.has_local = true, r.local = RandomId(rng);
    std::string b = r.Encode(&rng);
    std::string orig = b;
    switch (rng.Below(6)) {
      case 0: b.resize(rng.Below(b.size())); break;
      case 1: for (size_t n = 1 + rng.Below(4); n; n--) b[rng.Below(b.size())] ^= static_cast<char>(1 << rng.Below(8)); break;
      case 2: for (size_t n = 1 + rng.Below(4); n; n--) b[rng.Below(b.size())] = static_cast<char>(rng.Chance(1, 2) ? rng.U64() : 0xff); break;
      case 3: { size_t at = rng.Below(b.size()); std::string ins = Str(rng.Data(1 + rng.Below(8))); b.insert(at, ins); break; }
      case 4: { size_t at = rng.Below(b.size()); b.erase(at, 1 + rng.Below(8)); break; }
      case 5: b = Str(rng.Data(1 + rng.Below(120))); break;
    }
    run.Begin("bytes %zu: %s", c, vh::Hex(reinterpret_cast<const uint8_t*>(b.data()), b.size(), 400).c_str());
    auto p = fresh();
    Guard g(Bytes(b.begin(), b.end()), true);
    auto s = p->GetBytesForPeer(Buf(b));
    run.Check(s.status.ok() || (Nothing(s) && !p->IsHandshakeFinished()), "verdict", "an error came with frames, or finished the handshake");
    bool fin = p->IsHandshakeFinished();
    run.Count(fin ? "mutant_finished" : s.status.ok() ? "mutant_ok" : "mutant_refused");
    Exercise(run, p.get(), fin);
    if (rng.Chance(1, 3)) {
      // The session is not corrupted: a good response still finishes it.
      auto t = p->GetBytesForPeer(Buf(orig));
      run.Check(t.status.ok(), "after-hostile", "a good response was refused after a bad one: %s", std::string(t.status.message()).c_str());
      auto n = p->GetBytesForS2A(Buf("more"));
      run.Check(n.status.ok(), "after-hostile", "the proxy cannot go on after a bad response");
    }
    run.Nontrivial(vh::HashBytes(b.data(), b.size()));
  }
}

// ---------------------------------------------------------------- C23
void Session(Run& run, Rng* tape = nullptr) {
  run.Rule("a case is a finished handshake with random negotiated parameters whose frame protector exchanges traffic with an independent TLS 1.3 peer and whose "
           "context is compared field by field; distinct by parameters");
  Rng own(run.seed() * 23 + 23);
  Rng& rng = tape ? *tape : own;
  CASES(c, 1500, 30000) {
    Config k = RandomConfig(rng);
    auto proxy = MakeProxy(k, std::make_shared<Tokens>());
    if (!run.Check(proxy != nullptr, "create", "proxy not created")) continue;
    proxy->GetBytesForS2A(k.client ? nullptr : Buf("hello"));
    Resp mid;
    mid.frames = "frames";
    if (rng.Chance(1, 2)) proxy->GetBytesForPeer(Buf(mid.Encode()));
    ref::Aead a;
    Resp r = GoodResult(rng, &a);
    if (rng.Chance(1, 15)) r.version = 0;
    if (rng.Chance(1, 10)) r.has_peer = false;
    run.Begin("case %zu: %s, %s, version %llu, sequences %llu/%llu", c, k.client ? "client" : "server", Name(a), static_cast<unsigned long long>(r.version), static_cast<unsigned long long>(r.in_seq), static_cast<unsigned long long>(r.out_seq));
    run.Check(!proxy->IsHandshakeFinished() && !proxy->CreateFrameProtector().ok() && proxy->GetS2AContext().index() == 0, "early", "a session before the handshake finished");
    auto s = proxy->GetBytesForPeer(Buf(r.Encode(&rng)));
    if (!run.Check(s.status.ok() && proxy->IsHandshakeFinished(), "finish", "a good result was refused: %s", std::string(s.status.message()).c_str())) continue;
    // The S2A may say it again, or otherwise: the last result it gave counts, for context and keys alike.
    for (int more = rng.Chance(1, 4) ? 1 + static_cast<int>(rng.Below(2)) : 0; more > 0; more--) {
      Resp q = rng.Chance(1, 3) ? r : GoodResult(rng, &a);
      if (rng.Chance(1, 2)) q.cid = r.cid;
      r = q;
      run.Begin("case %zu: a further result, %s", c, Name(a));
      auto t = proxy->GetBytesForPeer(Buf(r.Encode(&rng)));
      run.Check(t.status.ok() && proxy->IsHandshakeFinished(), "finish", "a further good result was refused: %s", std::string(t.status.message()).c_str());
      run.Count("further_results");
    }
    auto fp = proxy->CreateFrameProtector();
    auto ctx = proxy->GetS2AContext();
    std::string why;
    run.Check(ctx.index() == 1 && absl::get<1>(ctx) && ContextMatches(*absl::get<1>(ctx), r, &why), "context", "the context differs in %s", why.c_str());
    if (rng.Chance(1, 2)) {
      ctx = absl::Status();
      for (int again = 0; again < 2; again++) {
        auto more = proxy->GetS2AContext();
        run.Check(more.index() == 1 && absl::get<1>(more) && ContextMatches(*absl::get<1>(more), r, &why), "context-again", "asking again for the context gives %s", more.index() == 0 ? "an error" : absl::get<1>(more) ? why.c_str() : "none");
      }
    }
    run.Nontrivial(Fmt("%d%d/%llu/%llu/%llu", k.client, static_cast<int>(a), static_cast<unsigned long long>(r.in_seq), static_cast<unsigned long long>(r.out_seq), static_cast<unsigned long long>(r.cid)));
    if (r.version == 0) { run.Check(!fp.ok(), "tls12", "a TLS 1.3 frame protector for a TLS 1.2 session"); run.Count("tls12_refused"); continue; }
    if (!run.Check(fp.ok() && *fp != nullptr, "protector", "no frame protector: %s", std::string(fp.status().message()).c_str())) continue;
    proxy.reset();  // the session outlives the handshake
    ref::Tls13Half in(a, Bytes(r.in_key.begin(), r.in_key.end()), r.in_seq), out(a, Bytes(r.out_key.begin(), r.out_key.end()), r.out_seq);
    for (int i = 0; i < 3; i++) {
      Bytes d = rng.Data(rng.Len(200)), rec = in.Protect(23, d);
      auto u = (*fp)->Unprotect({{rec.data(), rec.size()}});
      run.Check(u.status.ok() && u.bytes.size() == 1 && u.bytes[0].iov_len == d.size() && std::equal(d.begin(), d.end(), static_cast<uint8_t*>(u.bytes[0].iov_base)), "inbound", "record %d from the peer: %s", i, std::string(u.status.message()).c_str());
      for (auto& b : u.bytes) delete[] static_cast<uint8_t*>(b.iov_base);
      Bytes e = rng.Data(rng.Len(200));
      auto p = (*fp)->Protect({{e.data(), e.size()}});
      Bytes want = out.Protect(23, e);
      run.Check(p.status.ok() && p.bytes.size() == 1 && p.bytes[0].iov_len == want.size() && std::equal(want.begin(), want.end(), static_cast<uint8_t*>(p.bytes[0].iov_base)), "outbound", "record %d for the peer differs", i);
      for (auto& b : p.bytes) delete[] static_cast<uint8_t*>(b.iov_base);
      run.Count("records");
    }
    run.Count(k.client ? "client_sessions" : "server_sessions");
    if (c < 3) run.Sample(Fmt("%s %s seq %llu/%llu", k.client ? "client" : "server", Name(a), static_cast<unsigned long long>(r.in_seq), static_cast<unsigned long long>(r.out_seq)));
  }
}

// ---------------------------------------------------------------- C34
// Tickets received on finished sessions, several of them alive at once; the
// interposed ticket sender shows what reaches it.
struct Live {
  Config k;
  Resp r;
  std::unique_ptr<S2AProxy> proxy;
  std::unique_ptr<s2a::frame_protector::S2AFrameProtector> fp;
  std::unique_ptr<ref::Tls13Half> in;
  const void* factory = nullptr;
  const void* options = nullptr;
  std::vector<std::string> tickets;
  bool sent = false;
};
void TicketsOfSessions(Run& run, Rng* tape = nullptr) {
  run.Rule("a case is one delivery (tickets, a key update or data) on one of several sessions made by proxies; the calls of the ticket sender are compared with a model; "
           "distinct by role, ciphersuite, connection id and deliveries");
  using FactoryInterface = s2a::s2a_channel::S2AChannelFactoryInterface;
  Rng own(run.seed() * 23 + 34);
  Rng& rng = tape ? *tape : own;
  CASES(c, 700, 12000) {
    conn::Log() = conn::TicketLog();
    size_t calls = 0;
    {
      std::vector<Live> all(rng.Chance(1, 2) ? 1 : rng.Range(2, 4));
      bool good = true;
      for (auto& l : all) {
        l.k = RandomConfig(rng);
        while (l.k.client && SetOf(l.k.locals).size() > 1) l.k.locals.pop_back();
        l.k.address = "s2a-" + Text(rng, 40);
        std::unique_ptr<conn::Factory> f(rng.Chance(1, 8) ? nullptr : new conn::Factory);
        std::unique_ptr<FactoryInterface::S2AChannelOptionsInterface> o(rng.Chance(1, 8) ? nullptr : new FactoryInterface::S2AChannelOptionsInterface);
        l.factory = f.get();
        l.options = o.get();
        S2AProxy::S2AProxyOptions po = {[](const std::string&) {}, l.k.client, l.k.protocol, l.k.target, Options(l.k), std::move(f), std::move(o),
                                        std::unique_ptr<AccessTokenManagerInterface>(new Manager(std::make_shared<Tokens>()))};
        l.proxy = S2AProxy::Create(po);
        ref::Aead a;
        l.r = GoodResult(rng, &a);
        if (rng.Chance(1, 3)) { l.r.has_local = true; l.r.local = RandomId(rng); }
        run.Begin("case %zu: %s, %s, connection %llu, local identity %s, %zu sessions", c, l.k.client ? "client" : "server", Name(a), static_cast<unsigned long long>(l.r.cid), l.r.result_local.Show().c_str(), all.size());
        good = run.Check(l.proxy != nullptr, "create", "no proxy");
        if (!good) break;
        l.proxy->GetBytesForS2A(l.k.client ? nullptr : Buf("hello"));
        l.proxy->GetBytesForPeer(Buf(l.r.Encode(&rng)));
        auto fp = l.proxy->CreateFrameProtector();
        good = run.Check(fp.ok() && *fp != nullptr, "protector", "no frame protector: %s", std::string(fp.status().message()).c_str());
        if (!good) break;
        l.fp = std::move(*fp);
        if (rng.Chance(2, 3)) l.proxy.reset();  // the session outlives the handshake
        l.in.reset(new ref::Tls13Half(a, Bytes(l.r.in_key.begin(), l.r.in_key.end()), l.r.in_seq));
      }
      if (!good) continue;
      std::string shape;
      for (size_t step = rng.Range(2, 9); step && !run.TooMany(); step--) {
        size_t which = rng.Below(all.size());
        Live& l = all[which];
        bool data = rng.Chance(1, 3), full = l.tickets.size() >= 4;
        Bytes stream, want;
        if (!data && !l.sent && full) data = true;
        if (!data) {
          size_t n = 1 + rng.Below(l.sent ? 3 : std::min<size_t>(3, 4 - l.tickets.size()));
          Bytes messages;
          for (size_t i = 0; i < n; i++) {
            Bytes t = Msg(4, rng.Data(rng.Chance(1, 40) ? 60000 + rng.Below(30000) : rng.Chance(1, 10) ? 1 + rng.Below(20000) : 1 + rng.Below(200)));
            if (!l.sent) l.tickets.push_back(Str(t));
            messages = Cat(messages, t);
          }
          for (size_t off = 0; off < messages.size();) {
            size_t m = std::min<size_t>({messages.size() - off, kMax, 1 + rng.Below(2 * messages.size())});
            stream = Cat(stream, l.in->Protect(22, Bytes(messages.begin() + static_cast<long>(off), messages.begin() + static_cast<long>(off + m))));
            off += m;
          }
          if (rng.Chance(1, 4)) { stream = Cat(stream, l.in->Protect(22, Msg(24, {static_cast<uint8_t>(rng.Below(2))}))); l.in->KeyUpdate(); }
          shape += Fmt("%zuT%zu ", which, n);
        }
        if (data || rng.Chance(1, 5)) { want = rng.Data(rng.Below(40)); stream = Cat(stream, l.in->Protect(23, want)); data = true; shape += Fmt("%zuD ", which); }
        run.Begin("case %zu: %zu sessions, %s", c, all.size(), shape.c_str());
        auto u = l.fp->Unprotect({{stream.data(), stream.size()}});
        Bytes got;
        for (auto& b : u.bytes) { got.insert(got.end(), static_cast<uint8_t*>(b.iov_base), static_cast<uint8_t*>(b.iov_base) + b.iov_len); delete[] static_cast<uint8_t*>(b.iov_base); }
        run.Check(u.status.ok() && got == want, "delivery", "session %zu: %s", which, u.status.ToString().c_str());
        bool expect = data && !l.sent && !l.tickets.empty();
        if (expect) calls++;
        if (!run.Check(conn::Log().calls.size() == calls, "send-count", "the ticket sender was called %zu times, expected %zu", conn::Log().calls.size(), calls)) break;
        if (expect) {
          l.sent = true;
          auto& s = conn::Log().calls.back();
          run.Check(s.id == l.r.cid, "connection-id", "tickets sent for connection %llu instead of %llu", static_cast<unsigned long long>(s.id), static_cast<unsigned long long>(l.r.cid));
          run.Check(s.url == l.k.address, "address", "tickets sent to %s instead of %s", s.url.c_str(), l.k.address.c_str());
          run.Check(Id{s.type == 0 ? 0 : l.r.result_local.kind, s.identity} == l.r.result_local && s.type == static_cast<int>(ToS2A(l.r.result_local).GetIdentityType()), "identity", "tickets sent for %s instead of %s", s.identity.c_str(), l.r.result_local.Show().c_str());
          run.Check(s.factory == l.factory && s.options == l.options, "factory", "the ticket sender did not get the session's channel factory and options");
          run.Check(s.tickets == l.tickets, "tickets", "%zu tickets sent, %zu received, or they differ", s.tickets.size(), l.tickets.size());
          run.Count("sends");
          run.Count("tickets", s.tickets.size());
        }
        run.Nontrivial(Fmt("%d%d/%llu/%zu", l.k.client, static_cast<int>(l.r.suite), static_cast<unsigned long long>(l.r.cid), shape.size()));
      }
      if (c < 3) run.Sample(Fmt("%zu sessions: %s", all.size(), shape.c_str()));
      run.Check(conn::Log().waits == 0, "wait", "waited on the sender before the end");
    }
    run.Check(conn::Log().waits == static_cast<int>(conn::Log().calls.size()), "wait", "%d waits for %zu sends", conn::Log().waits, conn::Log().calls.size());
  }
}

// ---------------------------------------------------------------- C24
void TokensCheck(Run& run, Rng* tape = nullptr) {
  run.Rule("a case is one request of a handshake with a token manager that has different tokens for different identities (or none, or changing ones); each token in the "
           "request must be the one handed out for the identity it is attached to, and the expected ones must be there; distinct by identities and availability");
  Rng own(run.seed() * 23 + 24);
  Rng& rng = tape ? *tape : own;
  CASES(c, 5000, 100000) {
    Config k = RandomConfig(rng);
    auto t = std::make_shared<Tokens>();
    bool flaky = rng.Chance(1, 4) && (tape || c >= 2);  // availability and tokens change over time
    t->has_default = rng.Chance(3, 4);
    t->dflt = rng.Chance(1, 30) ? "" : "dflt" + Text(rng, 10);
    auto token_for = [&](const Id& i, int n) { return Fmt("token-%zx-%d-%d-", vh::Hash(i.text), i.kind, n) + Text(rng, 20); };
    std::vector<Id> universe = k.locals;
    for (int i = 0; i < 3; i++) universe.push_back(RandomId(rng, &k.locals));
    for (auto& i : universe) if (rng.Chance(2, 3)) t->token[i] = rng.Chance(1, 30) ? "" : token_for(i, 0);
    bool manager = !rng.Chance(1, 12);
    auto p = MakeProxy(k, t, manager);
    if (!run.Check(p != nullptr, "create", "proxy not created")) continue;
    std::set<Id> locals(k.locals.begin(), k.locals.end());
    // What a start request carries.
    auto initial = [&] {
      std::multiset<std::pair<Id, std::string>> w;
      if (!manager) return w;
      for (auto& i : locals) { auto it = t->token.find(i); if (it != t->token.end()) w.insert({i, it->second}); }
      if (locals.empty() && t->has_default) w.insert({Id{0, ""}, t->dflt});
      return w;
    };
    auto show = [](const std::multiset<std::pair<Id, std::string>>& s) { std::string o; for (auto& x : s) o += x.first.Show() + "=" + x.second.substr(0, 30) + " "; return o; };
    auto judge = [&](const std::string& bytes, const std::multiset<std::pair<Id, std::string>>& want, const char* what) {
      auto got = Auth(run, bytes);
      for (auto& x : got) run.Check(t->given.count(x), "token-misattached", "%s: token %s attached to %s was not handed out for it", what, x.second.substr(0, 40).c_str(), x.first.Show().c_str());
      std::set<Id> once;
      for (auto& x : got) run.Check(once.insert(x.first).second, "token-twice", "%s: two tokens for %s", what, x.first.Show().c_str());
      if (!flaky) run.Check(got == want, "tokens", "%s carries {%s}, expected {%s}", what, show(got).c_str(), show(want).c_str());
      run.Count("tokens_seen", got.size());
    };
    auto churn = [&] {
      if (!flaky) return;
      for (auto& i : universe) { if (rng.Chance(1, 3)) t->token.erase(i); else if (rng.Chance(1, 2)) t->token[i] = token_for(i, 1 + static_cast<int>(rng.Below(50))); }
      t->has_default = rng.Chance(1, 2);
    };
    run.Begin("case %zu: %s, %zu local identities, %zu with tokens, default %d%s%s", c, k.client ? "client" : "server", locals.size(), t->token.size(), t->has_default, flaky ? ", changing" : "", manager ? "" : ", no manager");
    auto s = p->GetBytesForS2A(k.client ? nullptr : Buf("hi"));
    if (!run.Check(s.status.ok() && s.buffer, "start", "refused")) continue;
    auto start = initial();
    judge(Str(*s.buffer), start, "start");
    run.Nontrivial(Fmt("%d/%zu/%zu/%d/%d/%d/%zu", k.client, locals.size(), start.size(), t->has_default, flaky, manager, c % 64));
    auto expect = start;
    bool known = true;
    size_t rounds = !tape && c < 2 ? run.Many(300) : 1 + rng.Below(rng.Chance(1, 10) ? 12 : 4);
    for (size_t i = 0; i < rounds && !run.TooMany(); i++) {
      churn();
      Resp r;
      r.frames = "f";
      if (rng.Chance(1, 2)) { r.has_local = true; r.local = !k.locals.empty() && rng.Chance(1, 2) ? k.locals[rng.Below(k.locals.size())] : universe[rng.Below(universe.size())]; }
      bool fail = rng.Chance(1, 10);
      if (fail) r.code = 3;
      p->GetBytesForPeer(Buf(r.Encode(&rng)));
      churn();
      run.Begin("case %zu round %zu: next after selecting %s", c, i, r.has_local && !fail ? r.local.Show().c_str() : "nothing");
      auto n = p->GetBytesForS2A(Buf("peer"));
      if (!run.Check(n.status.ok() && n.buffer, "next", "refused")) break;
      if (manager && r.has_local && !fail) {
        // A token for the selected identity replaces the others; without one they are sent again.
        auto it = t->token.find(r.local);
        if (it != t->token.end()) { expect.clear(); expect.insert({r.local, it->second}); }
        else { for (auto& x : initial()) { bool have = false; for (auto& e : expect) have |= e.first == x.first; if (!have) expect.insert(x); } }
      }
      // After a choice without a token, what is sent again is left open until
      // the next choice that has one.
      if (manager && r.has_local && !fail) known = t->token.count(r.local) || (known && i == 0);
      auto keep = flaky;
      if (!known) flaky = true;
      judge(Str(*n.buffer), expect, "next");
      flaky = keep;
      run.Count(r.has_local && !fail ? "next_selected" : "next_unselected");
    }
    if (c < 4) run.Sample(Fmt("%s, %zu local identities: start carries %s", k.client ? "client" : "server", locals.size(), show(start).substr(0, 150).c_str()));
  }
}

// ---------------------------------------------------------------- C25
void Context(Run& run, Rng* tape = nullptr) {
  run.Rule("a case is one context serialized, read by an independent protobuf reader and deserialized, or one deserialization of foreign, truncated or altered bytes; "
           "distinct by field values or bytes");
  Rng own(run.seed() * 23 + 25);
  Rng& rng = tape ? *tape : own;
  CASES(c, 8000, 150000) {
    Resp r = GoodResult(rng);
    r.version = rng.Below(2);
    if (rng.Chance(1, 8)) r.peer = {0, ""};
    if (rng.Chance(1, 8)) r.result_local = {0, ""};
    if (c < 512) { r.peer_fp = std::string(1, static_cast<char>(c)) + "x"; r.local_fp = "y" + std::string(1, static_cast<char>(c)); }
    if (c % 7 == 0) { r.peer_fp = Str(Bytes(rng.Below(40), 0)); r.local_fp[rng.Below(r.local_fp.size() + 1) % std::max<size_t>(1, r.local_fp.size())] = 0; }
    run.Begin("context %zu: version %llu suite %llu identities %s / %s fingerprints of %zu and %zu bytes", c, static_cast<unsigned long long>(r.version), static_cast<unsigned long long>(r.suite), r.peer.Show().c_str(),
              r.result_local.Show().c_str(), r.peer_fp.size(), r.local_fp.size());
    S2AContext x(r.protocol, r.version ? TlsVersion::TLS1_3 : TlsVersion::TLS1_2, SuiteOf(kAeads[r.suite]), ToS2A(r.peer), ToS2A(r.result_local), r.peer_fp, r.local_fp, r.resumed);
    std::string why;
    run.Check(ContextMatches(x, r, &why), "getter", "the context itself differs in %s", why.c_str());
    auto s = x.GetSerializedContext();
    if (!run.Check(s.index() == 1 && absl::get<1>(s), "serialize", "failed")) continue;
    std::string bytes = Str(*absl::get<1>(s));
    pb::R m(bytes);
    if (run.Check(m.ok && m.Only({1, 2, 3, 4, 5, 6, 7, 8}), "wire", "malformed")) {
      bool ok = m.S(1) == r.protocol && m.U(2) == r.version && m.U(3) == r.suite && m.S(6) == r.peer_fp && m.S(7) == r.local_fp && m.U(8) == (r.resumed ? 1u : 0u) &&
                ReadId(m.S(4)) == r.peer && ReadId(m.S(5)) == r.result_local;
      run.Check(ok, "wire", "an independent reader sees other values (fingerprints of %zu and %zu bytes)", m.S(6).size(), m.S(7).size());
    }
    Guard g(Bytes(bytes.begin(), bytes.end()), c & 1);
    auto y = s2a::s2a_context::GetS2AContextFromSerializedContext(reinterpret_cast<char*>(g.data()), g.size());
    if (run.Check(y.ok() && *y, "deserialize", "refused")) run.Check(ContextMatches(**y, r, &why), "round-trip", "after a round trip the context differs in %s", why.c_str());
    run.Nontrivial(vh::HashBytes(bytes.data(), bytes.size()));
    run.Count("round_trips");
    if (c < 3) run.Sample(Fmt("%zu bytes: %s", bytes.size(), vh::Hex(reinterpret_cast<const uint8_t*>(bytes.data()), bytes.size()).c_str()));
    // Contexts written by another implementation.
    pb::W w;
    uint64_t version = rng.Chance(1, 6) ? 2 + rng.Below(0x7ffffffd) : rng.Below(2), suite = rng.Chance(1, 6) ? 3 + rng.Below(0x7ffffffc) : rng.Below(3);
    w.B(7, r.local_fp).B(6, r.peer_fp);
    if (rng.Chance(1, 2)) w.V(50, 3);
    w.M(5, IdMsg(r.result_local)).M(4, IdMsg(r.peer)).V(3, suite).V(2, version).B(1, r.protocol).V(8, r.resumed);
    run.Begin("foreign context %zu: version %llu suite %llu", c, static_cast<unsigned long long>(version), static_cast<unsigned long long>(suite));
    auto f = s2a::s2a_context::GetS2AContextFromSerializedContext(w.s.data(), w.s.size());
    bool good = version < 2 && suite < 3;
    Resp rf = r;
    rf.version = version;
    rf.suite = suite;
    run.Check(f.ok() == good, "foreign", "version %llu, ciphersuite %llu: %s", static_cast<unsigned long long>(version), static_cast<unsigned long long>(suite), f.ok() ? "accepted" : "refused");
    if (f.ok() && good) run.Check(ContextMatches(**f, rf, &why), "foreign", "the context differs in %s", why.c_str());
    run.Count(good ? "foreign_good" : "foreign_refused");
    // Broken bytes.
    std::string b = rng.Chance(1, 2) ? bytes : w.s;
    if (b.empty()) continue;
    switch (rng.Below(4)) {
      case 0: b.resize(rng.Below(b.size())); break;
      case 1: b[rng.Below(b.size())] ^= static_cast<char>(1 << rng.Below(8)); break;
      case 2: b[rng.Below(b.size())] = static_cast<char>(rng.U64()); break;
      case 3: b = Str(rng.Data(rng.Below(60))); break;
    }
    run.Begin("broken context %zu: %s", c, vh::Hex(reinterpret_cast<const uint8_t*>(b.data()), b.size(), 300).c_str());
    Guard gb(Bytes(b.begin(), b.end()), true);
    auto z = s2a::s2a_context::GetS2AContextFromSerializedContext(reinterpret_cast<char*>(gb.data()), gb.size());
    if (z.ok()) {
      run.Check(*z && static_cast<int>((*z)->Ciphersuite()) <= 2 && static_cast<int>((*z)->Ciphersuite()) >= 0 && ((*z)->TlsVersion() == TlsVersion::TLS1_2 || (*z)->TlsVersion() == TlsVersion::TLS1_3), "broken", "an unusable context");
      auto again = (*z)->GetSerializedContext();
      if (run.Check(again.index() == 1, "broken", "a context that cannot be serialized")) {
        std::string ab = Str(*absl::get<1>(again));
        auto q = s2a::s2a_context::GetS2AContextFromSerializedContext(ab.data(), ab.size());
        run.Check(q.ok() && (*q)->PeerCertFingerprint() == (*z)->PeerCertFingerprint() && (*q)->LocalCertFingerprint() == (*z)->LocalCertFingerprint() && (*q)->Ciphersuite() == (*z)->Ciphersuite() &&
                      (*q)->TlsVersion() == (*z)->TlsVersion() && (*q)->IsHandshakeResumed() == (*z)->IsHandshakeResumed(),
                  "broken", "a context that does not survive a round trip");
      }
      run.Count("broken_accepted");
    } else {
      run.Count("broken_refused");
    }
  }
}

// ---------------------------------------------------------------- C30
void Conversions(Run& run) {
  run.Rule("a case is one conversion of a version, ciphersuite or identity; all defined values, all small and boundary undefined ones, random others; distinct by value");
  Rng rng(run.seed() * 23 + 30);
  std::vector<long long> values;
  for (long long v = -3000; v < 70000; v++) values.push_back(v);
  for (int s = 0; s < 32; s++) for (int d = -2; d <= 2; d++) { values.push_back((1LL << s) + d); values.push_back(-(1LL << s) + d); }
  for (size_t i = 0; i < run.N(20000, 500000); i++) values.push_back(static_cast<int>(rng.U64()));
  for (long long lv : values) {
    int v = static_cast<int>(lv);
    if (v % 1000 == 0) run.Begin("value %d", v);
    auto tv = s2a::s2a_util::ConvertFromProtoToTlsVersion(static_cast<s2a_proto_TLSVersion>(v));
    auto cv = s2a::s2a_util::ConvertFromProtoToCiphersuite(static_cast<s2a_proto_Ciphersuite>(v));
    auto tp = s2a::s2a_util::ConvertTlsVersionToProto(static_cast<TlsVersion>(v));
    auto cp = s2a::s2a_util::ConvertCiphersuiteToProto(static_cast<Suite>(v));
    bool tok = v == 0 || v == 1, cok = v >= 0 && v <= 2;
    bool ok = (tv.index() == 1) == tok && (tp.index() == 1) == tok && (cv.index() == 1) == cok && (cp.index() == 1) == cok;
    if (tv.index() == 0) ok &= !absl::get<0>(tv).ok();
    if (cv.index() == 0) ok &= !absl::get<0>(cv).ok();
    if (tp.index() == 0) ok &= !absl::get<0>(tp).ok();
    if (cp.index() == 0) ok &= !absl::get<0>(cp).ok();
    s2a::s2a_options::S2AOptions::Ciphersuite suite = static_cast<Suite>(v);
    s2a::hkdf::HashFunction h = v % 2 ? s2a::hkdf::HashFunction::SHA256_hash_function : s2a::hkdf::HashFunction::SHA384_hash_function;
    auto st = s2a::CiphersuiteToHashFunction(suite, &h);
    ok &= st.ok() == cok;
    ok &= !s2a::CiphersuiteToHashFunction(suite, nullptr).ok();
    if (cok) ok &= h == (v == 1 ? s2a::hkdf::HashFunction::SHA384_hash_function : s2a::hkdf::HashFunction::SHA256_hash_function);
    if (!run.Check(ok, "conversion", "value %d is converted wrongly", v)) break;
    if (tok || cok || v % 997 == 0) run.Nontrivial(static_cast<uint64_t>(v));
    run.Count("numeric_values");
  }
  run.Begin("defined values");
  auto is = [&](const char* what, bool ok) { run.Check(ok, "named", "%s", what); run.Nontrivial(what); };
  is("TLS 1.2 to proto", absl::get<1>(s2a::s2a_util::ConvertTlsVersionToProto(TlsVersion::TLS1_2)) == s2a_proto_TLS1_2);
  is("TLS 1.3 to proto", absl::get<1>(s2a::s2a_util::ConvertTlsVersionToProto(TlsVersion::TLS1_3)) == s2a_proto_TLS1_3);
  is("TLS 1.2 from proto", absl::get<1>(s2a::s2a_util::ConvertFromProtoToTlsVersion(s2a_proto_TLS1_2)) == TlsVersion::TLS1_2);
  is("TLS 1.3 from proto", absl::get<1>(s2a::s2a_util::ConvertFromProtoToTlsVersion(s2a_proto_TLS1_3)) == TlsVersion::TLS1_3);
  const std::pair<Suite, s2a_proto_Ciphersuite> suites[] = {{Suite::AES_128_GCM_SHA256, s2a_proto_AES_128_GCM_SHA256}, {Suite::AES_256_GCM_SHA384, s2a_proto_AES_256_GCM_SHA384}, {Suite::CHACHA20_POLY1305_SHA256, s2a_proto_CHACHA20_POLY1305_SHA256}};
  for (auto& s : suites) {
    is("ciphersuite to proto", absl::get<1>(s2a::s2a_util::ConvertCiphersuiteToProto(s.first)) == s.second);
    is("ciphersuite from proto", absl::get<1>(s2a::s2a_util::ConvertFromProtoToCiphersuite(s.second)) == s.first);
  }
  is("proto numbers", s2a_proto_TLS1_2 == 0 && s2a_proto_TLS1_3 == 1 && s2a_proto_AES_128_GCM_SHA256 == 0 && s2a_proto_AES_256_GCM_SHA384 == 1 && s2a_proto_CHACHA20_POLY1305_SHA256 == 2);
  is("null identity", FromS2A(s2a::s2a_util::ConvertFromProtoToIdentity(nullptr)) == Id{0, ""});
  is("null arena", s2a::s2a_util::ConvertIdentityToProto(nullptr, Identity::FromUid("u")).index() == 0);
  for (size_t c = 0; c < run.N(5000, 100000) && !run.TooMany(); c++) {
    Id id = c % 10 == 0 ? Id{0, ""} : RandomId(rng);
    run.Begin("identity %zu: %s", c, id.Show().c_str());
    upb::Arena arena;
    Identity ident = ToS2A(id);
    auto r = s2a::s2a_util::ConvertIdentityToProto(arena.ptr(), ident);
    if (!run.Check(r.index() == 1, "identity", "refused")) continue;
    s2a_proto_Identity* p = absl::get<1>(r);
    run.Check((p == nullptr) == (id.kind == 0), "identity", "an empty identity must become null, others must not");
    run.Check(FromS2A(s2a::s2a_util::ConvertFromProtoToIdentity(p)) == id, "identity", "does not convert back to itself");
    if (p) {
      size_t n = 0;
      char* b = s2a_proto_Identity_serialize(p, arena.ptr(), &n);
      run.Check(ReadId(std::string(b, n)) == id, "identity", "an independent reader sees another identity");
    }
    // From the wire, with attributes and without a kind.
    pb::W w;
    bool none = rng.Chance(1, 6);
    if (rng.Chance(1, 3)) { pb::W e; e.B(1, "key").B(2, "value"); w.M(3, e); }
    if (!none && id.kind) w.B(Wire(id.kind), id.text);
    s2a_proto_Identity* q = s2a_proto_Identity_parse(w.s.data(), w.s.size(), arena.ptr());
    if (run.Check(q != nullptr, "identity", "wire identity refused")) run.Check(FromS2A(s2a::s2a_util::ConvertFromProtoToIdentity(q)) == (none ? Id{0, ""} : id), "identity", "wire identity converted wrongly");
    run.Nontrivial(Fmt("%d/%zu/%d", id.kind, vh::Hash(id.text), none));
    run.Count("identities");
    // Text is taken by length.
    Bytes raw = rng.Data(rng.Len(60));
    run.Check(s2a::s2a_util::ParseUpbStrview(upb_strview_make(reinterpret_cast<char*>(raw.data()), raw.size())) == Str(raw), "strview", "text not taken verbatim");
  }
  run.Sample("versions and ciphersuites: -3000..70000, +-2^k+-2, random; identities of every kind");
}
}  // namespace

extern "C" s2a::s2a_ticket_sender::WaitOnTicketSender __wrap__ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE(s2a::s2a_ticket_sender::TicketSenderOptions& o);
extern "C" s2a::s2a_ticket_sender::WaitOnTicketSender __wrap__ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE(s2a::s2a_ticket_sender::TicketSenderOptions& o) { return conn::Sender(o); }

namespace {
// Answers of one kind again and again, past any small counter, before and after the good one.
void Marathon(Run& run) {
  Rng rng(run.seed() * 31 + 5);
  for (unsigned kind = 0; kind < 7 && !run.TooMany(); kind++) {
    Config k;
    k.client = kind % 2;
    k.protocol = "grpc";
    k.locals = {{2, "local"}};
    auto p = MakeProxy(k, std::make_shared<Tokens>());
    if (!run.Check(p != nullptr, "create", "proxy not created")) return;
    p->GetBytesForS2A(nullptr);
    const size_t n = run.Many(300);
    bool ok = true;
    Resp good = GoodResult(rng);
    good.version = 1;
    for (int after = 0; after < 2 && ok; after++) {
      size_t done = 0;
      for (; done < n && ok; done++) {
        if (done % 256 == 0) run.Begin("repetition %zu of answer kind %u, %s the good one", done, kind, after ? "after" : "before");
        Resp r = GoodResult(rng);
        std::string b;
        bool want = false;
        switch (kind) {
          case 0: r.code = 3; r.details = "no"; break;
          case 1: r.status = 0; break;
          case 2: r.suite = 3 + rng.Below(90); break;
          case 3: r.version = 2 + rng.Below(90); break;
          case 4: r.has_result_local = false; break;
          case 5: b = Str(rng.Data(1)) + "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff"; break;
          case 6: r.result = false; r.has_frames = true; want = true; break;
        }
        auto s = p->GetBytesForPeer(Buf(b.empty() ? r.Encode(&rng) : b));
        ok = run.Check(s.status.ok() == want && (want || Nothing(s)), "verdict", "answer %zu is %s", done, want ? "refused" : "accepted");
        ok = run.Check(p->IsHandshakeFinished() == (after == 1), "finished", "after answer %zu the handshake is reported %s", done, after ? "unfinished" : "finished") && ok;
        if (done % 7 == 0) {
          auto q = p->GetBytesForS2A(Buf("q"));
          ok = run.Check(q.status.ok() && q.buffer, "next", "after answer %zu no request comes out", done) && ok;
        }
      }
      run.Count("marathon_answers", done);
      if (!after && ok) ok = run.Check(p->GetBytesForPeer(Buf(good.Encode(&rng))).status.ok() && p->IsHandshakeFinished(), "after-hostile", "after %zu answers of kind %u the good one is refused", done, kind);
      for (size_t i = 0; after && i < n && ok; i++) {
        auto ctx = p->GetS2AContext();
        std::string why;
        ok = run.Check(ctx.index() == 1 && absl::get<1>(ctx) && ContextMatches(*absl::get<1>(ctx), good, &why), "context", "context %zu: %s", i, why.c_str());
      }
    }
    if (ok) Exercise(run, p.get(), true);
    run.Nontrivial(Fmt("marathon%u/%zu", kind, n));
  }
}

int Do(Run& run, Rng* tape) {
  const std::string& p = run.property();
  if (p == "C15") Resumption(run, tape);
  else if (p == "C20") Start(run, tape);
  else if (p == "C21") Forward(run, tape);
  else if (p == "C22") { Hostile(run, tape); if (!tape && run.round() == 0) Marathon(run); }
  else if (p == "C23") Session(run, tape);
  else if (p == "C24") TokensCheck(run, tape);
  else if (p == "C25") Context(run, tape);
  else if (p == "C30") Conversions(run);
  else if (p == "C34") TicketsOfSessions(run, tape);
  else return 3;
  return 0;
}
}  // namespace
int Workload(Run& run) {
  std::string why;
  if (!ref::Sealer::SelfTest(&why)) { fprintf(stderr, "oracle self-test: %s\n", why.c_str()); return 3; }
  return Do(run, nullptr);
}
void TapeCase(Run& run, Rng& rng) { Do(run, &rng); }
