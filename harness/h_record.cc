// Record layer: C05(record part) C07 C08 C09 C10 C11 C14.
#include <openssl/err.h>
#include <map>
#include <set>

#include <sys/mman.h>
#include "conn.h"
#include "wrap_ssl.h"

using namespace conn;
using s2a::record_protocol::S2AHalfConnection;
using vh::Fmt;
using vh::Guard;
using vh::Rng;
using vh::Run;
typedef S2ACrypter::RecordType RT;

namespace {
const RT kTypes[] = {RT::APPLICATION_DATA, RT::ALERT, RT::HANDSHAKE};
const uint8_t kTypeByte[] = {23, 21, 22};

std::vector<uint64_t> SpecialSeqs() {
  std::vector<uint64_t> v{0, 1, 2, 254, 255, 256, 65534, 65535, 65536};
  for (int k = 16; k < 64; k += 8) for (int d = -1; d < 2; d++) v.push_back((uint64_t{1} << k) + d);
  v.push_back((uint64_t{1} << 31) - 1); v.push_back(uint64_t{1} << 31); v.push_back(uint64_t{1} << 63); v.push_back((uint64_t{1} << 63) - 1);
  v.push_back(0x0102030405060708ULL); v.push_back(0xfffffffffffffff0ULL);
  return v;
}

bool ProtectOnce(Run& run, Conn& k, int type, const Bytes& pt, const std::vector<size_t>& split, size_t slack, unsigned salt) {
  Pieces p;
  p.Build(pt.data(), split, salt);
  Guard rec(pt.size() + kOverhead + slack, salt & 1);
  rec.Fill(0x3C);
  auto s = k.c->Protect(kTypes[type], p.iov, {rec.data(), rec.size()});
  Bytes want = k.out->Protect(kTypeByte[type], pt);
  bool ok = run.Check(s.GetCode() == Code::OK, "protect-failed", "a valid protect was refused: %s", s.GetErrorMessage().c_str());
  if (!ok) return false;
  ok &= run.Check(s.GetBytesWritten() == want.size(), "record-length", "%zu bytes written, the record has %zu", s.GetBytesWritten(), want.size());
  ok &= run.Check(memcmp(rec.data(), want.data(), want.size()) == 0, "record-bytes", "record %s.. differs from RFC 8446's %s..", vh::Hex(rec.data(), std::min<size_t>(want.size(), 24)).c_str(), vh::Hex(want, 24).c_str());
  for (size_t i = 0; i < slack; i++) if (rec.data()[want.size() + i] != 0x3C) { ok &= run.Check(false, "record-spill", "wrote past the record"); break; }
  ok &= run.Check(rec.CanaryOk(), "canary", "wrote around the record buffer");
  size_t off = 0;
  for (auto& v : p.iov) { if (v.iov_len && memcmp(v.iov_base, pt.data() + off, v.iov_len)) { ok &= run.Check(false, "input-modified", "plaintext modified"); break; } off += v.iov_len; }
  return ok;
}

// The content size for a record that has size `code` in all, or in its
// payload, for a number `code` that the code names; small otherwise.
size_t RecordContent(Rng& rng) {
  if (rng.Chance(3, 4)) return rng.Len(40);
  size_t n = rng.Len(kMax + kOverhead), less = rng.Below(3);
  less = less == 0 ? 0 : less == 1 ? 17 : kOverhead;
  return std::min(kMax, n < less ? n : n - less);
}
// Too short for any record, with a header that states its length truly.
Bytes ShortRecord(Rng& rng) {
  size_t n = rng.Below(17);
  return Cat(Bytes{23, 3, 3, 0, static_cast<uint8_t>(n)}, rng.Data(n));
}
// A record type that does not exist.
RT UnknownType(Rng& rng) {
  for (;;) {
    auto t = static_cast<RT>(rng.Chance(1, 2) ? static_cast<int>(rng.Below(30)) : static_cast<int>(rng.Number(0) & 0x7fffffff) - (rng.Chance(1, 2) ? 0x7fffffff : 0));
    if (t != kTypes[0] && t != kTypes[1] && t != kTypes[2]) return t;
  }
}
// Calls that must be refused and must leave the stream undisturbed.
void RefusedProtect(Run& run, Conn& k, Rng& rng, unsigned salt) {
  int type = static_cast<int>(rng.Below(3));
  if (rng.Chance(1, 5)) {
    size_t n = rng.Len(300);
    Bytes pt = rng.Data(n);
    Pieces p;
    p.Build(pt.data(), rng.Split(n, 3), salt);
    Guard rec(n + kOverhead + rng.Below(9), true);
    auto s = k.c->Protect(UnknownType(rng), p.iov, {rec.data(), rec.size()});
    run.Check(s.GetCode() != Code::OK && s.GetBytesWritten() == 0, "unknown-type-protected", "content of an unknown type was protected");
    run.Count("refused_unknown_type");
  } else if (rng.Chance(1, 2)) {
    size_t n = kMax + 1 + (rng.Chance(1, 2) ? rng.Below(3) : rng.Below(5000));
    Bytes pt = rng.Data(n);
    Pieces p;
    p.Build(pt.data(), rng.Split(n, 4), salt);
    Guard rec(n + 64, true);
    auto s = k.c->Protect(kTypes[type], p.iov, {rec.data(), rec.size()});
    run.Check(s.GetCode() != Code::OK, "oversize-accepted", "a %zu-byte plaintext was protected in one record", n);
    run.Count("refused_oversize");
  } else {
    size_t n = rng.Len(300);
    size_t room = rng.Below(n + kOverhead);
    if (rng.Chance(1, 2)) room = n + kOverhead - 1 - rng.Below(std::min<size_t>(n + kOverhead, 24));
    Bytes pt = rng.Data(n);
    Pieces p;
    p.Build(pt.data(), rng.Split(n, 3), salt);
    Guard rec(room, true);
    auto s = k.c->Protect(kTypes[type], p.iov, {rec.data(), room});
    run.Check(s.GetCode() != Code::OK, "small-record-accepted", "%zu bytes protected into %zu", n, room);
    run.Check(rec.CanaryOk(), "canary", "wrote around the record buffer");
    run.Count("refused_small_buffer");
  }
}

// ---------------------------------------------------------------- C07
void Protect(Run& run) {
  run.Rule("a case is one protected record compared with an independent RFC 8446 record layer (header, nonce, AAD, key schedule); "
           "distinct by ciphersuite, type, length, segmentation and sequence number");
  Rng rng(run.seed() * 13 + 7);
  unsigned salt = 0;
  for (ref::Aead a : kAeads) {
    Conn k = Make(rng, a, rng.Number(1), 0);
    if (!run.Check(k.c != nullptr, "create", "crypter not created")) return;
    run.Check(k.c->RecordOverhead() == kOverhead, "overhead", "record overhead %zu", k.c->RecordOverhead());
    std::vector<size_t> lens;
    for (size_t n = 0; n <= run.N(520, 2000); n++) lens.push_back(n);
    for (size_t i = 9; i < 14; i++) for (size_t d = 0; d < 5; d++) lens.push_back((size_t{1} << i) - 2 + d);
    for (size_t n = kMax - (run.thorough() ? 200 : 40); n <= kMax; n++) lens.push_back(n);
    for (size_t i = 0; i < run.N(60, 2000); i++) lens.push_back(rng.Below(kMax + 1));
    for (size_t n : vh::CodeSizes(kMax)) lens.push_back(n);
    for (size_t n : lens) {
      if (run.TooMany()) return;
      int type = n % 5 < 3 ? 0 : static_cast<int>(n % 3);
      auto sp = rng.Split(n, n % 3 == 0 ? 1 : 6);
      run.Begin("%s protect type %d length %s seq %llu", Name(a), type, Show(sp).c_str(), static_cast<unsigned long long>(k.out->seq()));
      if (rng.Chance(1, 4)) RefusedProtect(run, k, rng, salt++);
      ProtectOnce(run, k, type, rng.Content(n), sp, rng.Chance(1, 3) ? rng.Below(30) : 0, salt++);
      run.Nontrivial(Fmt("%d/%d/%s", static_cast<int>(a), type, Show(sp).c_str()));
      run.Count("records");
    }
    // Any starting sequence number.
    auto seqs = SpecialSeqs();
    for (size_t i = 0; i < run.N(60, 1500); i++) seqs.push_back(rng.Number());
    for (uint64_t q : seqs) {
      if (run.TooMany()) return;
      Conn x = Make(rng, a, rng.Number(), q);
      if (!run.Check(x.c != nullptr, "create", "crypter not created for sequence %llu", static_cast<unsigned long long>(q))) return;
      for (int r = 0; r < 4 && x.out->seq() >= q; r++) {
        run.Begin("%s protect from sequence %llu, record %d", Name(a), static_cast<unsigned long long>(q), r);
        size_t n = rng.Len(200);
        if (rng.Chance(1, 3)) RefusedProtect(run, x, rng, salt++);
        ProtectOnce(run, x, static_cast<int>(rng.Below(3)), rng.Content(n), rng.Split(n, 4), 0, salt++);
        run.Nontrivial(Fmt("%d/seq%llu/%d", static_cast<int>(a), static_cast<unsigned long long>(q), r));
        run.Count("records");
      }
    }
    // Many secrets (key schedule), refused calls in between.
    for (size_t i = 0; i < run.N(150, 3000) && !run.TooMany(); i++) {
      Conn x = Make(rng, a);
      if (!run.Check(x.c != nullptr, "create", "crypter not created")) return;
      for (int r = 0; r < 6; r++) {
        run.Begin("%s secret %zu record %d", Name(a), i, r);
        size_t n = rng.Len(400);
        if (rng.Chance(1, 3)) RefusedProtect(run, x, rng, salt++);
        auto sp = rng.Split(n, 8);
        ProtectOnce(run, x, static_cast<int>(rng.Below(3)), rng.Content(n), sp, rng.Below(4), salt++);
        run.Nontrivial(Fmt("%d/secret%zu/%s", static_cast<int>(a), i, Show(sp).c_str()));
        run.Count("records");
      }
    }
    run.Sample(Fmt("%s: lengths 0..520 and up to 16384, sequence starts incl. 2^32-1, 2^63, 2^64-16", Name(a)));
  }
  // Creation: wrong parameters are refused.
  for (ref::Aead a : kAeads)
    for (size_t n = 0; n <= 64; n++) {
      run.Begin("%s traffic secret of %zu bytes", Name(a), n);
      bool good = n == SecretSize(a);
      for (int side = 0; side < 2; side++) {
        auto v = S2ACrypter::Create(TlsVersion::TLS1_3, SuiteOf(a), 1, "u", Identity::GetEmptyIdentity(), rng.Data(side ? SecretSize(a) : n), rng.Data(side ? n : SecretSize(a)), 0, 0, Sender, nullptr, nullptr, [](const std::string&) {});
        run.Check((v.index() == 1) == good, "secret-size", "a %zu-byte secret was %s", n, v.index() == 1 ? "accepted" : "refused");
      }
      run.Nontrivial(Fmt("secretsize%d/%zu", static_cast<int>(a), n));
    }
  { auto v = S2ACrypter::Create(TlsVersion::TLS1_2, Suite::AES_128_GCM_SHA256, 1, "u", Identity::GetEmptyIdentity(), rng.Data(32), rng.Data(32), 0, 0, Sender, nullptr, nullptr, [](const std::string&) {});
    run.Begin("TLS 1.2"); run.Check(v.index() == 0, "tls12", "TLS 1.2 was accepted"); }
}

// ---------------------------------------------------------------- C08
void Nonces(Run& run) {
  run.Rule("a case is one encryption observed at the SSL boundary or one record near sequence exhaustion; histories mix valid, refused and "
           "fault-hit calls with key updates; distinct by ciphersuite, history and position");
  Rng rng(run.seed() * 13 + 8);
  unsigned salt = 0;
  for (ref::Aead a : kAeads) {
    // Exhaustion, sending.
    for (uint64_t left = 0; left <= run.N(6, 40) && !run.TooMany(); left++) {
      uint64_t q = ~uint64_t{0} - left;
      Conn k = Make(rng, a, 0, q);
      if (!run.Check(k.c != nullptr, "create", "crypter not created")) return;
      for (uint64_t r = 0; r <= left; r++) {
        run.Begin("%s %llu records before exhaustion, sending record %llu", Name(a), static_cast<unsigned long long>(left + 1), static_cast<unsigned long long>(r));
        size_t n = rng.Len(60);
        ProtectOnce(run, k, 0, rng.Data(n), {n}, 0, salt++);
        run.Nontrivial(Fmt("out%d/%llu/%llu", static_cast<int>(a), static_cast<unsigned long long>(left), static_cast<unsigned long long>(r)));
      }
      for (int r = 0; r < 300; r++) {
        run.Begin("%s sending after exhaustion, call %d", Name(a), r);
        Guard rec(64, true);
        Pieces p; Bytes pt = rng.Data(10); p.Build(pt.data(), {10}, 1);
        auto s = k.c->Protect(kTypes[r % 3], p.iov, {rec.data(), 64});
        if (!run.Check(s.GetCode() != Code::OK, "sequence-wrapped", "call %d after the last sequence number succeeded", r)) break;
        run.Count("refused_after_exhaustion");
      }
      run.Begin("%s key update after exhaustion", Name(a));
      run.Check(k.c->UpdateOutboundKey().ok(), "update", "key update refused");
      k.out->KeyUpdate();
      for (int r = 0; r < 3; r++) ProtectOnce(run, k, 0, rng.Data(20), {20}, 0, salt++);
    }
    // Exhaustion, receiving.
    for (uint64_t left = 0; left <= run.N(6, 40) && !run.TooMany(); left++) {
      uint64_t q = ~uint64_t{0} - left;
      Conn k = Make(rng, a, q, 0);
      if (!run.Check(k.c != nullptr, "create", "crypter not created")) return;
      for (uint64_t r = 0; r <= left; r++) {
        run.Begin("%s %llu records before exhaustion, receiving record %llu", Name(a), static_cast<unsigned long long>(left + 1), static_cast<unsigned long long>(r));
        Bytes pt = rng.Data(rng.Len(60));
        Got g = Deliver(k.c.get(), k.in->Protect(23, pt));
        run.Check(g.code == Code::OK && g.data == pt, "receive", "the record with the last sequence numbers was not delivered");
        run.Nontrivial(Fmt("in%d/%llu/%llu", static_cast<int>(a), static_cast<unsigned long long>(left), static_cast<unsigned long long>(r)));
      }
      for (int r = 0; r < 300; r++) {
        run.Begin("%s receiving after exhaustion, call %d", Name(a), r);
        k.in->set_seq(static_cast<uint64_t>(r));  // what a wrapped counter would accept
        Got g = Deliver(k.c.get(), k.in->Protect(23, rng.Data(5)));
        if (!run.Check(g.code != Code::OK && g.data.empty(), "sequence-wrapped", "a record with sequence number %d was accepted after exhaustion", r)) break;
      }
    }
    // Every (key, nonce) pair seen at the SSL library, over mixed histories.
    for (size_t h = 0; h < run.N(12, 150) && !run.TooMany(); h++) {
      wrapssl::ResetNonces();
      wrapssl::RecordNonces(true);
      uint64_t start = h % 3 == 0 ? (uint64_t{1} << (8 * (1 + rng.Below(7)))) - 1 - rng.Below(40) : rng.Number(1);
      Conn k = Make(rng, a, 0, start);
      if (!run.Check(k.c != nullptr, "create", "crypter not created")) return;
      bool synced = true;
      for (size_t op = 0; op < run.N(300, 1500) && !run.TooMany(); op++) {
        run.Begin("%s history %zu op %zu start %llu", Name(a), h, op, static_cast<unsigned long long>(start));
        unsigned what = static_cast<unsigned>(rng.Below(12));
        size_t n = rng.Len(100);
        Bytes pt = rng.Data(n);
        Pieces p;
        p.Build(pt.data(), rng.Split(n, 3), salt++);
        Guard rec(n + kOverhead, true);
        if (what < 7) {
          auto s = k.c->Protect(kTypes[what % 3], p.iov, {rec.data(), rec.size()});
          if (synced && run.Check(s.GetCode() == Code::OK, "protect-failed", "valid protect refused: %s", s.GetErrorMessage().c_str()))
            run.Check(rec.Get() == k.out->Protect(kTypeByte[what % 3], pt), "record-bytes", "record is not the one for the next sequence number");
        } else if (what == 7) {
          RefusedProtect(run, k, rng, salt++);
        } else if (what == 8) {
          p.iov.push_back({nullptr, 3});
          Guard r2(n + kOverhead + 3, true);
          auto s = k.c->Protect(RT::APPLICATION_DATA, p.iov, {r2.data(), r2.size()});
          run.Check(s.GetCode() != Code::OK, "null-accepted", "a missing buffer was protected");
          synced = false;  // whether the refused call used up a number is not specified
        } else if (what == 9 || what == 10) {
          wrapssl::Arm(1 + static_cast<long>(rng.Below(5)));
          auto s = k.c->Protect(RT::APPLICATION_DATA, p.iov, {rec.data(), rec.size()});
          bool fired = wrapssl::Fired() > 0;
          wrapssl::Arm(0);
          ERR_clear_error();
          if (fired) { synced = false; run.Count("faults"); }
          else if (synced && s.GetCode() == Code::OK) k.out->Protect(23, pt);
        } else {
          if (rng.Chance(1, 3)) {
            run.Check(k.c->UpdateOutboundKey().ok(), "update", "key update refused");
            k.out->KeyUpdate();
            synced = true;
          }
        }
        run.Nontrivial(Fmt("h%d/%zu/%zu", static_cast<int>(a), h, op));
      }
      run.Check(wrapssl::NonceReuse() == 0, "nonce-reuse", "%ld reuses; the last: %s", wrapssl::NonceReuse(), wrapssl::LastReuse().c_str());
      run.Check(wrapssl::NoncesSeen() > 0, "hook-missing", "no encryption observed");
      run.Count("nonces_observed", static_cast<uint64_t>(wrapssl::NoncesSeen()));
      wrapssl::RecordNonces(false);
    }
    // A long history, record by record, across byte boundaries of the counter.
    for (uint64_t start : {uint64_t{0}, (uint64_t{1} << 32) - 300, (uint64_t{1} << 24) - 300, (uint64_t{1} << 40) - 300, (uint64_t{1} << 56) - 300}) {
      Conn k = Make(rng, a, start, start);
      if (!run.Check(k.c != nullptr, "create", "crypter not created")) return;
      size_t n = start == 0 ? run.N(70000, 400000) : 700;
      for (size_t i = 0; i < n && !run.TooMany(); i++) {
        if (i % 64 == 0) run.Begin("%s record %zu of a long history from %llu", Name(a), i, static_cast<unsigned long long>(start));
        uint8_t b = static_cast<uint8_t>(i);
        Iovec v{&b, 1};
        uint8_t rec[23];
        auto s = k.c->Protect(RT::APPLICATION_DATA, {v}, {rec, 23});
        Bytes want = k.out->Protect(23, Bytes(1, b));
        if (!run.Check(s.GetCode() == Code::OK && memcmp(rec, want.data(), 23) == 0, "record-bytes", "record %zu from sequence %llu differs", i, static_cast<unsigned long long>(start))) break;
        Bytes r = k.in->Protect(23, Bytes(1, b));
        uint8_t out[17];
        auto u = k.c->Unprotect({r.data(), 5}, {{r.data() + 5, 18}}, {out, 17});
        if (!run.Check(u.GetCode() == Code::OK && u.GetBytesWritten() == 1 && out[0] == b, "receive", "received record %zu from sequence %llu refused", i, static_cast<unsigned long long>(start))) break;
        run.Count("long_history_records");
      }
      run.Nontrivial(Fmt("long%d/%llu", static_cast<int>(a), static_cast<unsigned long long>(start)));
    }
    run.Sample(Fmt("%s: starts 2^64-1..2^64-7 both directions; mixed histories with faults; 70000-record history", Name(a)));
  }
}

// ---------------------------------------------------------------- C09
void KeyUpdates(Run& run) {
  run.Rule("a case is one step of a history mixing data, tickets, whole/fragmented/coalesced KeyUpdates and outbound updates, each record "
           "checked against a peer following RFC 8446 7.2; distinct by ciphersuite and the last five steps");
  Rng rng(run.seed() * 13 + 9);
  unsigned salt = 0;
  for (ref::Aead a : kAeads) {
    for (size_t h = 0; h < run.N(40, 600) && !run.TooMany(); h++) {
      Conn k = Make(rng, a, h % 2 ? rng.Number(1) : 0, h % 3 ? rng.Number(1) : 0);
      if (!run.Check(k.c != nullptr, "create", "crypter not created")) return;
      std::string trail = ".....";
      size_t steps = h == 0 ? run.N(1500, 6000) : 60;
      for (size_t i = 0; i < steps && !run.TooMany(); i++) {
        unsigned what = static_cast<unsigned>(h == 0 ? (rng.Chance(1, 2) ? 3 : rng.Below(4)) : rng.Below(9));
        trail = trail.substr(1) + static_cast<char>('a' + what);
        run.Begin("%s history %zu step %zu kind %u (trail %s)", Name(a), h, i, what, trail.c_str());
        auto hs = [&](const Bytes& content, const char* name) {
          size_t pad = rng.Chance(1, 5) ? rng.Below(20) : 0;
          Bytes rec = k.in->Protect(22, content, pad);
          Got g = Deliver(k.c.get(), rec, rng.Split(rec.size() - kHeader, 3), salt++);
          run.Check(g.code == Code::OK && g.written == 0, "handshake-refused", "%s: code %d, %zu bytes", name, static_cast<int>(g.code), g.written);
        };
        switch (what) {
          case 0: { size_t n = rng.Len(80); ProtectOnce(run, k, static_cast<int>(rng.Below(3)), rng.Data(n), {n}, 0, salt++); run.Count("sent"); break; }
          case 1: {
            Bytes pt = rng.Data(rng.Len(80)), rec = k.in->Protect(23, pt);
            Got g = Deliver(k.c.get(), rec, rng.Split(rec.size() - kHeader, 3), salt++);
            run.Check(g.code == Code::OK && g.data == pt, "receive", "data after key updates refused (code %d)", static_cast<int>(g.code));
            run.Count("received");
            break;
          }
          case 2: run.Check(k.c->UpdateOutboundKey().ok(), "update", "outbound update refused"); k.out->KeyUpdate(); run.Count("outbound_updates"); break;
          case 3: hs(Msg(24, {static_cast<uint8_t>(rng.Below(2))}), "KeyUpdate"); k.in->KeyUpdate(); run.Count("inbound_updates"); break;
          case 4: hs(Cat(Msg(4, rng.Data(1 + rng.Len(50))), Msg(24, {0})), "ticket+KeyUpdate"); k.in->KeyUpdate(); run.Count("coalesced_updates"); break;
          case 5: case 6: {  // KeyUpdate in several records
            Bytes m = what == 5 ? Msg(24, {1}) : Cat(Msg(4, rng.Data(3)), Msg(24, {0}));
            size_t off = 0, parts = 0;
            while (off < m.size()) {
              size_t n = std::min<size_t>(m.size() - off, 1 + rng.Below(4));
              hs(Bytes(m.begin() + off, m.begin() + off + n), "fragment of a KeyUpdate");
              off += n;
              parts++;
              if (off < m.size() && rng.Chance(1, 3)) { ProtectOnce(run, k, 0, rng.Data(5), {5}, 0, salt++); }
            }
            k.in->KeyUpdate();
            run.Count(parts > 1 ? "fragmented_updates" : "inbound_updates");
            break;
          }
          case 7: hs(Msg(4, rng.Data(1 + rng.Len(100))), "ticket"); break;
          case 8: {  // a fragmented ticket, no update
            Bytes m = Msg(4, rng.Data(1 + rng.Below(30)));
            size_t cut = 1 + rng.Below(m.size() - 1);
            hs(Bytes(m.begin(), m.begin() + cut), "ticket start");
            hs(Bytes(m.begin() + cut, m.end()), "ticket end");
            break;
          }
        }
        run.Nontrivial(Fmt("%d%s", static_cast<int>(a), trail.c_str()));
      }
    }
    // Chains: hundreds of updates in each direction; data only at the end.
    Conn k = Make(rng, a);
    if (!run.Check(k.c != nullptr, "create", "crypter not created")) return;
    size_t chain = run.N(700, 5000);
    for (size_t i = 0; i < chain && !run.TooMany(); i++) {
      run.Begin("%s chain update %zu", Name(a), i);
      run.Check(k.c->UpdateOutboundKey().ok(), "update", "outbound update %zu refused", i);
      k.out->KeyUpdate();
      Bytes rec = k.in->Protect(22, Msg(24, {0}));
      Got g = Deliver(k.c.get(), rec);
      if (!run.Check(g.code == Code::OK, "update", "inbound update %zu refused", i)) break;
      k.in->KeyUpdate();
      if (i % 50 == 49) {
        ProtectOnce(run, k, 0, rng.Data(9), {9}, 0, salt++);
        Bytes pt = rng.Data(9);
        Got r = Deliver(k.c.get(), k.in->Protect(23, pt));
        run.Check(r.code == Code::OK && r.data == pt, "receive", "data after %zu updates refused", i + 1);
      }
      run.Nontrivial(Fmt("chain%d/%zu", static_cast<int>(a), i));
    }
    run.Count("chain_updates", chain);
    // An update at the very end of the sequence numbers, and after it, starts a fresh epoch at zero.
    for (uint64_t left = 0; left < run.N(5, 30) && !run.TooMany(); left++) {
      Conn e = Make(rng, a, ~uint64_t{0} - left, ~uint64_t{0} - left);
      if (!run.Check(e.c != nullptr, "create", "crypter not created")) return;
      size_t sent = rng.Below(left + 2);  // up to all the remaining numbers
      run.Begin("%s update with %llu numbers left, %zu of them used", Name(a), static_cast<unsigned long long>(left + 1), sent);
      for (size_t i = 0; i < sent; i++) ProtectOnce(run, e, 0, rng.Data(9), {9}, 0, salt++);
      run.Check(e.c->UpdateOutboundKey().ok(), "update", "outbound update near the last sequence number refused");
      e.out->KeyUpdate();
      for (int i = 0; i < 3; i++) ProtectOnce(run, e, 0, rng.Data(9), {9}, 0, salt++);
      for (uint64_t i = 0; i < left; i++) {
        Bytes pt = rng.Data(5);
        Got r = Deliver(e.c.get(), e.in->Protect(23, pt));
        run.Check(r.code == Code::OK && r.data == pt, "receive", "data near the last sequence number refused");
      }
      // The KeyUpdate itself takes the last sequence number of its epoch.
      Got u = Deliver(e.c.get(), e.in->Protect(22, Msg(24, {0})));
      run.Check(u.code == Code::OK, "update", "inbound update with the last sequence number refused");
      e.in->KeyUpdate();
      for (int i = 0; i < 3; i++) {
        Bytes pt = rng.Data(5);
        Got r = Deliver(e.c.get(), e.in->Protect(23, pt));
        run.Check(r.code == Code::OK && r.data == pt, "receive", "data after an update with the last sequence number refused");
      }
      run.Nontrivial(Fmt("end%d/%llu/%zu", static_cast<int>(a), static_cast<unsigned long long>(left), sent));
      run.Count("updates_at_the_last_sequence_number", 2);
    }
    // The half connection itself.
    for (size_t h = 0; h < run.N(60, 800) && !run.TooMany(); h++) {
      Bytes secret = rng.Key(SecretSize(a));
      uint64_t q = rng.Number(4);
      auto v = S2AHalfConnection::Create(SuiteOf(a), q, secret);
      auto w = S2AHalfConnection::Create(SuiteOf(a), q, secret);
      run.Begin("%s half connection %zu", Name(a), h);
      if (!run.Check(v.index() == 1 && w.index() == 1, "create", "half connection not created")) return;
      auto& e = *absl::get<1>(v);
      auto& d = *absl::get<1>(w);
      ref::Tls13Half r(a, secret, q);
      for (int i = 0; i < 30; i++) {
        if (rng.Chance(1, 5)) {
          run.Check(e.UpdateKey().ok() && d.UpdateKey().ok(), "update", "update refused");
          r.KeyUpdate();
          continue;
        }
        Bytes inner = rng.Data(1 + rng.Len(60)), aad = rng.Data(rng.Below(9));
        Bytes want = ref::Sealer(a, r.key()).Seal(r.Nonce(r.seq()), aad, inner);
        r.set_seq(r.seq() + 1);
        Guard ct(want.size(), true), pt(inner.size(), true);
        auto s = e.Encrypt({{aad.data(), aad.size()}}, {{inner.data(), inner.size()}}, {ct.data(), ct.size()});
        run.Check(s.GetStatus().ok() && ct.Get() == want, "half-encrypt", "step %d differs from the schedule", i);
        auto t = d.Decrypt({{aad.data(), aad.size()}}, {{want.data(), want.size()}}, {pt.data(), pt.size()});
        run.Check(t.GetStatus().ok() && pt.Get() == inner, "half-decrypt", "step %d differs from the schedule", i);
        run.Check(e.TagLength() == 16, "tag-length", "tag length %zu", e.TagLength());
      }
      run.Nontrivial(Fmt("half%d/%zu", static_cast<int>(a), h));
    }
    run.Sample(Fmt("%s: history steps a=send b=receive c=outbound update d=KeyUpdate e=ticket+KeyUpdate f,g=fragmented KeyUpdate h,i=tickets", Name(a)));
  }
}

// ---------------------------------------------------------------- C10
void OnlyAuthentic(Run& run) {
  run.Rule("a case is one delivery to a connection: the genuine next record, or a replayed, reordered, skipped, altered, truncated, extended, "
           "wrong-direction or old-key one; delivered data must belong to genuine records in strictly increasing order; distinct by delivery kind, position and trail");
  Rng rng(run.seed() * 13 + 10);
  unsigned salt = 0;
  for (ref::Aead a : kAeads) {
    for (size_t h = 0; h < run.N(160, 2500) && !run.TooMany(); h++) {
      uint64_t start = h % 2 ? 0 : rng.Number(1);
      Bytes in_secret = rng.Key(SecretSize(a)), out_secret = rng.Key(SecretSize(a));
      Conn k = Make(a, in_secret, out_secret, start, start);
      if (!run.Check(k.c != nullptr, "create", "crypter not created")) return;
      ref::Tls13Half other(a, out_secret, start);           // what this side sends
      ref::Tls13Half stranger(a, rng.Data(SecretSize(a)), start);
      struct Sent { Bytes rec, pt; };
      std::vector<Sent> sent;      // genuine records, by position
      size_t pos = 0;              // next position as long as nothing was refused by decryption
      long last = -1;              // last delivered position
      bool disturbed = false;      // a record failed to decrypt: later acceptance is not required
      std::string trail;
      auto genuine = [&](size_t i) -> const Sent& {
        while (sent.size() <= i) {
          Sent s;
          s.pt = Cat(Bytes{static_cast<uint8_t>(sent.size()), static_cast<uint8_t>(sent.size() >> 8)}, rng.Data(std::min(kMax - 2, RecordContent(rng))));
          s.rec = k.in->Protect(23, s.pt, rng.Chance(1, 6) ? rng.Below(std::min<size_t>(12, kMax - s.pt.size() + 1)) : 0);
          sent.push_back(s);
        }
        return sent[i];
      };
      for (size_t step = 0; step < 24 && !run.TooMany(); step++) {
        unsigned what = static_cast<unsigned>(rng.Below(21));
        Bytes rec;
        long at = -1;          // position of the genuine record delivered intact
        bool pre = false;      // must be refused before any decryption: no disturbance allowed
        const char* name = "genuine";
        size_t hl = kHeader;
        switch (what) {
          default: rec = genuine(pos).rec; at = static_cast<long>(pos); break;
          case 0: if (pos == 0) continue; name = "replay-last"; at = static_cast<long>(pos) - 1; rec = genuine(pos - 1).rec; break;
          case 1: if (pos == 0) continue; name = "replay-old"; at = static_cast<long>(rng.Below(pos)); rec = genuine(static_cast<size_t>(at)).rec; break;
          case 2: name = "skip"; at = static_cast<long>(pos + 1 + rng.Below(3)); rec = genuine(static_cast<size_t>(at)).rec; break;
          case 3: { name = "bit-flip"; rec = genuine(pos).rec; size_t i = kHeader + rng.Below(rec.size() - kHeader); rec[i] ^= static_cast<uint8_t>(1 << rng.Below(8)); break; }
          case 4: { name = "tag-flip"; rec = genuine(pos).rec; rec[rec.size() - 1 - rng.Below(16)] ^= static_cast<uint8_t>(1 << rng.Below(8)); break; }
          case 5: { name = "truncated"; pre = true; rec = genuine(pos).rec; rec.resize(rec.size() - 1 - rng.Below(rec.size())); break; }
          case 6: { name = "extended"; pre = true; rec = genuine(pos).rec; rec.resize(rec.size() + 1 + rng.Below(20), static_cast<uint8_t>(rng.Below(2))); break; }
          case 7: { name = "header-flip"; pre = true; rec = genuine(pos).rec; rec[rng.Below(5)] ^= static_cast<uint8_t>(1 << rng.Below(8)); break; }
          case 8: { name = "truncated-consistent"; rec = genuine(pos).rec; size_t cut = 1 + rng.Below(rec.size() - kOverhead); if (rec.size() - cut < kOverhead) continue; rec.resize(rec.size() - cut); size_t n = rec.size() - kHeader; rec[3] = static_cast<uint8_t>(n >> 8); rec[4] = static_cast<uint8_t>(n); break; }
          case 9: { name = "extended-consistent"; rec = genuine(pos).rec; rec.resize(rec.size() + 1 + rng.Below(20), 0); if (rec.size() > kMax + kOverhead) continue; size_t n = rec.size() - kHeader; rec[3] = static_cast<uint8_t>(n >> 8); rec[4] = static_cast<uint8_t>(n); break; }
          case 10: name = "own-direction"; rec = other.Protect(23, rng.Data(9)); break;
          case 11: { name = "stranger"; stranger.set_seq(start + pos); rec = stranger.Protect(23, rng.Data(9)); break; }
          case 12: { name = "short-header"; pre = true; rec = genuine(pos).rec; hl = rng.Below(5); break; }
          case 13: { name = "long-header"; pre = true; rec = genuine(pos).rec; hl = 6 + rng.Below(4); break; }
          case 15: name = "short"; pre = true; rec = ShortRecord(rng); break;
          case 14: { name = "stump"; pre = true; rec = genuine(pos).rec; rec.resize(rng.Below(kOverhead)); break; }
        }
        trail += static_cast<char>('a' + std::min(what, 16u));
        run.Begin("%s history %zu: %s (delivery trail %s) at position %zu from %llu", Name(a), h, name, trail.c_str(), pos, static_cast<unsigned long long>(start));
        if (rec.size() < hl) hl = rec.size();
        Got g = Deliver(k.c.get(), rec, rng.Split(rec.size() - hl, 4), salt++, rng.Below(2) * 8, hl);
        run.Count(std::string("delivered_") + name);
        bool must = at == static_cast<long>(pos) && !disturbed;
        if (g.code == Code::OK) {
          bool in_order = at > last;
          run.Check(at >= 0 && g.data == genuine(static_cast<size_t>(std::max(0L, at))).pt, "inauthentic-delivered", "%s delivered %zu bytes", name, g.data.size());
          run.Check(in_order, "replayed-delivered", "%s: record %ld delivered after record %ld", name, at, last);
          if (!disturbed) run.Check(at == static_cast<long>(pos), "out-of-order-delivered", "%s: record %ld delivered at position %zu", name, at, pos);
          if (at >= 0) { last = std::max(last, at); pos = static_cast<size_t>(at) + 1; }
        } else {
          run.Check(!must, "genuine-refused", "the next record was refused (code %d)", static_cast<int>(g.code));
          run.Check(g.written == 0, "error-with-data", "%s: refused, yet %zu bytes reported", name, g.written);
          if (!must && !pre) {
            // No decrypted byte may be left.
            for (uint8_t b : g.raw) if (b != 0 && b != 0xA7) { run.Check(false, "plaintext-left", "%s: refused, output holds data", name); break; }
            disturbed = true;
            // As implemented, a record that fails to decrypt uses up its
            // position; follow it, so that later steps stay interesting.
            pos++;
          }
        }
        run.Nontrivial(Fmt("%d%s%s%zu", static_cast<int>(a), name, trail.size() > 4 ? trail.substr(trail.size() - 4).c_str() : trail.c_str(), pos));
        if (disturbed && rng.Chance(1, 4)) break;
      }
      if (h < 2) run.Sample(Fmt("%s deliveries %s", Name(a), trail.c_str()));
    }
    // Every record size the code names, with a header that is wrong.
    for (size_t total : vh::CodeSizes(kMax + kOverhead)) {
      if (total < kOverhead || run.TooMany()) continue;
      for (int i = 0; i < 5; i++) {
        run.Begin("%s %zu-byte record, header byte %d wrong", Name(a), total, i);
        Conn k = Make(rng, a, rng.Number(1), 0);
        if (!run.Check(k.c != nullptr, "create", "crypter not created")) return;
        Bytes pt = rng.Data(total - kOverhead), rec = k.in->Protect(23, pt), x = rec;
        x[static_cast<size_t>(i)] ^= static_cast<uint8_t>(1 << rng.Below(8));
        Got g = Deliver(k.c.get(), x);
        run.Check(g.code != Code::OK && g.written == 0, "inauthentic-delivered", "a record with a wrong header was accepted");
        g = Deliver(k.c.get(), rec);
        run.Check(g.code == Code::OK && g.data == pt, "genuine-refused", "genuine record refused after one with a bad header");
        run.Nontrivial(Fmt("sizehdr%d/%zu/%d", static_cast<int>(a), total, i));
      }
    }
    // Every single-byte change of one record.
    for (size_t n : {size_t{0}, size_t{1}, size_t{20}}) {
      Bytes is = rng.Key(SecretSize(a)), os = rng.Key(SecretSize(a)), pt = rng.Data(n);
      Bytes rec = ref::Tls13Half(a, is, 3).Protect(23, pt);
      for (size_t i = 0; i < rec.size() && !run.TooMany(); i++)
        for (int b = 0; b < 8; b++) {
          run.Begin("%s %zu-byte record, bit %d of byte %zu flipped", Name(a), n, b, i);
          Conn k = Make(a, is, os, 3, 0);
          if (!run.Check(k.c != nullptr, "create", "crypter not created")) return;
          Bytes x = rec;
          x[i] ^= static_cast<uint8_t>(1 << b);
          Got g = Deliver(k.c.get(), x);
          run.Check(g.code != Code::OK && g.written == 0, "inauthentic-delivered", "flipped bit %d of byte %zu accepted", b, i);
          if (i < kHeader) { Got r = Deliver(k.c.get(), rec); run.Check(r.code == Code::OK && r.data == pt, "genuine-refused", "genuine record refused after one with a bad header"); }
          run.Nontrivial(Fmt("flip%d/%zu/%zu/%d", static_cast<int>(a), n, i, b));
          run.Count("bit_flips");
        }
    }
    // Records under an old or a future key.
    for (size_t i = 0; i < run.N(30, 300); i++) {
      run.Begin("%s record under the previous key", Name(a));
      Conn k = Make(rng, a);
      ref::Tls13Half old = *k.in;
      Deliver(k.c.get(), k.in->Protect(22, Msg(24, {0})));
      k.in->KeyUpdate();
      old.set_seq(rng.Below(3));
      Got g = Deliver(k.c.get(), old.Protect(23, rng.Data(4)));
      run.Check(g.code != Code::OK, "old-key-accepted", "a record under the previous key was accepted after a key update");
      Conn f = Make(rng, a);
      f.in->KeyUpdate();
      g = Deliver(f.c.get(), f.in->Protect(23, rng.Data(4)));
      run.Check(g.code != Code::OK, "future-key-accepted", "a record under the next key was accepted before a key update");
      run.Nontrivial(Fmt("oldkey%d/%zu", static_cast<int>(a), i));
    }
  }
}

// ---------------------------------------------------------------- C11
void Content(Run& run) {
  run.Rule("a case is one authentic record with a chosen inner plaintext (content, type byte, padding); distinct by type, content length and padding");
  Rng rng(run.seed() * 13 + 11);
  unsigned salt = 0;
  for (ref::Aead a : kAeads) {
    Conn k = Make(rng, a, rng.Number(2), 0);
    if (!run.Check(k.c != nullptr, "create", "crypter not created")) return;
    auto send = [&](const Bytes& inner) {
      Bytes rec = k.in->ProtectInner(inner);
      return Deliver(k.c.get(), rec, rng.Split(rec.size() - kHeader, 3), salt++, rng.Below(2) * 5);
    };
    auto fresh = [&] { k = Make(rng, a, rng.Number(2), 0); };
    auto app = [&](const Bytes& content, size_t pad) {
      run.Begin("%s application data %zu bytes, padding %zu", Name(a), content.size(), pad);
      Bytes inner = content;
      inner.push_back(23);
      inner.resize(inner.size() + pad, 0);
      Got g = send(inner);
      run.Check(g.code == Code::OK && g.data == content, "content", "code %d, %zu bytes delivered of %zu", static_cast<int>(g.code), g.data.size(), content.size());
      run.Nontrivial(Fmt("%dapp%zu/%zu", static_cast<int>(a), content.size(), pad));
      run.Count("application_records");
    };
    // Lengths and paddings.
    for (size_t n = 0; n <= 40; n++) for (size_t pad = 0; pad <= 40; pad++) if (!run.TooMany()) app(rng.Data(n), pad);
    for (size_t n : {size_t{0}, size_t{1}, size_t{100}, size_t{255}, size_t{256}, size_t{16000}, size_t{16383}, size_t{16384}})
      for (size_t pad : {size_t{0}, size_t{1}, size_t{255}, size_t{256}, kMax - n}) if (n + pad <= kMax) app(rng.Data(n), pad);
    for (size_t i = 0; i < run.N(300, 5000) && !run.TooMany(); i++) { size_t n = rng.Len(kMax); app(rng.Data(n), rng.Below(kMax - n + 1)); }
    // Content that itself ends in zero bytes or looks like a type byte.
    for (size_t z = 0; z < 20; z++) { Bytes c = rng.Data(5); c.resize(5 + z, 0); app(c, z % 4); Bytes d(z, 0); app(d, z % 3); Bytes e(z, 23); app(e, z % 2); Bytes f(z, 22); app(f, 0); Bytes f2(z, 21); app(f2, 1); }
    // All-zero inner plaintexts.
    for (size_t n = 1; n <= kMax + 1; n += n < 60 ? 1 : 1 + rng.Below(run.thorough() ? 100 : 1500)) {
      run.Begin("%s all-zero inner plaintext of %zu", Name(a), n);
      Got g = send(Bytes(n, 0));
      run.Check(g.code == Code::INVALID_RECORD && g.written == 0, "no-type", "code %d, %zu bytes for a record without type", static_cast<int>(g.code), g.written);
      run.Nontrivial(Fmt("%dzero%zu", static_cast<int>(a), n));
    }
    // Every type byte.
    for (int t = 1; t < 256; t++) {
      if (t == 21 || t == 22 || t == 23) continue;
      for (size_t n : {size_t{0}, size_t{1}, size_t{2}, size_t{7}, rng.Below(300)}) {
        size_t pad = rng.Below(3) * rng.Below(20);
        run.Begin("%s unknown type %d, %zu bytes, padding %zu", Name(a), t, n, pad);
        Bytes inner = rng.Data(n);
        inner.push_back(static_cast<uint8_t>(t));
        inner.resize(inner.size() + pad, 0);
        Got g = send(inner);
        run.Check(g.code == Code::INVALID_RECORD && g.written == 0, "unknown-type", "type %d: code %d, %zu bytes", t, static_cast<int>(g.code), g.written);
        run.Nontrivial(Fmt("%dtype%d/%zu/%zu", static_cast<int>(a), t, n, pad));
      }
      if (t % 16 == 0) app(rng.Data(3), 0);
    }
    // Alerts.
    for (int level = 0; level < 4; level++)
      for (int desc = 0; desc < 256; desc++) {
        size_t pad = rng.Below(2) * rng.Below(9);
        run.Begin("%s alert level %d description %d", Name(a), level, desc);
        if (!k.c) fresh();
        Bytes inner{static_cast<uint8_t>(level), static_cast<uint8_t>(desc), 21};
        inner.resize(3 + pad, 0);
        Got g = send(inner);
        run.Check(g.code == (desc == 0 ? Code::ALERT_CLOSE_NOTIFY : Code::ALERT_OTHER) && g.written == 0, "alert", "alert %d/%d: code %d", level, desc, static_cast<int>(g.code));
        if (desc == 0) {
          // Sticky, whatever comes.
          for (int r = 0; r < 12; r++) {
            run.Begin("%s after close_notify, delivery %d", Name(a), r);
            Bytes rec;
            switch (r % 4) {
              case 0: rec = k.in->Protect(23, rng.Data(8)); break;
              case 1: rec = k.in->Protect(22, Msg(4, rng.Data(8))); break;
              case 2: rec = rng.Data(30 + rng.Below(40)); break;
              default: rec = k.in->Protect(21, {1, static_cast<uint8_t>(rng.Below(256))}); break;
            }
            Got s = Deliver(k.c.get(), rec);
            run.Check(s.code == Code::ALERT_CLOSE_NOTIFY && s.written == 0, "close-notify", "delivery %d after close_notify: code %d, %zu bytes", r, static_cast<int>(s.code), s.written);
          }
          Bytes pt = rng.Data(12);
          ProtectOnce(run, k, 0, pt, {12}, 0, salt++);  // sending is still possible
          fresh();
        } else if (desc % 32 == 1) {
          app(rng.Data(3), 0);
        }
        run.Nontrivial(Fmt("%dalert%d/%d", static_cast<int>(a), level, desc));
        run.Count("alerts");
      }
    for (size_t n = 0; n < 2; n++)
      for (int b = 0; b < 256; b += n ? 1 : 256) {
        run.Begin("%s alert of %zu bytes", Name(a), n);
        Bytes inner(n, static_cast<uint8_t>(b));
        inner.push_back(21);
        Got g = send(inner);
        run.Check(g.code == Code::INVALID_RECORD && g.written == 0, "short-alert", "alert of %zu bytes (%02x): code %d", n, b, static_cast<int>(g.code));
        run.Nontrivial(Fmt("%dshort%zu/%d", static_cast<int>(a), n, b));
      }
    for (size_t n = 3; n < 10; n++) {
      run.Begin("%s alert of %zu bytes", Name(a), n);
      Bytes inner = rng.Data(n);
      inner[1] |= 1;
      inner.push_back(21);
      Got g = send(inner);
      run.Check(g.code != Code::OK && g.written == 0, "long-alert", "alert of %zu bytes delivered", n);
    }
    // Handshake content never delivers bytes; bad handshake content is an error.
    for (size_t i = 0; i < run.N(200, 2000) && !run.TooMany(); i++) {
      Conn x = Make(rng, a);
      run.Begin("%s handshake content %zu", Name(a), i);
      unsigned w = static_cast<unsigned>(rng.Below(4));
      Bytes content;
      bool good = true, ku = false;
      if (w == 0) { content = Msg(24, {static_cast<uint8_t>(rng.Below(2))}); ku = true; }
      else if (w == 1) content = Msg(4, rng.Data(1 + rng.Len(kMax - 10)));
      else if (w == 2) { content = rng.Data(1 + rng.Below(30)); if (content[0] == 4 || content[0] == 24) content[0] = 9; good = false; }
      else { content = Cat(Msg(24, {0}), rng.Data(1 + rng.Below(6))); good = false; }
      Bytes inner = content;
      inner.push_back(22);
      inner.resize(std::min(inner.size() + rng.Below(2) * rng.Below(30), kMax + 1), 0);
      Got g = Deliver(x.c.get(), x.in->ProtectInner(inner));
      run.Check(g.written == 0, "handshake-delivered", "handshake content delivered %zu bytes", g.written);
      run.Check((g.code == Code::OK) == good, "handshake", "kind %u: code %d", w, static_cast<int>(g.code));
      if (good) {
        if (ku) x.in->KeyUpdate();
        Bytes pt = rng.Data(6);
        Got r = Deliver(x.c.get(), x.in->Protect(23, pt));
        run.Check(r.code == Code::OK && r.data == pt, "after-handshake", "data after a handshake record refused");
      }
      run.Nontrivial(Fmt("%dhs%u/%zu", static_cast<int>(a), w, content.size()));
      run.Count("handshake_records");
    }
    // Above the size limit.
    for (size_t extra = 1; extra <= 300; extra += extra < 20 ? 1 : 37) {
      Conn x = Make(rng, a);
      run.Begin("%s inner plaintext of %zu bytes", Name(a), kMax + 1 + extra);
      for (int kind = 0; kind < 3; kind++) {
        Bytes inner = rng.Data(kind == 0 ? kMax + extra : 10);
        inner.push_back(kind == 2 ? 22 : 23);
        inner.resize(kMax + 1 + extra, 0);
        ref::Tls13Half peek = *x.in;
        Got g = Deliver(x.c.get(), peek.ProtectInner(inner));
        run.Check(g.code == Code::ALERT_RECORD_OVERFLOW && g.written == 0, "overflow", "record %zu bytes over the limit: code %d, %zu bytes", extra, static_cast<int>(g.code), g.written);
        run.Nontrivial(Fmt("%dover%zu/%d", static_cast<int>(a), extra, kind));
      }
      Bytes pt = rng.Data(6);
      Got r = Deliver(x.c.get(), x.in->Protect(23, pt));
      run.Check(r.code == Code::OK && r.data == pt, "after-overflow", "a good record was refused after an oversized one");
    }
    run.Sample(Fmt("%s: content 0..40 x padding 0..40, every type byte, every alert, sizes 16384+-", Name(a)));
  }
}

// ---------------------------------------------------------------- C14
void TicketForwarding(Run& run) {
  run.Rule("a case is a record stream of tickets (fragmented and coalesced over records), key updates and application data; the ticket "
           "sender's calls are compared with a model; distinct by stream shape");
  Rng rng(run.seed() * 13 + 14);
  unsigned salt = 0;
  auto one = [&](ref::Aead a, const std::vector<std::pair<int, Bytes>>& events, const std::string& shape, bool record_split) {
    // events: 0 = handshake stream bytes, 1 = application data, 2 = KeyUpdate boundary after previous handshake bytes
    run.Begin("%s stream %s", Name(a), shape.c_str());
    std::string url = Fmt("address-%llu", static_cast<unsigned long long>(rng.Below(1000)));
    uint64_t id = rng.Number();
    Identity ident = rng.Chance(1, 4) ? Identity::FromSpiffeId("spiffe://x/" + Fmt("%llu", static_cast<unsigned long long>(rng.Below(99)))) : rng.Chance(1, 3) ? Identity::FromUid("u" + Fmt("%llu", static_cast<unsigned long long>(rng.Below(99)))) : rng.Chance(1, 2) ? Identity::FromHostname("h" + Fmt("%llu", static_cast<unsigned long long>(rng.Below(99)))) : Identity::GetEmptyIdentity();
    Log() = TicketLog();
    {
      Conn k = Make(a, rng.Key(SecretSize(a)), rng.Key(SecretSize(a)), rng.Number(3), 0, id, url, ident);
      if (!run.Check(k.c != nullptr, "create", "crypter not created")) return;
      Bytes partial;               // unfinished message
      std::vector<Bytes> full;     // complete tickets so far
      bool dead = false, sent = false;
      auto check_sent = [&](const char* when) {
        sent = true;
        if (!run.Check(Log().calls.size() == 1, "send-count", "%s: the ticket sender was called %zu times", when, Log().calls.size())) { dead = true; return; }
        auto& c = Log().calls[0];
        size_t want = std::min<size_t>(5, full.size());
        run.Check(c.url == url && c.id == id && c.identity == ident.GetIdentityString() && c.type == static_cast<int>(ident.GetIdentityType()), "send-params", "sender got url %s id %llu identity %s", c.url.c_str(), static_cast<unsigned long long>(c.id), c.identity.c_str());
        run.Check(c.factory == k.factory, "send-factory", "sender did not get the channel factory");
        bool ok = run.Check(!c.null_tickets && c.tickets.size() == want, "send-tickets", "%s: %zu tickets sent, %zu expected of %zu", when, c.tickets.size(), want, full.size());
        for (size_t i = 0; ok && i < want; i++) ok &= run.Check(c.tickets[i] == std::string(full[i].begin(), full[i].end()), "send-bytes", "ticket %zu differs (%zu bytes sent, %zu received)", i, c.tickets[i].size(), full[i].size());
        run.Count("sends");
        run.Count("tickets_sent", c.tickets.size());
      };
      for (auto& ev : events) {
        if (dead) break;
        if (ev.first == 1) {
          Got g = Deliver(k.c.get(), k.in->Protect(23, ev.second), {ev.second.size() + 17}, salt++);
          if (!partial.empty()) {
            run.Check(g.code != Code::OK && g.written == 0, "data-inside-message", "application data inside an unfinished handshake message was accepted");
            run.Count("data_inside_message");
            dead = true;  // a protocol error ends the connection
            break;
          }
          run.Check(g.code == Code::OK && g.data == ev.second, "data", "application data refused (code %d)", static_cast<int>(g.code));
          if (!full.empty() && !sent) check_sent("at application data");
          run.Check(Log().calls.size() <= 1 && (sent || Log().calls.empty()), "send-early", "%zu sends without a complete ticket", Log().calls.size());
          continue;
        }
        // Handshake bytes, cut into records; a record ends after a KeyUpdate.
        size_t off = 0;
        const Bytes& s = ev.second;
        while (off < s.size() && !dead) {
          size_t n = record_split ? 1 + (rng.Chance(1, 2) ? rng.Below(6) : rng.Len(s.size())) : s.size();
          n = std::min({n, s.size() - off, kMax});
          // Walk the messages in this record.
          bool update = false, ticket_bytes = false;
          for (size_t i = 0; i < n; i++) {
            partial.push_back(s[off + i]);
            if (partial[0] == 4) ticket_bytes = true;
            if (partial.size() < 4) continue;
            size_t len = size_t{partial[1]} << 16 | size_t{partial[2]} << 8 | partial[3];
            if (partial.size() < 4 + len) continue;
            if (partial[0] == 24) { update = true; n = i + 1; }
            else full.push_back(partial);
            partial.clear();
          }
          Bytes content(s.begin() + off, s.begin() + off + n);
          Got g = Deliver(k.c.get(), k.in->Protect(22, content), {content.size() + 17}, salt++);
          run.Check(g.code == Code::OK && g.written == 0, "handshake-refused", "handshake record refused (code %d)", static_cast<int>(g.code));
          if (update) k.in->KeyUpdate();
          off += n;
          run.Count("handshake_records");
          if (!sent && !Log().calls.empty()) {
            run.Check(full.size() >= 5, "send-early", "tickets sent after %zu complete ones and no application data", full.size());
            check_sent("at the fifth ticket");
          }
          if (!sent && full.size() >= 5 && partial.empty() && ticket_bytes) check_sent("five complete tickets");
        }
      }
      run.Check(Log().calls.size() == (sent ? 1u : 0u), "send-count", "%zu sends in all", Log().calls.size());
      run.Check(Log().waits == 0, "wait-early", "waited on the sender before the end");
    }
    run.Check(Log().waits == static_cast<int>(Log().calls.size()), "wait", "%d waits for %zu sends at destruction", Log().waits, Log().calls.size());
    run.Nontrivial(std::to_string(static_cast<int>(a)) + shape);
  };
  auto ticket = [&](size_t n) { return Msg(4, rng.Data(n)); };
  for (ref::Aead a : kAeads) {
    // 0..9 whole tickets, one per record or all in one, then data, then more tickets and data.
    for (size_t n = 0; n <= 9; n++)
      for (int coalesce = 0; coalesce < 2; coalesce++)
        for (size_t tail = 0; tail < 3; tail++) {
          std::vector<std::pair<int, Bytes>> ev;
          Bytes all;
          for (size_t i = 0; i < n; i++) { Bytes t = ticket(1 + rng.Below(60)); if (coalesce) all = Cat(all, t); else ev.push_back({0, t}); }
          if (!all.empty()) ev.push_back({0, all});
          ev.push_back({1, rng.Data(5)});
          for (size_t i = 0; i < tail; i++) { ev.push_back({0, ticket(4)}); ev.push_back({1, rng.Data(3)}); }
          one(a, ev, Fmt("n%zu/%d/%zu", n, coalesce, tail), false);
        }
    // k complete tickets plus the beginning of another in one record, then its rest.
    for (size_t n = 1; n <= 7; n++)
      for (size_t cut = 1; cut < 14; cut++)
        for (int fin = 0; fin < 3; fin++) {
          std::vector<std::pair<int, Bytes>> ev;
          Bytes first, last = ticket(10);
          for (size_t i = 0; i < n; i++) first = Cat(first, ticket(6));
          ev.push_back({0, Cat(first, Bytes(last.begin(), last.begin() + cut))});
          if (fin == 2) { ev.push_back({1, rng.Data(4)}); }
          else {
            ev.push_back({0, Bytes(last.begin() + cut, last.end())});
            if (fin == 1) ev.push_back({0, ticket(5)});
            ev.push_back({1, rng.Data(4)});
          }
          one(a, ev, Fmt("part%zu/%zu/%d", n, cut, fin), false);
        }
    // Random streams.
    for (size_t c = 0; c < run.N(700, 12000) && !run.TooMany(); c++) {
      std::vector<std::pair<int, Bytes>> ev;
      std::string shape;
      size_t n = 1 + rng.Below(8);
      for (size_t i = 0; i < n; i++) {
        unsigned w = static_cast<unsigned>(rng.Below(8));
        if (w < 5) {
          Bytes s;
          size_t m = 1 + rng.Below(rng.Chance(1, 4) ? 7 : 2);
          for (size_t j = 0; j < m; j++) {
            if (rng.Chance(1, 5)) { s = Cat(s, Msg(24, {static_cast<uint8_t>(rng.Below(2))})); shape += "K"; }
            else { size_t z = c % 50 == 7 && j == 0 ? 65000 + rng.Below(70000) : 1 + rng.Len(c % 30 == 0 ? 20000 : 200); s = Cat(s, ticket(z)); shape += Fmt("T%zu", z); }
          }
          ev.push_back({0, s});
        } else {
          size_t z = rng.Len(60);
          ev.push_back({1, rng.Data(z)});
          shape += Fmt("D%zu", z);
        }
      }
      if (rng.Chance(2, 3)) ev.push_back({1, rng.Data(3)});
      if (rng.Chance(1, 10)) { Bytes t = ticket(30); ev.push_back({0, Bytes(t.begin(), t.begin() + 1 + rng.Below(33))}); if (rng.Chance(1, 2)) ev.push_back({1, rng.Data(2)}); shape += "P"; }
      one(a, ev, shape, rng.Chance(2, 3));
      if (c < 2) run.Sample(Fmt("%s %s", Name(a), shape.c_str()));
    }
  }
}

// ---------------------------------------------------------------- whole sessions (C07-C11, C14)
// A random history over everything a connection can be asked to do, in both
// directions, judged against one model of its whole state.  Each check names
// the properties it decides; another property's deviation ends the session
// without a verdict, since the model has lost track of the connection.
class Session {
 public:
  Session(Run& run, Rng& rng, ref::Aead a, size_t number, unsigned* salt) : run_(run), rng_(rng), a_(a), number_(number), salt_(*salt) {}
  void Go(size_t ops, bool tape = false) {
    std::string url = Fmt("address-%llu", static_cast<unsigned long long>(rng_.Below(1000)));
    uint64_t id = rng_.Number();
    Identity ident = rng_.Chance(1, 2) ? Identity::FromHostname("h") : Identity::FromSpiffeId("spiffe://s");
    Bytes is = rng_.Key(SecretSize(a_)), os = rng_.Key(SecretSize(a_));
    Log() = TicketLog();
    {
      uint64_t iq = Start(&in_left_), oq = Start(&out_left_);
      k_ = Make(a_, is, os, iq, oq, id, url, ident);
      if (!run_.Check(k_.c != nullptr, "create", "crypter not created")) return;
      for (size_t i = 0; (tape ? !rng_.Dry() : i < ops || burst_) && !over_ && !run_.TooMany(); i++) Step(i);
      for (auto& c : Log().calls)
        Ck("C14", c.url == url && c.id == id && c.identity == ident.GetIdentityString() && c.type == static_cast<int>(ident.GetIdentityType()) && c.factory == k_.factory, "send-params", "the sender got url %s id %llu identity %s", c.url.c_str(), static_cast<unsigned long long>(c.id), c.identity.c_str());
      Ck("C14", Log().waits == 0, "wait-early", "waited on the sender before the end");
      k_.c.reset();
    }
    Ck("C14", Log().waits == static_cast<int>(Log().calls.size()), "wait", "%d waits for %zu sends at destruction", Log().waits, Log().calls.size());
    run_.Count("sessions");
    if (closed_) run_.Count("sessions_closed");
    if (sent_) run_.Count("sessions_with_tickets");
  }

 private:
  template <typename... T>
  bool Ck(const char* props, bool ok, const char* key, const char* f, T... args) {
    if (strstr(props, run_.property().c_str())) run_.Check(ok, key, f, args...);
    if (!ok) over_ = true;
    return ok;
  }
  uint64_t Start(uint64_t* left) {
    uint64_t q = rng_.Chance(1, 5) ? ~uint64_t{0} - rng_.Below(25) : rng_.Chance(1, 2) ? 0 : rng_.Number(1);
    *left = ~q;  // numbers after this one
    return q;
  }
  // The sending direction's next number is taken.
  void OutUsed() { if (out_left_ == 0) out_end_ = true; else out_left_--; }
  Bytes In(uint8_t type, const Bytes& content, size_t pad = 0) {
    Bytes inner = content;
    inner.push_back(type);
    inner.resize(inner.size() + pad, 0);
    return InInner(inner);
  }
  Bytes InInner(const Bytes& inner) {
    Bytes r = k_.in->ProtectInner(inner);
    if (in_left_ == 0) in_end_ = true; else in_left_--;
    return r;
  }
  Got Push(const Bytes& rec, size_t hl = kHeader) {
    hl = std::min(hl, rec.size());
    return Deliver(k_.c.get(), rec, rng_.Split(rec.size() - hl, 4), salt_++, rng_.Below(2) * 7, hl);
  }
  void Step(size_t i) {
    unsigned what = static_cast<unsigned>(rng_.Below(24));
    if (burst_) { burst_--; what = burst_op_; }
    else if (rng_.Chance(1, 700)) { burst_op_ = what; burst_ = rng_.Repeats(700); run_.Count("session_bursts"); }
    trail_ = trail_.substr(1) + static_cast<char>('a' + what);
    run_.Begin("%s session %zu op %zu (trail %s)%s%s%s", Name(a_), number_, i, trail_.c_str(), partial_.empty() ? "" : " inside a message", soft_ ? " disturbed" : "", closed_ ? " closed" : "");
    run_.Nontrivial(Fmt("s%d%s%d%d%d", static_cast<int>(a_), trail_.c_str(), partial_.empty(), soft_, closed_));
    switch (what) {
      case 0: case 1: case 2: case 3: Send(); return;
      case 4: RefusedSend(); return;
      case 5: if (rng_.Chance(1, 2)) Update(); else Send(); return;
      default: break;
    }
    if (closed_) { AfterClose(); return; }
    if (in_end_) { Exhausted(); return; }
    switch (what) {
      case 6: case 7: case 8: case 9: Data(); break;
      case 10: case 11: case 12: case 13: case 14: Handshake(); break;
      case 15: case 16: case 17: Refused(); break;
      case 18: case 19: Alert(); break;
      case 20: Invalid(); break;
      case 21: if (rng_.Chance(1, 12)) Close(); else Refused(); break;
      case 22: if (rng_.Chance(1, 6)) Forged(); else Data(); break;
      default: if (partial_.empty()) Data(); else Handshake(); break;
    }
  }
  void Send() {
    int type = static_cast<int>(rng_.Below(3));
    size_t n = rng_.Chance(1, 30) ? rng_.Len(kMax) : rng_.Len(90);
    Bytes pt = rng_.Data(n);
    Pieces p;
    p.Build(pt.data(), rng_.Split(n, 4), salt_++);
    size_t slack = rng_.Chance(1, 3) ? rng_.Below(9) : 0;
    Guard rec(n + kOverhead + slack, salt_ & 1);
    rec.Fill(0x3C);
    auto s = k_.c->Protect(kTypes[type], p.iov, {rec.data(), rec.size()});
    if (out_end_) {
      Ck("C08", s.GetCode() != Code::OK, "sequence-wrapped", "a record was protected after the last sequence number");
      return;
    }
    Bytes want = k_.out->Protect(kTypeByte[type], pt);
    OutUsed();
    if (!Ck("C07 C08 C09", s.GetCode() == Code::OK, "protect-failed", "a valid protect was refused: %s", s.GetErrorMessage().c_str())) return;
    Ck("C07 C08 C09", s.GetBytesWritten() == want.size() && memcmp(rec.data(), want.data(), want.size()) == 0, "record-bytes", "the record is not the one the peer expects next (%zu bytes written)", s.GetBytesWritten());
    for (size_t i = 0; i < slack; i++) if (rec.data()[want.size() + i] != 0x3C) { Ck("C07", false, "record-spill", "wrote past the record"); break; }
    run_.Count("session_sent");
  }
  void RefusedSend() {
    bool unknown = rng_.Chance(1, 6), big = !unknown && rng_.Chance(1, 2);
    size_t n = big ? kMax + 1 + rng_.Below(rng_.Chance(1, 2) ? 3 : 3000) : rng_.Len(90);
    size_t room = big || unknown ? n + 60 : n + kOverhead - 1 - rng_.Below(rng_.Chance(1, 2) ? 3 : n + kOverhead);
    Bytes pt = rng_.Data(n);
    Pieces p;
    p.Build(pt.data(), rng_.Split(n, 3), salt_++);
    Guard rec(room, true);
    auto s = k_.c->Protect(unknown ? UnknownType(rng_) : kTypes[rng_.Below(3)], p.iov, {rec.data(), room});
    Ck("C07", s.GetCode() != Code::OK && s.GetBytesWritten() == 0, "refusable-accepted", "%zu bytes%s protected into %zu", n, unknown ? " of an unknown type" : "", room);
  }
  void Update() {
    size_t n = rng_.Chance(1, 10) ? 1 + rng_.Below(20) : 1;
    while (n--) {
      if (!Ck("C09 C08", k_.c->UpdateOutboundKey().ok(), "update", "outbound update refused")) return;
      k_.out->KeyUpdate();
      out_left_ = ~uint64_t{0};
      out_end_ = false;
      run_.Count("session_outbound_updates");
    }
  }
  void Data() {
    size_t n = rng_.Chance(1, 30) ? rng_.Len(kMax) : rng_.Len(90), pad = rng_.Chance(1, 4) ? rng_.Below(std::min<size_t>(40, kMax - n) + 1) : 0;
    Bytes pt = rng_.Data(n);
    Got g = Push(In(23, pt, pad));
    if (!partial_.empty()) {
      Ck("C14", g.code != Code::OK && g.written == 0, "data-inside-message", "application data inside an unfinished handshake message was accepted");
      soft_ = true;
      run_.Count("session_data_inside_message");
      return;
    }
    if (soft_ && g.code != Code::OK) { over_ = true; return; }
    if (!Ck("C08 C09 C10 C11", g.code == Code::OK && g.data == pt, "receive", "application data: code %d, %zu bytes delivered of %zu", static_cast<int>(g.code), g.data.size(), n)) return;
    if (!full_.empty() && !sent_) CheckSent("at application data");
    Ck("C14", Log().calls.size() == (sent_ ? 1u : 0u), "send-count", "%zu sends", Log().calls.size());
    run_.Count("session_received");
  }
  void CheckSent(const char* when) {
    sent_ = true;
    if (soft_ && Log().calls.empty()) { over_ = true; return; }
    if (!Ck("C14", Log().calls.size() == 1, "send-count", "%s: the ticket sender was called %zu times", when, Log().calls.size())) return;
    auto& c = Log().calls[0];
    size_t want = std::min<size_t>(5, full_.size());
    bool ok = Ck("C14", !c.null_tickets && c.tickets.size() == want, "send-tickets", "%s: %zu tickets sent, %zu expected of %zu", when, c.tickets.size(), want, full_.size());
    for (size_t i = 0; ok && i < want; i++) ok &= Ck("C14", c.tickets[i] == std::string(full_[i].begin(), full_[i].end()), "send-bytes", "ticket %zu differs (%zu bytes sent, %zu received)", i, c.tickets[i].size(), full_[i].size());
  }
  void Handshake() {
    if (pending_.empty()) {
      size_t m = 1 + rng_.Below(rng_.Chance(1, 4) ? 6 : 2);
      while (m--) pending_ = Cat(pending_, rng_.Chance(1, 3) ? Msg(24, {static_cast<uint8_t>(rng_.Below(2))}) : Msg(4, rng_.Data(1 + rng_.Len(rng_.Chance(1, 20) ? 3000 : 40))));
    }
    size_t n = rng_.Chance(1, 2) ? pending_.size() : 1 + rng_.Below(rng_.Chance(1, 2) ? 5 : pending_.size());
    n = std::min({n, pending_.size(), kMax});
    bool update = false, tickets = false;
    for (size_t i = 0; i < n; i++) {
      partial_.push_back(pending_[i]);
      if (partial_[0] == 4) tickets = true;
      if (partial_.size() < 4) continue;
      size_t len = size_t{partial_[1]} << 16 | size_t{partial_[2]} << 8 | partial_[3];
      if (partial_.size() < 4 + len) continue;
      if (partial_[0] == 24) { update = true; n = i + 1; }
      else full_.push_back(partial_);
      partial_.clear();
    }
    Bytes content(pending_.begin(), pending_.begin() + n);
    pending_.erase(pending_.begin(), pending_.begin() + n);
    size_t pad = rng_.Chance(1, 5) ? rng_.Below(std::min<size_t>(30, kMax - n) + 1) : 0;
    Got g = Push(In(22, content, pad));
    Ck("C11", g.written == 0, "handshake-delivered", "handshake content delivered %zu bytes", g.written);
    if (soft_ && g.code != Code::OK) { over_ = true; return; }
    if (!Ck("C09 C10 C11 C14", g.code == Code::OK, "handshake-refused", "handshake record refused (code %d)", static_cast<int>(g.code))) return;
    if (update) { k_.in->KeyUpdate(); in_left_ = ~uint64_t{0}; in_end_ = false; run_.Count("session_inbound_updates"); }
    if (!sent_ && !Log().calls.empty()) {
      Ck("C14", full_.size() >= 5, "send-early", "tickets sent after %zu complete ones and no application data", full_.size());
      CheckSent("at the fifth ticket");
    }
    if (!sent_ && full_.size() >= 5 && partial_.empty() && tickets) CheckSent("five complete tickets");
    run_.Count("session_handshake_records");
  }
  // Refused for header or size: the stream must be undisturbed.
  void Refused() {
    ref::Tls13Half peek = *k_.in;
    unsigned w = static_cast<unsigned>(rng_.Below(8));
    Bytes rec = peek.Protect(rng_.Chance(1, 3) ? 22 : 23, rng_.Data(RecordContent(rng_)));
    size_t hl = kHeader;
    bool over = false;
    switch (w) {
      case 0: rec[rng_.Below(5)] ^= static_cast<uint8_t>(1 << rng_.Below(8)); break;
      case 1: rec.resize(rng_.Below(rec.size())); break;
      case 2: rec.resize(rec.size() + 1 + rng_.Below(30), 0); break;
      case 3: hl = rng_.Below(5); break;
      case 4: rec.resize(5); break;
      case 5: rec.clear(); break;
      case 6: rec = ShortRecord(rng_); break;
      default: { Bytes inner(kMax + 2 + rng_.Below(40), 23); peek = *k_.in; rec = peek.ProtectInner(inner); over = true; }
    }
    Got g;
    if (w >= 4 && w < 6) {  // no payload at all
      Guard h(rec, true), out(20, true);
      auto s = k_.c->Unprotect({h.data(), h.size()}, {}, {out.data(), out.size()});
      g.code = s.GetCode();
      g.written = s.GetBytesWritten();
    } else {
      g = Push(rec, hl);
    }
    Ck("C10", g.code != Code::OK && g.written == 0, "malformed-accepted", "a malformed record (kind %u) was accepted", w);
    if (over) Ck("C11", g.code == Code::ALERT_RECORD_OVERFLOW, "overflow", "oversize record: code %d", static_cast<int>(g.code));
    run_.Count("session_refused");
  }
  void Alert() {
    Got g = Push(In(21, {static_cast<uint8_t>(1 + rng_.Below(2)), static_cast<uint8_t>(1 + rng_.Below(255))}, rng_.Below(2) * rng_.Below(9)));
    Ck("C11", g.code == Code::ALERT_OTHER && g.written == 0, "alert", "an alert: code %d, %zu bytes", static_cast<int>(g.code), g.written);
    if (!partial_.empty()) soft_ = true;  // interleaved with a handshake message: the peer broke the protocol
  }
  void Invalid() {
    Bytes inner;
    switch (rng_.Below(3)) {
      case 0: inner.assign(1 + rng_.Below(60), 0); break;
      case 1: { inner = rng_.Data(rng_.Below(20)); static const uint8_t t[] = {1, 20, 24, 25, 128, 255, 26}; inner.push_back(t[rng_.Below(7)]); inner.resize(inner.size() + rng_.Below(9), 0); break; }
      default: inner = rng_.Data(rng_.Below(2)); inner.push_back(21); inner.resize(inner.size() + rng_.Below(5), 0);
    }
    Got g = Push(InInner(inner));
    Ck("C11", g.code == Code::INVALID_RECORD && g.written == 0, "invalid", "an invalid record: code %d, %zu bytes", static_cast<int>(g.code), g.written);
    soft_ = true;
  }
  void Forged() {
    ref::Tls13Half peek = *k_.in;
    Bytes rec = peek.Protect(23, rng_.Data(RecordContent(rng_)));
    rec[kHeader + rng_.Below(rec.size() - kHeader)] ^= static_cast<uint8_t>(1 << rng_.Below(8));
    InInner({23});  // as implemented, the position is used up
    Got g = Push(rec);
    Ck("C10", g.code != Code::OK && g.written == 0, "inauthentic-delivered", "an altered record was accepted");
    soft_ = true;
  }
  void Close() {
    Got g = Push(In(21, {static_cast<uint8_t>(1 + rng_.Below(2)), 0}, rng_.Below(2) * rng_.Below(9)));
    Ck("C11", g.code == Code::ALERT_CLOSE_NOTIFY && g.written == 0, "alert", "close_notify: code %d, %zu bytes", static_cast<int>(g.code), g.written);
    closed_ = true;
  }
  void AfterClose() {
    Bytes rec;
    ref::Tls13Half peek = *k_.in;
    switch (rng_.Below(5)) {
      case 0: case 1: rec = peek.Protect(23, rng_.Data(rng_.Below(30))); break;
      case 2: rec = peek.Protect(22, pending_.empty() ? Msg(24, {0}) : pending_.size() > 900 ? Bytes(pending_.begin(), pending_.begin() + 900) : pending_); break;
      case 3: rec = rng_.Data(rng_.Below(60)); break;
      default: rec = peek.Protect(21, {2, 40}); break;
    }
    Got g = Push(rec);
    Ck("C11", g.code == Code::ALERT_CLOSE_NOTIFY && g.written == 0, "close-notify", "after close_notify: code %d, %zu bytes", static_cast<int>(g.code), g.written);
    run_.Count("session_after_close");
  }
  void Exhausted() {
    ref::Tls13Half peek = *k_.in;
    peek.set_seq(rng_.Below(3));
    Got g = Push(peek.Protect(23, rng_.Data(5)));
    Ck("C08", g.code != Code::OK && g.written == 0, "sequence-wrapped", "a record was accepted after the last sequence number");
    run_.Count("session_exhausted");
  }

  Run& run_;
  Rng& rng_;
  ref::Aead a_;
  size_t number_;
  unsigned& salt_;
  Conn k_;
  size_t burst_ = 0;
  unsigned burst_op_ = 0;
  std::string trail_ = ".....";
  uint64_t in_left_ = 0, out_left_ = 0;
  bool in_end_ = false, out_end_ = false, soft_ = false, closed_ = false, over_ = false, sent_ = false;
  Bytes partial_, pending_;
  std::vector<Bytes> full_;
};
void Sessions(Run& run) {
  Rng rng(run.seed() * 13 + 77);
  unsigned salt = 0;
  bool nonces = run.property() == "C08";
  for (ref::Aead a : kAeads)
    for (size_t h = 0; h < run.N(150, 4000) && !run.TooMany(); h++) {
      if (nonces) { wrapssl::ResetNonces(); wrapssl::RecordNonces(true); }
      Session(run, rng, a, h, &salt).Go(h % 10 == 0 ? 400 : 70);
      if (nonces) {
        run.Check(wrapssl::NonceReuse() == 0, "nonce-reuse", "%ld reuses; the last: %s", wrapssl::NonceReuse(), wrapssl::LastReuse().c_str());
        wrapssl::RecordNonces(false);
      }
    }
  run.Sample("sessions: a-f sends/updates, g-j data, k-o handshake, p-r refused, s-t alerts, u invalid, v close, w forged");
}

// ---------------------------------------------------------------- C05 (record layer)
void RecordFaults(Run& run) {
  run.Rule("a case is a record-layer operation with its k-th SSL library call failing, for every k; distinct by operation, k and failing call");
  Rng rng(run.seed() * 13 + 5);
  unsigned salt = 0;
  for (ref::Aead a : kAeads)
    for (int forever = 0; forever < 3; forever++) {
      // Create.
      long n = 1;
      Bytes is = rng.Key(SecretSize(a)), os = rng.Key(SecretSize(a));
      for (long k = 0; k <= n; k++) {
        run.Begin("%s create, SSL call %ld fails%s", Name(a), k, forever == 1 ? " from then on" : forever ? " late" : "");
        wrapssl::Arm(k, forever);
        Conn c = Make(a, is, os, 0, 0);
        bool fired = wrapssl::Fired() > 0;
        std::string hit = wrapssl::LastFired();
        if (k == 0) n = wrapssl::Calls();
        wrapssl::Arm(0);
        ERR_clear_error();
        if (c.c) { ProtectOnce(run, c, 0, rng.Data(9), {9}, 0, salt++); }
        else run.Check(fired && !c.status.ok(), "create", "creation failed without a fault");
        if (fired) { run.Nontrivial(Fmt("create%d/%ld/%s/%d", static_cast<int>(a), k, hit.c_str(), forever)); run.Count("fault_" + hit); }
      }
      // Protect / unprotect / update outbound / inbound KeyUpdate / ticket: fault, then keep using the connection.
      for (int op = 0; op < 4; op++) {
        n = 1;
        for (long k = 0; k <= n && k < 100; k++)
          for (int rep = 0; rep < 3; rep++) {
            Conn c = Make(rng, a);
            if (!run.Check(c.c != nullptr, "create", "crypter not created")) return;
            run.Begin("%s op %d, SSL call %ld fails%s", Name(a), op, k, forever == 1 ? " from then on" : forever ? " late" : "");
            size_t len = rng.Len(50);
            Bytes pt = rng.Data(len), rec;
            Pieces p;
            p.Build(pt.data(), rng.Split(len, 3), salt++);
            Guard out(len + kOverhead, true);
            if (op == 1) rec = c.in->Protect(23, pt);
            if (op == 3) rec = c.in->Protect(22, Msg(24, {0}));
            wrapssl::Arm(k, forever);
            bool ok = false, right = true;
            Got g;
            if (op == 0) {
              auto s = c.c->Protect(RT::APPLICATION_DATA, p.iov, {out.data(), out.size()});
              ok = s.GetCode() == Code::OK;
            } else if (op == 1 || op == 3) {
              g = Deliver(c.c.get(), rec);
              ok = g.code == Code::OK;
              right = op == 3 || g.data == pt;
            } else {
              ok = c.c->UpdateOutboundKey().ok();
            }
            bool fired = wrapssl::Fired() > 0;
            std::string hit = wrapssl::LastFired();
            if (k == 0) n = wrapssl::Calls();
            wrapssl::Arm(0);
            ERR_clear_error();
            if (op == 0 && ok) right = out.Get() == c.out->Protect(23, pt);
            run.Check(fired || ok, "op-failed", "operation %d failed without a fault", op);
            run.Check(!ok || right, "fault-swallowed", "%s failed; the operation reported success with a wrong result", hit.c_str());
            if (op == 1 && !ok) for (uint8_t b : g.raw) if (b && b != 0xA7) { run.Check(false, "plaintext-left", "%s failed; output holds data", hit.c_str()); break; }
            if (op == 1 && !ok) run.Check(g.written == 0, "error-with-data", "bytes reported with an error");
            // What follows is either an error or what the peer expects, under the old or the new key.
            ref::Tls13Half old_out = *c.out, new_out = *c.out;
            new_out.KeyUpdate();
            if (op == 2 && ok) old_out = new_out;
            for (int r = 0; r < 4; r++) {
              // The caller may try a failed update again: one update for the peer.
              if (op == 2 && !ok && r == 2 && c.c->UpdateOutboundKey().ok()) {
                bool was_new = old_out.secret() != c.out->secret();
                old_out = new_out;
                if (was_new) { new_out.KeyUpdate(); old_out = new_out; }
              }
              Bytes q = rng.Data(7);
              Guard o2(7 + kOverhead, true);
              auto s = c.c->Protect(RT::APPLICATION_DATA, {{q.data(), 7}}, {o2.data(), o2.size()});
              if (s.GetCode() == Code::OK) {
                ref::Tls13Half x0 = old_out, x1 = old_out, x2 = new_out;
                x1.set_seq(x1.seq() + 1);
                bool m0 = x0.Protect(23, q) == o2.Get(), m1 = x1.Protect(23, q) == o2.Get(), m2 = op == 2 && x2.Protect(23, q) == o2.Get();
                run.Check(m0 || m1 || m2, "after-fault", "after a failed %s the next record is one no peer can read", hit.c_str());
                old_out = m0 ? x0 : m1 ? x1 : x2;
              } else {
                run.Check(op == 2 && !ok, "after-fault", "sending is broken although only operation %d failed", op);
              }
            }
            // Receiving: authentic or refused.
            ref::Tls13Half in_new = *c.in;
            in_new.KeyUpdate();
            if (op == 3 && ok) {
              Bytes q = rng.Data(5);
              Got r = Deliver(c.c.get(), in_new.Protect(23, q));
              run.Check(r.code == Code::OK && r.data == q, "after-update", "data under the new key refused");
            } else if (op == 3) {
              for (int r = 0; r < 4; r++) {
                Bytes q = rng.Data(5);
                Got x = Deliver(c.c.get(), (r & 1 ? in_new : *c.in).Protect(23, q));
                run.Check(x.code != Code::OK || x.data == q, "after-fault", "wrong data delivered");
              }
            }
            if (fired) { run.Nontrivial(Fmt("op%d/%d/%ld/%s/%d", op, static_cast<int>(a), k, hit.c_str(), forever)); run.Count("fault_" + hit); }
          }
        run.Check(n > 0, "hook-missing", "no SSL call seen in operation %d", op);
      }
    }
  run.Sample("create/protect/unprotect/outbound update/inbound KeyUpdate with each SSL call failing");
}
}  // namespace

// Far more room than needed is no reason to fail.
void HugeRoom(Run& run) {
  Rng rng(run.seed() * 83 + 1);
  for (ref::Aead a : kAeads)
    for (size_t len : {size_t{1} << 31, (size_t{1} << 32) - 1, size_t{1} << 32, (size_t{1} << 32) + 7, (size_t{1} << 33) + 22}) {
      void* out = vh::HugeOutput(len);
      if (out == MAP_FAILED) { run.Count("huge_skipped"); continue; }
      Conn k = Make(rng, a);
      if (!run.Check(k.c != nullptr, "create", "crypter not created")) return;
      for (int i = 0; i < 3; i++) {
        run.Begin("%s room for %zu bytes", Name(a), len);
        Bytes pt = rng.Data(rng.Len(200)), want = k.out->Protect(23, pt);
        auto s = k.c->Protect(RT::APPLICATION_DATA, {{pt.data(), pt.size()}}, {out, len});
        run.Check(s.GetCode() == Code::OK && s.GetBytesWritten() == want.size() && !memcmp(out, want.data(), want.size()), "huge-room", "protecting fails, or gives something else");
        Bytes rec = k.in->Protect(23, pt);
        s = k.c->Unprotect({rec.data(), kHeader}, {{rec.data() + kHeader, rec.size() - kHeader}}, {out, len});
        run.Check(s.GetCode() == Code::OK && s.GetBytesWritten() == pt.size() && (pt.empty() || !memcmp(out, pt.data(), pt.size())), "huge-room", "unprotecting fails, or gives something else");
      }
      munmap(out, len);
      run.Nontrivial(Fmt("huge%d/%zu", static_cast<int>(a), len));
    }
}

// One kind of operation again and again, past any small counter; then ordinary traffic both ways.
void Marathon(Run& run, const std::string& kinds) {
  Rng rng(run.seed() * 23 + 77);
  unsigned salt = 0;
  const ref::Aead a = kAeads[run.seed() % 3];
  for (char kind : kinds) {
    if (run.TooMany()) return;
    Conn k = Make(rng, a, rng.Number(8), rng.Number(8));
    if (!run.Check(k.c != nullptr, "create", "crypter not created")) return;
    Log() = TicketLog();
    const size_t n = run.Many(600);
    std::vector<std::string> tickets;
    uint8_t rec[64], out[64];
    size_t done = 0;
    bool ok = true;
    auto feed = [&](const Bytes& r, Code want, const Bytes& data) {
      auto s = k.c->Unprotect({const_cast<uint8_t*>(r.data()), kHeader}, {{const_cast<uint8_t*>(r.data()) + kHeader, r.size() - kHeader}}, {out, r.size() - kHeader});
      bool good = s.GetCode() == want && s.GetBytesWritten() == data.size() && (data.empty() || memcmp(out, data.data(), data.size()) == 0);
      return run.Check(good, "marathon", "repetition %zu: code %d instead of %d, %zu bytes", done, static_cast<int>(s.GetCode()), static_cast<int>(want), s.GetBytesWritten());
    };
    for (; done < n && ok; done++) {
      if (done % 256 == 0) run.Begin("%s: repetition %zu of operation %c", Name(a), done, kind);
      uint8_t b = static_cast<uint8_t>(rng.Below(256));
      switch (kind) {
        case 's': {  // send
          Iovec v{&b, 1};
          auto s = k.c->Protect(RT::APPLICATION_DATA, {v}, {rec, 23});
          Bytes want = k.out->Protect(23, Bytes(1, b));
          ok = run.Check(s.GetCode() == Code::OK && memcmp(rec, want.data(), 23) == 0, "record-bytes", "record %zu differs", done);
          break;
        }
        case 'n': {  // refused: no room
          Iovec v{&b, 1};
          auto s = k.c->Protect(RT::APPLICATION_DATA, {v}, {rec, 22});
          ok = run.Check(s.GetCode() == Code::FAILED_PRECONDITION, "refusal", "a record without room is not refused");
          break;
        }
        case 'r': ok = feed(k.in->Protect(23, Bytes(1, b)), Code::OK, Bytes(1, b)); break;
        case 'e': ok = feed(k.in->Protect(23, {}, b % 3), Code::OK, {}); break;  // empty
        case 'a': ok = feed(k.in->Protect(21, {1, static_cast<uint8_t>(b ? b : 1)}), Code::ALERT_OTHER, {}); break;
        case 'h': { Bytes r = k.in->Protect(23, Bytes(1, b)); k.in->set_seq(k.in->seq() - 1); r[done % 5 == 3 ? 4 : done % 5] ^= 0x40; ok = feed(r, Code::FAILED_PRECONDITION, {}); break; }
        case 'f': { Bytes r = k.in->Protect(23, Bytes(1, b)); r.back() ^= 1; ok = feed(r, Code::INTERNAL_ERROR, {}); break; }
        case 'u': ok = run.Check(k.c->UpdateOutboundKey().ok(), "update", "outbound update %zu refused", done); k.out->KeyUpdate(); break;
        case 'U': ok = feed(k.in->Protect(22, Msg(24, {static_cast<uint8_t>(b & 1)})), Code::OK, {}); k.in->KeyUpdate(); break;
        case 't': {  // tickets, no data
          Bytes body = rng.Data(1 + b % 9);
          body = Msg(4, body);
          if (tickets.size() < 5) tickets.push_back(std::string(body.begin(), body.end()));
          ok = feed(k.in->Protect(22, body), Code::OK, {});
          break;
        }
        case 'p': {  // one ticket in many pieces
          if (done == 0) {
            Bytes head{4, static_cast<uint8_t>(n >> 16), static_cast<uint8_t>(n >> 8), static_cast<uint8_t>(n)};
            ok = feed(k.in->Protect(22, head), Code::OK, {});
            tickets.emplace_back(head.begin(), head.end());
          }
          tickets.back() += static_cast<char>(b);
          ok = feed(k.in->Protect(22, Bytes(1, b)), Code::OK, {});
          break;
        }
      }
    }
    run.Count("marathon_operations", done);
    for (int i = 0; i < 3 && ok; i++) {
      ProtectOnce(run, k, i, rng.Data(9), {9}, 0, salt++);
      Bytes pt = rng.Data(9);
      Got g = Deliver(k.c.get(), k.in->Protect(23, pt));
      ok = run.Check(g.code == Code::OK && g.data == pt, "receive", "after %zu operations %c data is refused (code %d)", done, kind, static_cast<int>(g.code));
      run.Check(k.c->UpdateOutboundKey().ok(), "update", "after %zu operations %c an update is refused", done, kind);
      k.out->KeyUpdate();
      g = Deliver(k.c.get(), k.in->Protect(22, Msg(24, {0})));
      ok = run.Check(g.code == Code::OK, "update", "after %zu operations %c a KeyUpdate is refused (code %d)", done, kind, static_cast<int>(g.code)) && ok;
      k.in->KeyUpdate();
    }
    size_t calls = Log().calls.size();
    ok = run.Check(calls == (tickets.empty() ? 0 : 1), "tickets", "the sender was called %zu times", calls) && ok;
    if (calls == 1) run.Check(Log().calls[0].tickets == tickets, "tickets", "the tickets sent are not those received");
    k.c.reset();
    run.Check(Log().waits == static_cast<int>(calls), "tickets", "%d waits for %zu calls", Log().waits, calls);
    run.Nontrivial(Fmt("marathon %s %c %zu", Name(a), kind, done));
  }
}

int Workload(Run& run) {
  std::string why;
  if (!ref::Sealer::SelfTest(&why)) { fprintf(stderr, "oracle self-test: %s\n", why.c_str()); return 3; }
  const std::string& p = run.property();
  if (p == "C07") { Protect(run); Sessions(run); if (run.round() == 0) Marathon(run, "sn"), HugeRoom(run); }
  else if (p == "C08") { Nonces(run); Sessions(run); if (run.round() == 0) Marathon(run, "un"); }
  else if (p == "C09") { KeyUpdates(run); Sessions(run); if (run.round() == 0) Marathon(run, "uU"); }
  else if (p == "C10") { OnlyAuthentic(run); Sessions(run); if (run.round() == 0) Marathon(run, "rhf"), HugeRoom(run); }
  else if (p == "C11") { Content(run); Sessions(run); if (run.round() == 0) Marathon(run, "ea"); }
  else if (p == "C14") { TicketForwarding(run); Sessions(run); if (run.round() == 0) Marathon(run, "tp"); }
  else if (p == "C05") RecordFaults(run);
  else return 3;
  return 0;
}

void TapeCase(Run& run, Rng& rng) {
  run.Rule("a case is one operation of a session between a crypter and an independent RFC 8446 peer, the session's choices found by coverage-guided mutation");
  static unsigned salt = 0;
  bool nonces = run.property() == "C08";
  if (nonces) { wrapssl::ResetNonces(); wrapssl::RecordNonces(true); }
  salt = static_cast<unsigned>(rng.Below(12));
  Session(run, rng, kAeads[rng.Below(3)], 0, &salt).Go(0, true);
  if (nonces) {
    run.Check(wrapssl::NonceReuse() == 0, "nonce-reuse", "%ld reuses; the last: %s", wrapssl::NonceReuse(), wrapssl::LastReuse().c_str());
    wrapssl::RecordNonces(false);
  }
}
