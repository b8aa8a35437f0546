// C19 (one connection used from several threads) and C29 (different objects
// used from different threads).
#include <openssl/err.h>
#include <sched.h>
#include <x86intrin.h>

#include <atomic>
#include <thread>

#include "include/access_token_manager_factory.h"
#include "include/s2a_frame_protector.h"
#include "px.h"
#include "src/crypto/hkdf.h"
#include "src/crypto/s2a_aead_crypter.h"
#include "src/crypto/s2a_aead_crypter_util.h"
#include "src/proto/upb-generated/proto/s2a.upb.h"
#include "src/record_protocol/handshake_message_handler.h"
#include "src/record_protocol/s2a_half_connection.h"
#include "upb/upb.hpp"
#include "wrap_mu.h"
#include "wrap_ssl.h"

using namespace px;
using s2a::aead_crypter::S2AAeadCrypter;
using s2a::frame_protector::S2AFrameProtector;
using s2a::handshake_message_handler::HandshakeMessageHandler;
using s2a::record_protocol::S2AHalfConnection;

namespace {
// What one thread saw; merged by the main thread after the join.  Time stamps
// come from the cycle counter, which orders nothing for ThreadSanitizer.
struct Note {
  std::vector<std::string> bad;
  std::vector<std::pair<uint64_t, int>> ev;  // (time, operation)
  std::map<std::string, uint64_t> counts;
  long locks = 0;
  void Bad(const std::string& s) { if (bad.size() < 3) bad.push_back(s); }
  void Ev(int op) { ev.push_back({__rdtsc(), op}); }
};
class Team {
 public:
  explicit Team(Rng& rng) : seed_(rng.U64()) {}
  void Add(std::function<void(Note&, Rng&)> f) { jobs_.push_back(f); }
  void Go(Run& run, const char* what) {
    std::vector<Note> notes(jobs_.size());
    std::atomic<size_t> ready{0};
    std::vector<std::thread> th;
    for (size_t i = 0; i < jobs_.size(); i++)
      th.emplace_back([&, i] {
        Rng rng(seed_ + i);
        wrapmu::SeedThread(vh::Mix(seed_ * 31 + i));
        // Relaxed: lining up must not order the threads.
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < jobs_.size()) sched_yield();
        jobs_[i](notes[i], rng);
        notes[i].locks = wrapmu::ThreadLocks();
      });
    for (auto& t : th) t.join();
    std::vector<std::pair<uint64_t, std::pair<size_t, int>>> all;
    for (size_t i = 0; i < notes.size(); i++) {
      for (auto& b : notes[i].bad) run.Check(false, what, "thread %zu of %zu: %s", i, notes.size(), b.c_str());
      for (auto& e : notes[i].ev) all.push_back({e.first, {i, e.second}});
      for (auto& c : notes[i].counts) run.Count(c.first, c.second);
      run.Count("mutex acquisitions", static_cast<uint64_t>(notes[i].locks));
    }
    std::sort(all.begin(), all.end());
    uint64_t h = 0;
    size_t switches = 0;
    for (size_t i = 0; i < all.size(); i++) {
      h = vh::Mix(h ^ (all[i].second.first * 16 + static_cast<size_t>(all[i].second.second)));
      if (i && all[i].second.first != all[i - 1].second.first) switches++;
    }
    run.Count("operations", all.size());
    run.Count("thread switches between operations", switches);
    if (switches > 1) run.Nontrivial(vh::Hash(what) ^ h);  // one per distinct interleaving of operations
  }
 private:
  uint64_t seed_;
  std::vector<std::function<void(Note&, Rng&)>> jobs_;
};

// What the peer sends and what each record must give.
struct Expect { Bytes rec; bool data; Bytes want; };
std::vector<Expect> PeerStream(Rng& rng, ref::Tls13Half* peer, size_t n, size_t max_len) {
  std::vector<Expect> v;
  for (size_t i = 0; i < n; i++) {
    switch (rng.Below(8)) {
      case 0: v.push_back({peer->Protect(22, Msg(24, {0})), false, {}}); peer->KeyUpdate(); break;
      case 1: v.push_back({peer->Protect(22, Msg(4, rng.Data(1 + rng.Below(60)))), false, {}}); break;
      default: { Bytes d = rng.Data(rng.Below(max_len + 1)); v.push_back({peer->Protect(23, d, rng.Below(10)), true, d}); }
    }
  }
  return v;
}
Bytes Protect(S2ACrypter* c, S2ACrypter::RecordType t, const Bytes& d, Note& n) {
  Bytes rec(d.size() + kOverhead), copy = d;
  auto s = c->Protect(t, {{copy.data(), copy.size()}}, {rec.data(), rec.size()});
  if (s.GetCode() != Code::OK || s.GetBytesWritten() != rec.size()) n.Bad(Fmt("protecting %zu bytes failed: %s", d.size(), s.GetErrorMessage().c_str()));
  return rec;
}
void Receive(S2ACrypter* c, const std::vector<Expect>& in, Note& n, Rng& rng) {
  for (auto& e : in) {
    n.Ev(1);
    auto g = Deliver(c, e.rec, rng.Split(e.rec.size() - kHeader, 3), static_cast<unsigned>(rng.U64()));
    if (g.code != Code::OK || (e.data ? g.data != e.want : !g.data.empty())) { n.Bad(Fmt("unprotecting an authentic record gave code %d, %zu bytes instead of %zu", static_cast<int>(g.code), g.data.size(), e.want.size())); return; }
    n.counts["records received"]++;
  }
}

// One thread sends (and updates its key), another receives, a third asks sizes.
void Duplex(Run& run, Rng& rng, size_t round) {
  ref::Aead a = kAeads[round % 3];
  size_t n = rng.Range(4, 40), max_len = rng.Chance(1, 3) ? 3000 : 100;
  run.Begin("duplex round %zu: %s, %zu records each way", round, Name(a), n);
  Conn k = Make(rng, a, rng.Below(3), rng.Below(3));
  if (!run.Check(k.c != nullptr, "create", "no crypter")) return;
  std::vector<Expect> in = PeerStream(rng, k.in.get(), n, max_len);
  struct Sent { Bytes rec; uint8_t type; Bytes d; bool update_after; };
  std::vector<Sent> sent;
  Team team(rng);
  S2ACrypter* c = k.c.get();
  team.Add([&](Note& o, Rng& r) {
    for (size_t i = 0; i < n; i++) {
      o.Ev(2);
      Sent s;
      s.update_after = r.Chance(1, 4);
      s.type = s.update_after ? 22 : r.Chance(1, 10) ? 21 : 23;
      s.d = s.update_after ? Msg(24, {1}) : r.Data(r.Below(max_len + 1));
      s.rec = Protect(c, s.type == 22 ? S2ACrypter::RecordType::HANDSHAKE : s.type == 21 ? S2ACrypter::RecordType::ALERT : S2ACrypter::RecordType::APPLICATION_DATA, s.d, o);
      if (s.update_after) { o.Ev(3); if (!c->UpdateOutboundKey().ok()) o.Bad("key update failed"); o.counts["outbound key updates"]++; }
      sent.push_back(s);
      o.counts["records sent"]++;
    }
  });
  team.Add([&](Note& o, Rng& r) { Receive(c, in, o, r); });
  if (rng.Chance(1, 2)) team.Add([&](Note& o, Rng&) {
    for (size_t i = 0; i < n; i++) { o.Ev(4); if (c->RecordOverhead() != kOverhead) o.Bad("record overhead is not 22"); sched_yield(); }
  });
  team.Go(run, "duplex");
  for (size_t i = 0; i < sent.size(); i++) {
    Bytes want = k.out->Protect(sent[i].type, sent[i].d);
    if (!run.Check(sent[i].rec == want, "duplex", "record %zu sent is not the one RFC 8446 prescribes here", i)) break;
    if (sent[i].update_after) k.out->KeyUpdate();
  }
}

// Finds for each record its place (key epoch, sequence number) in the stream;
// every place is used at most once, and within an epoch without gaps.
void Places(Run& run, const char* what, const ref::Tls13Half& start, const std::vector<std::pair<Bytes, Bytes>>& recs, int updates) {
  std::vector<bool> found(recs.size(), false);
  size_t left = recs.size();
  ref::Tls13Half h = start;
  for (int e = 0; e <= updates; e++) {
    uint64_t base = h.seq();
    size_t in_epoch = 0;
    uint64_t highest = 0;
    for (uint64_t q = 0; q <= recs.size(); q++) {
      size_t hits = 0;
      for (size_t i = 0; i < recs.size(); i++) {
        Bytes inner;
        h.set_seq(base + q);
        if (!h.Unprotect(recs[i].first, &inner)) continue;
        hits++;
        if (found[i]) run.Check(false, what, "record %zu decrypts at two places", i);
        else { found[i] = true; left--; in_epoch++; highest = q; }
        while (!inner.empty() && inner.back() == 0) inner.pop_back();
        if (!inner.empty()) inner.pop_back();
        run.Check(inner == recs[i].second, what, "record %zu carries other content than protected", i);
      }
      run.Check(hits <= 1, what, "%zu records share sequence number %llu of key epoch %d", hits, static_cast<unsigned long long>(base + q), e);
    }
    if (in_epoch) run.Check(highest + 1 == in_epoch, what, "epoch %d has %zu records but sequence numbers up to %llu", e, in_epoch, static_cast<unsigned long long>(highest));
    h.KeyUpdate();
    h.set_seq(0);
  }
  run.Check(left == 0, what, "%zu of %zu records decrypt at no place of the stream", left, recs.size());
}

// Several threads protect on one crypter; the receiving side is busy too.
void ManySenders(Run& run, Rng& rng, size_t round) {
  ref::Aead a = kAeads[round % 3];
  size_t threads = rng.Range(2, 5), each = rng.Range(2, 8);
  int updates = rng.Chance(1, 2) ? static_cast<int>(rng.Range(1, 3)) : 0;
  run.Begin("senders round %zu: %s, %zu threads of %zu records, %d key updates", round, Name(a), threads, each, updates);
  Conn k = Make(rng, a, 0, rng.Below(5));
  if (!run.Check(k.c != nullptr, "create", "no crypter")) return;
  std::vector<Expect> in = PeerStream(rng, k.in.get(), 6, 40);
  std::vector<std::vector<std::pair<Bytes, Bytes>>> out(threads);
  Team team(rng);
  S2ACrypter* c = k.c.get();
  for (size_t t = 0; t < threads; t++) team.Add([&, t](Note& o, Rng& r) {
    for (size_t i = 0; i < each; i++) {
      o.Ev(2);
      Bytes d = r.Data(8 + r.Below(40));
      d.push_back(1);
      out[t].push_back({Protect(c, S2ACrypter::RecordType::APPLICATION_DATA, d, o), d});
      o.counts["records sent"]++;
    }
  });
  if (updates) team.Add([&](Note& o, Rng& r) {
    for (int i = 0; i < updates; i++) {
      for (size_t s = r.Below(20); s; s--) sched_yield();
      o.Ev(3);
      if (!c->UpdateOutboundKey().ok()) o.Bad("key update failed");
      o.counts["outbound key updates"]++;
    }
  });
  team.Add([&](Note& o, Rng& r) { Receive(c, in, o, r); });
  team.Go(run, "senders");
  std::vector<std::pair<Bytes, Bytes>> all;
  for (auto& v : out) all.insert(all.end(), v.begin(), v.end());
  Places(run, "senders", *k.out, all, updates);
}

// The half connection itself.
void Half(Run& run, Rng& rng, size_t round) {
  ref::Aead a = kAeads[round % 3];
  size_t threads = rng.Range(2, 4), each = rng.Range(2, 8);
  int updates = static_cast<int>(rng.Below(3));
  run.Begin("half connection round %zu: %s, %zu threads of %zu encryptions, %d key updates", round, Name(a), threads, each, updates);
  Bytes secret = rng.Key(SecretSize(a));
  auto v = S2AHalfConnection::Create(SuiteOf(a), 0, secret);
  if (!run.Check(v.index() == 1, "create", "no half connection")) return;
  S2AHalfConnection* h = absl::get<1>(v).get();
  std::vector<std::vector<std::pair<Bytes, Bytes>>> out(threads);
  Team team(rng);
  for (size_t t = 0; t < threads; t++) team.Add([&, t](Note& o, Rng& r) {
    for (size_t i = 0; i < each; i++) {
      o.Ev(2);
      if (h->TagLength() != 16) o.Bad("tag length is not 16");
      Bytes d = r.Data(5 + r.Below(40));
      d.push_back(23);
      size_t n = d.size() + 16;
      Bytes rec = {23, 3, 3, static_cast<uint8_t>(n >> 8), static_cast<uint8_t>(n)};
      Bytes hd = rec;
      rec.resize(5 + n);
      auto s = h->Encrypt({{hd.data(), 5}}, {{d.data(), d.size()}}, {rec.data() + 5, n});
      if (!s.GetStatus().ok() || s.GetBytesWritten() != n) o.Bad("encryption failed");
      d.pop_back();
      out[t].push_back({rec, d});
      o.counts["encryptions"]++;
    }
  });
  if (updates) team.Add([&](Note& o, Rng& r) {
    for (int i = 0; i < updates; i++) {
      for (size_t s = r.Below(20); s; s--) sched_yield();
      o.Ev(3);
      if (!h->UpdateKey().ok()) o.Bad("key update failed");
    }
  });
  team.Add([&](Note& o, Rng&) { for (int i = 0; i < 20; i++) { o.Ev(4); if (h->TagLength() != 16) o.Bad("tag length is not 16"); } });
  team.Go(run, "half");
  std::vector<std::pair<Bytes, Bytes>> all;
  for (auto& w : out) all.insert(all.end(), w.begin(), w.end());
  Places(run, "half", ref::Tls13Half(a, secret, 0), all, updates);
}

struct Fp {
  std::unique_ptr<S2AFrameProtector> f;
  std::unique_ptr<ref::Tls13Half> in, out;
  std::string url = "s2a";
  Identity id = Identity::FromHostname("l");
};
std::unique_ptr<Fp> MakeFp(Rng& rng, ref::Aead a) {
  std::unique_ptr<Fp> k(new Fp);
  Bytes is = rng.Key(SecretSize(a)), os = rng.Key(SecretSize(a));
  S2AFrameProtector::S2AFrameProtectorOptions o = {TlsVersion::TLS1_3, SuiteOf(a), is, os, 0, 0, k->url, k->id, 5, nullptr, nullptr,
                                                   [](size_t n) { return Iovec{new uint8_t[n], n}; }, [](Iovec v) { delete[] static_cast<uint8_t*>(v.iov_base); }, [](const std::string&) {}};
  auto r = S2AFrameProtector::Create(o);
  if (r.ok()) k->f = std::move(*r);
  k->in.reset(new ref::Tls13Half(a, is, 0));
  k->out.reset(new ref::Tls13Half(a, os, 0));
  return k;
}
Bytes Take(S2AFrameProtector::Result& r) {
  Bytes b;
  for (auto& v : r.bytes) {
    b.insert(b.end(), static_cast<uint8_t*>(v.iov_base), static_cast<uint8_t*>(v.iov_base) + v.iov_len);
    delete[] static_cast<uint8_t*>(v.iov_base);
  }
  r.bytes.clear();
  return b;
}
std::vector<Bytes> Records(const Bytes& s) {
  std::vector<Bytes> v;
  for (size_t i = 0; i + 5 <= s.size();) {
    size_t n = 5 + (size_t{s[i + 3]} << 8 | s[i + 4]);
    if (i + n > s.size()) n = s.size() - i;
    v.emplace_back(s.begin() + static_cast<long>(i), s.begin() + static_cast<long>(i + n));
    i += n;
  }
  return v;
}
void FpReceive(S2AFrameProtector* f, const std::vector<Expect>& in, Note& n, Rng& rng) {
  for (size_t i = 0; i < in.size();) {
    n.Ev(1);
    if (rng.Chance(1, 3)) {
      Bytes rec = in[i].rec, out(rec.size());
      Iovec o{out.data(), out.size()};
      auto s = f->Unprotect({{rec.data(), rec.size()}}, o);
      if (!s.ok() || (in[i].data && Bytes(out.data(), out.data() + o.iov_len) != in[i].want)) { n.Bad("unprotecting one authentic record failed: " + s.ToString()); return; }
      i++;
      continue;
    }
    size_t k = std::min<size_t>(in.size() - i, rng.Range(1, 4));
    Bytes stream, want;
    for (size_t j = 0; j < k; j++) { stream = Cat(stream, in[i + j].rec); if (in[i + j].data) want = Cat(want, in[i + j].want); }
    auto r = f->Unprotect({{stream.data(), stream.size()}});
    Bytes got = Take(r);
    if (!r.status.ok() || got != want) { n.Bad(Fmt("unprotecting %zu authentic records gave %zu bytes instead of %zu: ", k, got.size(), want.size()) + r.status.ToString()); return; }
    n.counts["records received"] += k;
    i += k;
  }
}
void Frames(Run& run, Rng& rng, size_t round) {
  ref::Aead a = kAeads[round % 3];
  size_t senders = rng.Chance(1, 2) ? rng.Range(2, 4) : 1;
  bool large = senders > 1 && rng.Chance(1, 2);  // calls of several records
  size_t n = large ? rng.Range(1, 3) : rng.Range(2, 10);
  run.Begin("frame protector round %zu: %s, %zu senders of %zu calls", round, Name(a), senders, n);
  auto k = MakeFp(rng, a);
  if (!run.Check(k->f != nullptr, "create", "no frame protector")) return;
  std::vector<Expect> in = PeerStream(rng, k->in.get(), rng.Range(2, 20), 200);
  std::vector<std::vector<std::pair<Bytes, Bytes>>> out(senders);
  S2AFrameProtector* f = k->f.get();
  Team team(rng);
  for (size_t t = 0; t < senders; t++) team.Add([&, t](Note& o, Rng& r) {
    for (size_t i = 0; i < n; i++) {
      o.Ev(2);
      Bytes d = r.Data(large ? 16384 + r.Below(36000) : senders == 1 && r.Chance(1, 8) ? r.Below(40000) : 8 + r.Below(60));
      d.push_back(1);
      std::vector<Iovec> v = {{d.data(), d.size() / 2}, {d.data() + d.size() / 2, d.size() - d.size() / 2}};
      Bytes got;
      if (r.Chance(1, 2)) {
        auto res = f->Protect(v);
        if (!res.status.ok()) o.Bad("protecting failed: " + res.status.ToString());
        got = Take(res);
      } else {
        got.resize(f->NumberBytesToProtect(v));
        Iovec dst{got.data(), got.size()};
        auto st = f->Protect(v, dst);
        if (!st.ok()) o.Bad("protecting into a buffer failed: " + st.ToString());
        got.resize(std::min(got.size(), dst.iov_len));
      }
      out[t].push_back({got, d});
      o.counts["calls to Protect"]++;
    }
  });
  team.Add([&](Note& o, Rng& r) { FpReceive(f, in, o, r); });
  if (rng.Chance(1, 2)) team.Add([&](Note& o, Rng&) {
    for (int i = 0; i < 20; i++) { o.Ev(4); if (f->NumberBytesToProtect(size_t{100}) != 122 || f->MaxRecordSize() < 16384) o.Bad("a size query gave another value"); sched_yield(); }
  });
  team.Go(run, "frames");
  if (senders == 1) {
    for (auto& p : out[0]) {
      Bytes inner, data;
      bool ok = true;
      for (auto& rec : Records(p.first)) {
        if (!k->out->Unprotect(rec, &inner) || inner.empty() || inner.back() != 23) { ok = false; break; }
        data.insert(data.end(), inner.begin(), inner.end() - 1);
      }
      if (!run.Check(ok && data == p.second, "frames", "an independent peer does not receive what was protected")) break;
    }
  } else {
    // In some order of the calls, each call's output comes in one piece.
    std::vector<std::pair<Bytes, Bytes>> all;
    for (auto& v : out) all.insert(all.end(), v.begin(), v.end());
    if (!large) Places(run, "frames", *k->out, all, 0);
    uint64_t seq = k->out->seq();
    while (!all.empty()) {
      size_t i = 0;
      Bytes inner, data;
      std::vector<Bytes> recs;
      for (; i < all.size(); i++) {
        recs = Records(all[i].first);
        k->out->set_seq(seq);
        if (!recs.empty() && k->out->Unprotect(recs[0], &inner)) break;
      }
      if (!run.Check(i < all.size(), "frames", "no call to Protect begins at sequence number %llu, %zu calls left", static_cast<unsigned long long>(seq), all.size())) break;
      bool ok = true;
      for (size_t j = 0; j < recs.size(); j++) {
        k->out->set_seq(seq++);
        if (!k->out->Unprotect(recs[j], &inner) || inner.empty() || inner.back() != 23) { ok = false; break; }
        data.insert(data.end(), inner.begin(), inner.end() - 1);
      }
      if (!run.Check(ok && data == all[i].second, "frames", "the records of one call are not in one piece, or do not carry its data")) break;
      if (recs.size() > 1) run.Count("calls of several records beside others");
      all.erase(all.begin() + static_cast<long>(i));
    }
  }
}

// Several threads unprotecting on one frame protector: each record of the peer
// is offered by all of them at the same moment, or each offers another one.
void SharedReceive(Run& run, Rng& rng, size_t round) {
  ref::Aead a = kAeads[round % 3];
  size_t threads = rng.Range(2, 4);
  bool same = rng.Chance(1, 2);
  int overload = static_cast<int>(rng.Below(3));  // list, single, either
  run.Begin("shared receive round %zu: %s, %zu threads, %s record", round, Name(a), threads, same ? "the same" : "its own");
  auto k = MakeFp(rng, a);
  if (!run.Check(k->f != nullptr, "create", "no frame protector")) return;
  S2AFrameProtector* f = k->f.get();
  // A part of a ticket may be pending.
  Bytes ticket = Msg(4, rng.Data(1 + rng.Below(60)));
  size_t part = rng.Chance(1, 2) ? rng.Range(1, ticket.size() - 1) : 0;
  if (part) {
    Bytes rec = k->in->Protect(22, Bytes(ticket.begin(), ticket.begin() + static_cast<long>(part)));
    auto r = f->Unprotect({{rec.data(), rec.size()}});
    run.Check(r.status.ok(), "shared", "a part of a ticket was refused");
    Take(r);
  }
  struct Offer { Bytes rec, want; bool ok = false; Bytes got; };
  std::vector<Offer> offers(threads);
  for (size_t t = 0; t < threads; t++) {
    if (same && t) { offers[t] = offers[0]; continue; }
    Offer& o = offers[t];
    if (part && t == 0) { o.rec = k->in->Protect(22, Bytes(ticket.begin() + static_cast<long>(part), ticket.end())); continue; }
    switch (rng.Below(4)) {
      case 0: o.rec = k->in->Protect(22, Msg(4, rng.Data(1 + rng.Below(60)))); break;
      case 1: if (same) { o.rec = k->in->Protect(22, Msg(24, {0})); k->in->KeyUpdate(); break; }  // fallthrough
      default: o.want = rng.Data(1 + rng.Below(300)); o.rec = k->in->Protect(23, o.want, rng.Below(5)); break;
    }
  }
  Team team(rng);
  for (size_t t = 0; t < threads; t++) team.Add([&, t](Note& o, Rng& r) {
    Offer& x = offers[t];
    if (r.Chance(1, 3)) sched_yield();
    o.Ev(1);
    if (overload == 0 || (overload == 2 && r.Chance(1, 2))) {
      auto s = f->Unprotect({{x.rec.data(), x.rec.size()}});
      x.ok = s.status.ok();
      x.got = Take(s);
    } else {
      x.got.resize(x.rec.size());
      Iovec dst{x.got.data(), x.got.size()};
      x.ok = f->Unprotect({{x.rec.data(), x.rec.size()}}, dst).ok();
      x.got.resize(x.ok ? std::min(dst.iov_len, x.got.size()) : 0);
    }
    o.Ev(2);
    o.counts["records offered by several threads at once"]++;
  });
  team.Go(run, "shared");
  size_t accepted = 0;
  for (auto& x : offers) {
    accepted += x.ok;
    run.Check(x.got == (x.ok ? x.want : Bytes()), "shared", "a concurrent call to Unprotect delivered %zu bytes, the record holds %zu", x.got.size(), x.want.size());
  }
  if (same) run.Check(accepted == 1, "shared", "%zu of %zu threads had the same record accepted", accepted, threads);
  run.Count("records accepted from several threads", accepted);
}

// Several threads driving one proxy.
void SharedHandshake(Run& run, Rng& rng, size_t round) {
  Config c = RandomConfig(rng);
  while (c.client && SetOf(c.locals).size() > 1) c.locals.pop_back();
  size_t threads = rng.Range(2, 4);
  run.Begin("shared proxy round %zu: %s, %zu threads", round, c.client ? "client" : "server", threads);
  auto tokens = std::make_shared<Tokens>();
  auto proxy = MakeProxy(c, tokens);
  if (!run.Check(proxy != nullptr, "create", "no proxy")) return;
  struct Call { std::string in, out; bool ok = false; };
  std::vector<std::vector<Call>> calls(threads);
  std::vector<Resp> results(threads);
  std::vector<int> result_ok(threads, 0);
  bool finish = rng.Chance(1, 2);
  Team team(rng);
  for (size_t t = 0; t < threads; t++) team.Add([&, t](Note& o, Rng& r) {
    for (int i = 0; i < 4; i++) {
      if (i == 0 || r.Chance(1, 2)) {
        Call x;
        // A client starts without bytes, and goes on with some.
        if (!c.client || (i && r.Chance(2, 3))) x.in = Fmt("in%zu-%d", t, i);
        o.Ev(1);
        auto s = proxy->GetBytesForS2A(x.in.empty() ? nullptr : Buf(x.in));
        x.ok = s.status.ok();
        if (x.ok && s.buffer) x.out = Str(*s.buffer);
        calls[t].push_back(x);
      } else {
        Resp resp;
        resp.frames = Fmt("frames%zu-%d", t, i) + Str(r.Data(r.Below(30)));
        o.Ev(2);
        auto s = proxy->GetBytesForPeer(Buf(resp.Encode(&r)));
        if (!s.status.ok() || !s.buffer || Str(*s.buffer) != resp.frames) o.Bad("frames not forwarded to the thread that delivered the response");
      }
    }
    if (finish) {
      results[t] = GoodResult(r);
      results[t].protocol = Fmt("protocol-%zu", t);
      o.Ev(3);
      auto s = proxy->GetBytesForPeer(Buf(results[t].Encode(&r)));
      result_ok[t] = s.status.ok();
      if (!s.status.ok()) o.Bad("a valid result was refused: " + std::string(s.status.message()));
      if (!proxy->IsHandshakeFinished()) o.Bad("not finished after a valid result");
    }
  });
  team.Go(run, "shared proxy");
  size_t starts = 0;
  for (auto& v : calls)
    for (auto& x : v) {
      if (!x.ok) { run.Check(c.client, "shared proxy", "a server's call with bytes was refused"); continue; }
      pb::R m(x.out);
      if (m.Has(1) || m.Has(2)) {
        starts++;
        CheckStart(run, c, x.out, x.in);
      } else {
        pb::R n(m.S(3));
        run.Check(m.ok && m.Has(3) && n.ok && n.S(1) == x.in && !x.in.empty(), "shared proxy", "a next request does not carry the calling thread's bytes");
      }
    }
  run.Check(starts == 1, "shared proxy", "%zu start requests", starts);
  run.Check(proxy->IsHandshakeFinished() == finish, "shared proxy", "finished state wrong");
  if (finish) {
    auto cx = proxy->GetS2AContext();
    size_t fits = 0;
    if (cx.index() == 1)
      for (auto& r : results) fits += absl::get<1>(cx)->ApplicationProtocol() == r.protocol;
    run.Check(fits == 1, "shared proxy", "the context is not that of one of the results");
  }
  run.Count("calls of several threads on one proxy", threads * 4);
}

// Polling a proxy while another thread drives its handshake.
void Poll(Run& run, Rng& rng, size_t round) {
  Config c = RandomConfig(rng);
  while (c.client && SetOf(c.locals).size() > 1) c.locals.pop_back();
  run.Begin("proxy round %zu: %s", round, c.client ? "client" : "server");
  auto tokens = std::make_shared<Tokens>();
  auto proxy = MakeProxy(c, tokens);
  if (!run.Check(proxy != nullptr, "create", "no proxy")) return;
  std::atomic<bool> may{false}, done{false};
  Team team(rng);
  int steps = static_cast<int>(rng.Range(1, 6));
  team.Add([&](Note& o, Rng& r) {
    o.Ev(1);
    if (!proxy->GetBytesForS2A(c.client ? nullptr : Buf("hello")).status.ok()) o.Bad("start refused");
    for (int i = 0; i < steps; i++) {
      Resp resp;
      resp.frames = Str(r.Data(r.Below(60)));
      o.Ev(2);
      auto s = proxy->GetBytesForPeer(Buf(resp.Encode(&r)));
      if (!s.status.ok() || Str(*s.buffer) != resp.frames) o.Bad("frames not forwarded");
      o.Ev(3);
      if (!proxy->GetBytesForS2A(Buf("next")).status.ok()) o.Bad("next refused");
    }
    Resp last = GoodResult(r);
    may.store(true, std::memory_order_relaxed);
    o.Ev(4);
    if (!proxy->GetBytesForPeer(Buf(last.Encode(&r))).status.ok()) o.Bad("result refused");
    done.store(true, std::memory_order_relaxed);
  });
  for (int p = 0; p < 2; p++) team.Add([&](Note& o, Rng&) {
    bool seen = false;
    for (int i = 0; i < 2000; i++) {
      o.Ev(5);
      bool stop = done.load(std::memory_order_relaxed);
      bool f = proxy->IsHandshakeFinished();
      if (f && !may.load(std::memory_order_relaxed)) o.Bad("finished before any result was delivered");
      if (seen && !f) o.Bad("finished, then not finished");
      seen = f;
      o.counts["polls"]++;
      if (stop) break;
      sched_yield();
    }
  });
  team.Go(run, "poll");
  run.Check(proxy->IsHandshakeFinished(), "poll", "not finished after a valid result");
  auto fp = proxy->CreateFrameProtector();
  run.Check(fp.ok() && *fp != nullptr, "poll", "no frame protector afterwards");
}

// ------------------------------------------------------------------- C29
std::unique_ptr<S2AAeadCrypter> Aead(ref::Aead a, const Bytes& key) {
  auto v = a == ref::Aead::kChachaPoly ? s2a::aead_crypter::CreateChachaPolyAeadCrypter(key) : s2a::aead_crypter::CreateAesGcmAeadCrypter(key);
  return v.index() == 1 ? std::move(absl::get<1>(v)) : nullptr;
}
void TaskAead(Note& o, Rng& r) {
  ref::Aead a = kAeads[r.Below(3)];
  Bytes key = r.Data(ref::KeySize(a));
  auto c = Aead(a, key);
  if (!c) { o.Bad("crypter creation failed"); return; }
  ref::Sealer s(a, key);
  for (int i = 0; i < 4; i++) {
    Bytes nonce = r.Data(12), aad = r.Data(r.Below(40)), pt = r.Data(r.Chance(1, 8) ? r.Below(5000) : r.Below(200));
    Bytes want = s.Seal(nonce, aad, pt), out(want.size()), back(pt.size() + 16);
    size_t cut = r.Below(pt.size() + 1);
    auto e = c->Encrypt(nonce, {{aad.data(), aad.size()}}, {{pt.data(), cut}, {pt.data() + cut, pt.size() - cut}}, {out.data(), out.size()});
    if (!e.GetStatus().ok() || out != want) o.Bad("encryption differs from the standard");
    cut = r.Below(want.size() + 1);
    bool tamper = r.Chance(1, 3);
    Bytes ct = want;
    if (tamper) ct[r.Below(ct.size())] ^= 0x40;
    auto d = c->Decrypt(nonce, {{aad.data(), aad.size()}}, {{ct.data(), cut}, {ct.data() + cut, ct.size() - cut}}, {back.data(), back.size()});
    if (d.GetStatus().ok() == tamper) o.Bad(tamper ? "a forgery was accepted" : "an authentic message was refused");
    if (!tamper && (d.GetBytesWritten() != pt.size() || !std::equal(pt.begin(), pt.end(), back.begin()))) o.Bad("decryption differs");
    o.counts["AEAD operations"] += 2;
  }
}
void TaskHkdf(Note& o, Rng& r) {
  bool s384 = r.Chance(1, 2);
  ref::Hash h = s384 ? ref::Hash::kSha384 : ref::Hash::kSha256;
  Bytes prk = r.Data(ref::DigestSize(h) + r.Below(20)), info = r.Data(r.Below(60)), out(1 + r.Below(300));
  auto st = s2a::hkdf::HkdfDeriveSecret(s384 ? s2a::hkdf::HashFunction::SHA384_hash_function : s2a::hkdf::HashFunction::SHA256_hash_function, prk, info, out);
  if (!st.ok() || out != ref::HkdfExpand(h, prk, info, out.size())) o.Bad("HKDF differs from RFC 5869");
  o.counts["derivations"]++;
}
void TaskErrors(Note& o, Rng& r) {
  s2a::aead_crypter::GetSSLErrors();
  int n = static_cast<int>(r.Below(4));
#ifdef OPENSSL_IS_BORINGSSL
  for (int i = 0; i < n; i++) ERR_put_error(ERR_LIB_EVP, 0, 100 + static_cast<int>(r.Below(20)), __FILE__, __LINE__);
#else
  for (int i = 0; i < n; i++) ERR_put_error(ERR_LIB_EVP, 0, 100 + static_cast<int>(r.Below(60)), __FILE__, __LINE__);
#endif
  sched_yield();
  // Errors of other threads must be neither seen nor removed.
  std::string s = s2a::aead_crypter::GetSSLErrors();
  int got = 0;
  for (size_t at = 0; (at = s.find(":error:", at)) != std::string::npos; at++) got++;
  if ((n == 0) != s.empty()) o.Bad(Fmt("%d errors queued on this thread, but the text is <%s>", n, s.substr(0, 200).c_str()));
  if (got != n) o.Bad(Fmt("%d errors queued on this thread, %d reported", n, got));
  if (ERR_peek_error() != 0) o.Bad("the error queue was not emptied");
  o.counts["error drains"]++;
}
void TaskCrypter(Note& o, Rng& r) {
  ref::Aead a = kAeads[r.Below(3)];
  Conn k = Make(r, a, r.Below(4), r.Below(4));
  if (!k.c) { o.Bad("no crypter"); return; }
  for (int i = 0; i < 6; i++) {
    Bytes d = r.Data(r.Below(300));
    if (Protect(k.c.get(), S2ACrypter::RecordType::APPLICATION_DATA, d, o) != k.out->Protect(23, d)) o.Bad("a record sent differs from RFC 8446");
    if (r.Chance(1, 4)) { if (!k.c->UpdateOutboundKey().ok()) o.Bad("key update failed"); k.out->KeyUpdate(); }
  }
  Receive(k.c.get(), PeerStream(r, k.in.get(), 8, 300), o, r);
}
void TaskFrames(Note& o, Rng& r) {
  auto k = MakeFp(r, kAeads[r.Below(3)]);
  if (!k->f) { o.Bad("no frame protector"); return; }
  for (int i = 0; i < 3; i++) {
    Bytes d = r.Data(r.Chance(1, 5) ? r.Below(40000) : r.Below(300)), inner, got;
    auto res = k->f->Protect({{d.data(), d.size()}});
    if (!res.status.ok()) o.Bad("protecting failed");
    for (auto& rec : Records(Take(res))) {
      if (!k->out->Unprotect(rec, &inner) || inner.empty()) { o.Bad("a protected record is not authentic"); return; }
      got.insert(got.end(), inner.begin(), inner.end() - 1);
    }
    if (got != d) o.Bad("protected data differs");
  }
  FpReceive(k->f.get(), PeerStream(r, k->in.get(), 8, 300), o, r);
}
void TaskHandler(Note& o, Rng& r) {
  HandshakeMessageHandler h;
  std::vector<std::string> want;
  Bytes stream;
  for (size_t n = r.Range(1, 5); n; n--) { Bytes m = Msg(4, r.Data(1 + r.Below(300))); want.push_back(Str(m)); stream = Cat(stream, m); }
  size_t at = 0;
  for (size_t n : r.Split(stream.size(), 6, false)) {
    Bytes piece(stream.begin() + static_cast<long>(at), stream.begin() + static_cast<long>(at + n));
    auto v = h.ProcessHandshakeMessage(piece.data(), piece.size());
    if (v.index() != 1) { o.Bad("an authentic handshake message was refused"); return; }
    at += n;
  }
  auto t = h.GetStoredTickets();
  std::vector<std::string> got;
  if (t.index() == 1)
    for (auto& m : *absl::get<1>(t)) {
      std::string one;
      for (auto& part : *m) one += Str(*part);
      got.push_back(one);
    }
  if (got != want) o.Bad("the tickets differ");
  o.counts["ticket collections"]++;
}
void TaskProxy(Note& o, Rng& r) {
  Config c = RandomConfig(r);
  if (c.client) while (SetOf(c.locals).size() > 1) c.locals.pop_back();
  auto tokens = std::make_shared<Tokens>();
  for (auto& i : c.locals) tokens->token[i] = Fmt("token-%llx", static_cast<unsigned long long>(r.U64()));
  auto proxy = MakeProxy(c, tokens);
  if (!proxy) { o.Bad("no proxy"); return; }
  auto s = proxy->GetBytesForS2A(c.client ? nullptr : Buf("hello"));
  if (!s.status.ok() || !s.buffer) { o.Bad("start refused"); return; }
  pb::R req(Str(*s.buffer));
  pb::R st(req.S(c.client ? 1 : 2));
  if (!req.ok || !st.ok || st.All(1) != std::vector<std::string>{c.protocol}) o.Bad("the start request is not the configured one");
  for (auto& a : req.All(5)) {
    pb::R m(a);
    Id id = m.Has(1) ? ReadId(m.S(1)) : Id{0, ""};
    std::string want = id.kind ? tokens->token[id] : tokens->dflt;
    if (m.S(2) != want) o.Bad("a token of another identity");
  }
  ref::Aead a;
  Resp resp = GoodResult(r, &a);
  auto p = proxy->GetBytesForPeer(Buf(resp.Encode(&r)));
  if (!p.status.ok() || !p.buffer || Str(*p.buffer) != resp.frames) { o.Bad("the result was refused or frames differ"); return; }
  auto fp = proxy->CreateFrameProtector();
  if (!fp.ok()) { o.Bad("no frame protector"); return; }
  Bytes d = r.Data(r.Below(100)), inner;
  auto res = (*fp)->Protect({{d.data(), d.size()}});
  ref::Tls13Half out(a, Bytes(resp.out_key.begin(), resp.out_key.end()), resp.out_seq);
  if (!res.status.ok() || !out.Unprotect(Take(res), &inner)) o.Bad("the session does not use the negotiated parameters");
  auto cx = proxy->GetS2AContext();
  if (cx.index() != 1 || absl::get<1>(cx)->ApplicationProtocol() != resp.protocol || absl::get<1>(cx)->PeerCertFingerprint() != resp.peer_fp) { o.Bad("the context differs"); return; }
  auto ser = absl::get<1>(cx)->GetSerializedContext();
  if (ser.index() != 1) { o.Bad("serialization failed"); return; }
  auto back = s2a::s2a_context::GetS2AContextFromSerializedContext(absl::get<1>(ser)->data(), absl::get<1>(ser)->size());
  if (!back.ok() || (*back)->PeerCertFingerprint() != resp.peer_fp) o.Bad("the context does not survive serialization");
  o.counts["handshakes"]++;
}
void TaskTickets(Note& o, Rng& r) {
  upb::Arena arena;
  s2a_proto_SessionReq* req = s2a_proto_SessionReq_new(arena.ptr());
  std::unique_ptr<std::vector<std::unique_ptr<std::string>>> t(new std::vector<std::unique_ptr<std::string>>);
  std::vector<std::string> want;
  for (size_t n = r.Range(1, 4); n; n--) { want.push_back(Str(r.Data(r.Below(80)))); t->emplace_back(new std::string(want.back())); }
  Identity id = Identity::FromSpiffeId(Fmt("spiffe-%llx", static_cast<unsigned long long>(r.U64())));
  if (!s2a::s2a_ticket_sender::PrepareResumptionTicketReq(7, id, t, arena.ptr(), req)) { o.Bad("resumption request refused"); return; }
  size_t len = 0;
  char* p = s2a_proto_SessionReq_serialize(req, arena.ptr(), &len);
  pb::R q(std::string(p, len));
  pb::R m(q.S(4));
  if (m.All(1) != want || ReadId(m.S(3)).text != id.GetIdentityString()) o.Bad("the resumption request differs");
  o.counts["resumption requests"]++;
}
typedef void (*Task)(Note&, Rng&);
const Task kTasks[] = {TaskAead, TaskHkdf, TaskErrors, TaskCrypter, TaskFrames, TaskHandler, TaskProxy, TaskTickets};
const char* const kNames[] = {"aead", "hkdf", "errors", "crypter", "frames", "handler", "proxy", "tickets"};
void Distinct(Run& run) {
  Rng rng(run.seed() * 29);
  size_t rounds = run.N(1500, 40000);
  for (size_t round = 0; round < rounds && !run.TooMany(); round++) {
    size_t threads = rng.Range(2, 6);
    // Same task everywhere, so that shared scratch state collides, or a mix.
    int only = round % 2 ? static_cast<int>(rng.Below(8)) : -1;
    run.Begin("distinct round %zu: %zu threads, %s", round, threads, only < 0 ? "mixed" : kNames[only]);
    S2AOptions shared;
    shared.set_s2a_address("shared");
    for (int i = 0; i < 8; i++) { shared.add_local_hostname(Fmt("host%d", i)); shared.add_target_spiffe_id(Fmt("t%d", i)); shared.add_supported_ciphersuite(static_cast<Suite>(i % 3)); }
    const S2AOptions& read_only = shared;
    Team team(rng);
    for (size_t t = 0; t < threads; t++) team.Add([&, t](Note& o, Rng& r) {
      for (int i = 0; i < 6 && o.bad.empty(); i++) {
        size_t k = only < 0 ? r.Below(8) : static_cast<size_t>(only);
        o.Ev(static_cast<int>(k));
        kTasks[k](o, r);
        // Reading and copying one options object from several threads.
        auto copy = read_only.Copy();
        copy->add_local_hostname(Fmt("mine%zu", t));
        if (copy->local_identities().size() != 9 || copy->supported_ciphersuites().size() != 8 || copy->s2a_address() != "shared") o.Bad("a concurrent copy of options differs");
      }
    });
    team.Go(run, "distinct");
    run.Check(shared.local_identities().size() == 8, "distinct", "copies changed the shared options");
    if (round < 4) run.Sample(Fmt("%zu threads, %s", threads, only < 0 ? "mixed tasks" : kNames[only]));
  }
}
}  // namespace

int Workload(Run& run) {
  const std::string& p = run.property();
  wrapmu::SeedThread(run.seed());
  wrapmu::SetDelay(true);
  wrapssl::SetDelay(true);
  if (p == "C19") {
    run.Rule("an evaluation is one round of concurrent use of one object; distinct_nontrivial counts distinct observed interleavings of the threads' operations (by time stamp) with more than one thread switch");
    Rng rng(run.seed() * 19);
    size_t rounds = run.N(3200, 80000);
    void (*const kinds[])(Run&, Rng&, size_t) = {Duplex, ManySenders, Half, Frames, Poll, SharedReceive, SharedHandshake};
    for (size_t i = 0; i < rounds && !run.TooMany(); i++) {
      kinds[i % 7](run, rng, i / 7);
      if (i < 7) run.Sample(Fmt("round kind %zu", i % 7));
    }
  } else if (p == "C29") {
    run.Rule("an evaluation is one round in which several threads each use objects of their own; distinct_nontrivial counts distinct observed interleavings of the threads' tasks with more than one thread switch");
    Distinct(run);
  } else {
    fprintf(stderr, "unknown property %s\n", p.c_str());
    return 3;
  }
  return 0;
}
