// Frame protector: C16 (round trip, sizes), C17 (buffer ownership), C18
// (malformed and partial input).
#include <openssl/err.h>

#include <functional>

#include <sys/mman.h>
#include "conn.h"
#include "include/s2a_frame_protector.h"
#include "wrap_ssl.h"

using namespace conn;
using s2a::frame_protector::S2AFrameProtector;
using vh::Fmt;
using vh::Guard;
using vh::Rng;
using vh::Run;

namespace {

// Records what the frame protector does with the caller's allocator.
struct Pool {
  std::map<void*, std::unique_ptr<Guard>> live;
  std::set<void*> released;
  long fail_at = 0, calls = 0, nulls = 0, null_frees = 0;
  long short_at = 0;    // the allocation that gives a buffer
  size_t short_by = 0;  // so much smaller than asked for
  bool shorted = false;
  std::vector<size_t> asked;
  std::string bad;
  unsigned salt = 0;
  Iovec Alloc(size_t n) {
    calls++;
    asked.push_back(n);
    if (fail_at && calls == fail_at) { nulls++; return {nullptr, 0}; }
    if (short_at && calls == short_at && short_by <= n) { n -= short_by; shorted = true; }
    std::unique_ptr<Guard> g(new Guard(n, (salt++ & 1) == 0));
    g->Fill(0xC3);
    void* p = g->data();
    // Two empty buffers can share an address only if the old one is gone.
    released.erase(p);
    live[p] = std::move(g);
    return {p, n};
  }
  void Free(Iovec v) {
    if (v.iov_base == nullptr) {
      if (++null_frees > nulls) bad = "a null buffer that was never handed out was released";
      return;
    }
    auto it = live.find(v.iov_base);
    if (it == live.end()) { bad = released.count(v.iov_base) ? "a buffer was released twice" : "a buffer that is not from the allocator was released"; return; }
    if (!it->second->CanaryOk()) bad = "a buffer was overrun";
    released.insert(v.iov_base);
    live.erase(it);
  }
  void Clear() { live.clear(); released.clear(); asked.clear(); fail_at = calls = nulls = null_frees = short_at = 0; short_by = 0; shorted = false; bad.clear(); }
};

struct Fp {
  ref::Aead a;
  std::unique_ptr<Pool> pool{new Pool};
  std::unique_ptr<std::string> url{new std::string("s2a")};
  std::unique_ptr<Identity> ident{new Identity(Identity::FromHostname("h"))};
  std::unique_ptr<S2AFrameProtector> f;
  std::unique_ptr<ref::Tls13Half> in, out;
};
Fp MakeFp(ref::Aead a, const Bytes& is, const Bytes& os, uint64_t in_seq, uint64_t out_seq) {
  Fp k;
  k.a = a;
  Pool* p = k.pool.get();
  S2AFrameProtector::S2AFrameProtectorOptions o = {TlsVersion::TLS1_3, SuiteOf(a), is, os, in_seq, out_seq, *k.url, *k.ident, 5, nullptr, nullptr,
                                                   [p](size_t n) { return p->Alloc(n); }, [p](Iovec v) { p->Free(v); }, [](const std::string&) {}};
  auto r = S2AFrameProtector::Create(o);
  if (r.ok()) k.f = std::move(*r);
  k.in.reset(new ref::Tls13Half(a, is, in_seq));
  k.out.reset(new ref::Tls13Half(a, os, out_seq));
  return k;
}
Fp MakeFp(Rng& rng, ref::Aead a, uint64_t in_seq = 0, uint64_t out_seq = 0) { return MakeFp(a, rng.Key(SecretSize(a)), rng.Key(SecretSize(a)), in_seq, out_seq); }

size_t PredictProtected(size_t n) { return n + std::max<size_t>(1, (n + kMax - 1) / kMax) * kOverhead; }

size_t Size(Rng& rng, size_t max_records) {
  uint64_t c;
  if (rng.FromCode(kMax * max_records, 6, &c)) return c;
  switch (rng.Below(6)) {
    case 0: return rng.Below(40);
    case 1: return rng.Len(kMax);
    case 2: return kMax * rng.Range(1, max_records);
    case 3: { size_t n = kMax * rng.Range(1, max_records); return n + rng.Below(5) - 2; }
    case 4: return rng.Below(kMax * max_records);
    default: return rng.Len(3000);
  }
}

// Reads a protected stream with the independent peer.
bool PeerRead(ref::Tls13Half* peer, const Bytes& stream, size_t max_record, Bytes* data, size_t* records, std::string* why) {
  size_t off = 0;
  *records = 0;
  while (off < stream.size()) {
    if (stream.size() - off < kHeader) { *why = "cut header"; return false; }
    size_t n = kHeader + (size_t{stream[off + 3]} << 8 | stream[off + 4]);
    if (stream[off] != 23 || stream[off + 1] != 3 || stream[off + 2] != 3 || n > stream.size() - off || n > max_record) { *why = Fmt("bad record of %zu bytes at %zu", n, off); return false; }
    Bytes inner;
    if (!peer->Unprotect(Bytes(stream.begin() + off, stream.begin() + off + n), &inner)) { *why = Fmt("record %zu does not decrypt", *records); return false; }
    while (!inner.empty() && inner.back() == 0) inner.pop_back();
    if (inner.empty() || inner.back() != 23) { *why = "not application data"; return false; }
    data->insert(data->end(), inner.begin(), inner.end() - 1);
    off += n;
    ++*records;
  }
  return true;
}

// Protects, in the given segmentation, through one of the overloads.
void ProtectCase(Run& run, Fp& k, const Bytes& pt, const std::vector<size_t>& split, unsigned salt, bool own_buffer) {
  Pieces p;
  p.Build(pt.data(), split, salt);
  size_t predicted = k.f->NumberBytesToProtect(p.iov), predicted2 = k.f->NumberBytesToProtect(pt.size());
  run.Check(predicted == PredictProtected(pt.size()) && predicted2 == predicted, "predicted-size", "NumberBytesToProtect(%zu) = %zu / %zu", pt.size(), predicted, predicted2);
  Bytes stream;
  k.pool->Clear();
  k.pool->salt = salt;
  if (own_buffer) {
    Guard out(predicted, salt & 1);
    out.Fill(0x5A);
    Iovec v{out.data(), out.size()};
    auto s = k.f->Protect(p.iov, v);
    if (!run.Check(s.ok(), "protect", "failed: %s", std::string(s.message()).c_str())) return;
    run.Check(v.iov_base == out.data() && v.iov_len == predicted && out.CanaryOk() && k.pool->calls == 0, "protect-buffer", "caller's buffer was replaced, resized or overrun");
    stream = out.Get();
  } else {
    auto r = k.f->Protect(p.iov);
    if (!run.Check(r.status.ok(), "protect", "failed: %s", std::string(r.status.message()).c_str())) return;
    for (auto& b : r.bytes) {
      auto it = k.pool->live.find(b.iov_base);
      if (!run.Check(it != k.pool->live.end() && b.iov_len <= it->second->size() && it->second->CanaryOk(), "protect-buffer", "result is not an allocator buffer")) return;
      stream.insert(stream.end(), static_cast<uint8_t*>(b.iov_base), static_cast<uint8_t*>(b.iov_base) + b.iov_len);
    }
    run.Check(r.bytes.size() == k.pool->live.size() && k.pool->bad.empty(), "protect-buffer", "%zu result buffers, %zu live; %s", r.bytes.size(), k.pool->live.size(), k.pool->bad.c_str());
  }
  run.Check(stream.size() == predicted, "protected-size", "%zu bytes protected into %zu, predicted %zu", pt.size(), stream.size(), predicted);
  if (!run.Check(p.Unchanged(pt), "input-altered", "the caller's plaintext was modified")) return;
  Bytes got;
  size_t records = 0;
  std::string why;
  bool ok = PeerRead(k.out.get(), stream, k.f->MaxRecordSize(), &got, &records, &why);
  run.Check(ok && got == pt, "protected-stream", "the peer reads %zu of %zu bytes (%s)", got.size(), pt.size(), why.c_str());
  run.Check(k.f->MaxRecordSize() == kMax + kOverhead, "max-record-size", "%zu", k.f->MaxRecordSize());
  run.Check(!ok || pt.size() || records == 1, "empty-record", "empty input gave %zu records", records);
  run.Count("records_protected", records);
  run.Count("bytes_protected", pt.size());
}

struct UnprotectOut { bool ok; Bytes data; size_t buffers; std::string msg; };
UnprotectOut UnprotectAll(Run& run, Fp& k, const Bytes& stream, const std::vector<size_t>& split, unsigned salt) {
  Pieces p;
  p.Build(stream.data(), split, salt);
  k.pool->Clear();
  k.pool->salt = salt;
  auto r = k.f->Unprotect(p.iov);
  UnprotectOut o;
  o.ok = r.status.ok();
  o.msg = std::string(r.status.message());
  o.buffers = r.bytes.size();
  std::set<void*> seen;
  for (auto& b : r.bytes) {
    auto it = k.pool->live.find(b.iov_base);
    if (it == k.pool->live.end()) { run.Check(b.iov_base == nullptr && b.iov_len == 0, "unprotect-buffer", "a result buffer is not a live allocator buffer"); continue; }
    run.Check(b.iov_len <= it->second->size() && seen.insert(b.iov_base).second, "unprotect-buffer", "result buffer longer than allocated, or twice in the result");
    o.data.insert(o.data.end(), static_cast<uint8_t*>(b.iov_base), static_cast<uint8_t*>(b.iov_base) + std::min(b.iov_len, it->second->size()));
  }
  run.Check(k.pool->bad.empty(), "release", "%s", k.pool->bad.c_str());
  run.Check(k.pool->live.size() == seen.size(), "leak", "%zu buffers allocated and neither returned nor released (status %s)", k.pool->live.size() - seen.size(), o.msg.c_str());
  for (auto& l : k.pool->live) run.Check(l.second->CanaryOk(), "overrun", "an allocated buffer was overrun");
  run.Check(o.ok || r.bytes.empty(), "error-with-data", "an error came with %zu buffers", r.bytes.size());
  run.Check(p.Unchanged(stream), "input-altered", "the caller's input was modified");
  return o;
}
// The overload that unprotects one record into the caller's buffer.
bool UnprotectOne(Run& run, Fp& k, const Bytes& stream, const std::vector<size_t>& split, unsigned salt) {
  Pieces p;
  p.Build(stream.data(), split, salt);
  Guard out(std::max<size_t>(1, stream.size()), salt & 1);
  Iovec v{out.data(), out.size()};
  k.pool->Clear();
  bool ok = k.f->Unprotect(p.iov, v).ok();
  run.Check(p.Unchanged(stream), "input-altered", "the caller's input was modified");
  run.Check(out.CanaryOk() && v.iov_base == out.data() && v.iov_len <= out.size() && k.pool->calls == 0 && k.pool->bad.empty(), "unprotect-buffer", "caller's buffer released, replaced or overrun");
  return ok;
}

// ---------------------------------------------------------------- C16
// A protect or unprotect call that must work.
void HistoryOp(Run& run, Rng& rng, Fp& k, size_t h, size_t i, unsigned& salt) {
  ref::Aead a = k.a;
  if (rng.Chance(1, 2)) {
    size_t n = i == 0 ? 0 : Size(rng, 4);
    auto split = rng.Split(n, 1 + rng.Below(rng.Chance(1, 5) ? 40 : 6));
    bool own = rng.Chance(1, 2);
    run.Begin("%s history %zu op %zu: protect %zu bytes in %s, %s buffer", Name(a), h, i, n, Show(split).c_str(), own ? "caller's" : "allocated");
    ProtectCase(run, k, rng.Content(n), split, salt++, own);
    run.Nontrivial(Fmt("p%d/%zu/%s/%d", static_cast<int>(a), n, Show(split).c_str(), own));
  } else {
    // A stream of records as a peer may send it: any sizes, padding, tickets and key updates in between.
    size_t records = 1 + rng.Below(6);
    Bytes stream, want;
    std::string shape;
    bool single = rng.Chance(1, 3);
    if (single) records = 1;
    for (size_t r = 0; r < records; r++) {
      if (!single && rng.Chance(1, 8)) { stream = Cat(stream, k.in->Protect(22, Msg(24, {static_cast<uint8_t>(rng.Below(2))}))); k.in->KeyUpdate(); shape += "K"; continue; }
      if (!single && rng.Chance(1, 8)) { stream = Cat(stream, k.in->Protect(22, Msg(4, rng.Data(1 + rng.Below(80))))); shape += "T"; continue; }
      size_t n = rng.Chance(1, 8) ? kMax : rng.Chance(1, 8) ? 0 : rng.Len(rng.Chance(1, 3) ? kMax : 300);
      size_t pad = rng.Chance(1, 4) ? rng.Below(std::min<size_t>(kMax - n, 300) + 1) : 0;
      Bytes d = rng.Data(n);
      stream = Cat(stream, k.in->Protect(23, d, pad));
      want = Cat(want, d);
      shape += Fmt("D%zu+%zu", n, pad);
    }
    auto split = rng.Split(stream.size(), 1 + rng.Below(rng.Chance(1, 5) ? 40 : 6));
    run.Begin("%s history %zu op %zu: unprotect %s cut as %s%s", Name(a), h, i, shape.c_str(), Show(split).c_str(), single ? " into a caller's buffer" : "");
    if (single) {
      Pieces p;
      p.Build(stream.data(), split, salt);
      size_t room = k.f->NumberBytesToUnprotect(p.iov);
      run.Check(room == k.f->NumberBytesToUnprotect(stream.size()) && room >= want.size() && room < stream.size(), "predicted-size", "NumberBytesToUnprotect(%zu) = %zu", stream.size(), room);
      Guard out(room, salt & 1);
      out.Fill(0x77);
      Iovec v{out.data(), out.size()};
      k.pool->Clear();
      auto s = k.f->Unprotect(p.iov, v);
      salt++;
      run.Check(s.ok() && v.iov_base == out.data() && v.iov_len == want.size() && out.CanaryOk() && std::equal(want.begin(), want.end(), out.data()), "unprotect",
                "status %s, %zu of %zu bytes", std::string(s.message()).c_str(), v.iov_len, want.size());
      run.Check(k.pool->calls == 0, "unprotect-buffer", "the allocator was used for a caller's buffer");
    } else {
      auto o = UnprotectAll(run, k, stream, split, salt++);
      run.Check(o.ok && o.data == want, "unprotect", "status %s, %zu of %zu bytes", o.msg.c_str(), o.data.size(), want.size());
    }
    run.Count("records_unprotected", records);
    run.Count("bytes_unprotected", want.size());
    run.Nontrivial(Fmt("u%d/%s/%s/%d", static_cast<int>(a), shape.c_str(), Show(split).c_str(), single));
    if (h < 1) run.Sample(Fmt("%s: %s cut as %s", Name(a), shape.c_str(), Show(split).c_str()));
  }
}

void RoundTrip(Run& run) {
  run.Rule("a case is one protect or unprotect call on a connection with a history; the other side is an independent TLS 1.3 peer (or a second frame "
           "protector); distinct by ciphersuite, size, segmentation and overload");
  Rng rng(run.seed() * 17 + 16);
  unsigned salt = 0;
  for (ref::Aead a : kAeads) {
    // The size functions over the whole range.
    Fp z = MakeFp(rng, a);
    if (!run.Check(z.f != nullptr, "create", "frame protector not created")) return;
    for (size_t i = 0; i < run.N(20000, 400000); i++) {
      size_t n = i < 3000 ? i : i < 5000 ? kMax - 1000 + (i - 3000) : i < 8000 ? kMax * (1 + (i - 5000) / 5) + (i % 5) - 2 : rng.Number(16);
      if (i % 1000 == 0) run.Begin("%s size functions near %zu", Name(a), n);
      if (!run.Check(z.f->NumberBytesToProtect(n) == PredictProtected(n), "predicted-size", "NumberBytesToProtect(%zu) = %zu, not %zu", n, z.f->NumberBytesToProtect(n), PredictProtected(n))) break;
      size_t u = z.f->NumberBytesToUnprotect(n);
      if (!run.Check(n < kOverhead ? u == 0 : u >= n - kOverhead && u < n, "predicted-size", "NumberBytesToUnprotect(%zu) = %zu", n, u)) break;
    }
    // Very many buffers; a record (and the list) ends with any of them.
    std::vector<size_t> counts = vh::CodeSizes(1100);
    for (size_t pieces = 1 + static_cast<size_t>(run.round()) % 6; pieces < 1100; pieces += run.scale() > 1 ? 400 : run.N(a == kAeads[0] ? 6 : 60, 6)) counts.push_back(pieces);
    for (size_t twice = 0; twice < counts.size() * 2 && !run.TooMany(); twice++) {
      size_t pieces = counts[twice / 2], over = twice % 2 ? 1 + rng.Below(40) : 0;  // so much of that buffer is in the next record
      if (pieces == 0) continue;
      Fp k = MakeFp(rng, a);
      if (!run.Check(k.f != nullptr, "create", "frame protector not created")) return;
      std::vector<size_t> split(pieces - 1, 1);
      for (auto& s : split) s = rng.Below(3);
      size_t used = 0;
      for (size_t s : split) used += s;
      split.push_back(kMax - used + over);  // the record is full with this buffer
      size_t more = 1 + rng.Below(4), n = kMax + over;
      for (size_t i = 0; i < more; i++) { split.push_back(i == 0 ? 9 : rng.Below(50)); n += split.back(); }
      run.Begin("%s protect %zu bytes in %zu buffers, the record ends %zu bytes before the end of buffer %zu", Name(a), n, split.size(), over, pieces);
      ProtectCase(run, k, rng.Content(n), split, salt++, pieces & 1);
      Bytes d = rng.Data(kMax - 200), stream = k.in->Protect(23, d);
      size_t rest = stream.size();
      std::vector<size_t> cut(pieces - 1, 1);
      for (auto& s : cut) { s = rng.Below(3); rest -= s; }
      cut.push_back(rest + over);
      Bytes e = rng.Data(30), second = k.in->Protect(23, e);
      cut.push_back(second.size() - over);
      run.Begin("%s unprotect 2 records in %zu buffers, the first ends %zu bytes before the end of buffer %zu", Name(a), cut.size(), over, pieces);
      auto o = UnprotectAll(run, k, Cat(stream, second), cut, salt++);
      run.Check(o.ok && o.data == Cat(d, e), "unprotect", "records in %zu buffers are not delivered", cut.size());
      run.Nontrivial(Fmt("many%d/%zu/%d", static_cast<int>(a), pieces, over > 0));
      run.Count("calls_with_many_buffers", 2);
    }
    for (size_t h = 0; h < run.N(60, 900) && !run.TooMany(); h++) {
      Fp k = MakeFp(rng, a, h % 3 ? rng.Number(2) : 0, h % 2 ? rng.Number(2) : 0);
      if (!run.Check(k.f != nullptr, "create", "frame protector not created")) return;
      for (size_t i = 0; i < 14 && !run.TooMany(); i++) {
        HistoryOp(run, rng, k, h, i, salt);
      }
    }
    // Two frame protectors talking to each other, one stream each way.
    for (size_t h = 0; h < run.N(10, 150) && !run.TooMany(); h++) {
      Bytes s1 = rng.Key(SecretSize(a)), s2 = rng.Key(SecretSize(a));
      uint64_t q1 = rng.Number(1), q2 = rng.Number(1);
      Fp x = MakeFp(a, s1, s2, q1, q2), y = MakeFp(a, s2, s1, q2, q1);
      if (!run.Check(x.f && y.f, "create", "frame protector not created")) return;
      for (size_t i = 0; i < 10; i++) {
        Fp& from = rng.Chance(1, 2) ? x : y;
        Fp& to = &from == &x ? y : x;
        size_t calls = 1 + rng.Below(4);
        Bytes stream, want;
        for (size_t j = 0; j < calls; j++) {
          size_t n = Size(rng, 3);
          Bytes d = rng.Data(n);
          from.pool->Clear();
          Pieces p;
          p.Build(d.data(), rng.Split(n, 5), salt++);
          auto r = from.f->Protect(p.iov);
          if (!run.Check(r.status.ok() && r.bytes.size() >= 1, "protect", "failed")) break;
          for (auto& b : r.bytes) stream.insert(stream.end(), static_cast<uint8_t*>(b.iov_base), static_cast<uint8_t*>(b.iov_base) + b.iov_len);
          want = Cat(want, d);
        }
        auto split = rng.Split(stream.size(), 8);
        run.Begin("%s pair %zu op %zu: %zu protect calls, %zu bytes, cut as %s", Name(a), h, i, calls, want.size(), Show(split).c_str());
        auto o = UnprotectAll(run, to, stream, split, salt++);
        run.Check(o.ok && o.data == want, "pair", "status %s, %zu of %zu bytes", o.msg.c_str(), o.data.size(), want.size());
        run.Nontrivial(Fmt("x%d/%zu/%zu/%zu", static_cast<int>(a), h, i, want.size()));
        run.Count("pair_transfers");
      }
    }
  }
}

// A connection's life: calls that work, calls made to fail (C17), malformed
// input (C18), in any order.
void Life(Run& run, Rng& rng, unsigned& salt, size_t number, size_t ops) {
  bool faults = run.property() == "C17";
  ref::Aead a = kAeads[rng.Below(3)];
  Fp k = MakeFp(rng, a, rng.Number(2), rng.Number(2));
  if (!run.Check(k.f != nullptr, "create", "frame protector not created")) return;
  std::string trail;
  bool dead = false;  // the two ends may be out of step
  for (size_t i = 0; i < ops && !run.TooMany() && !(rng.tape() && rng.Dry()); i++) {
    unsigned w = static_cast<unsigned>(rng.Below(faults ? 8 : 10));
    trail += static_cast<char>('a' + w);
    if (trail.size() > 30) trail.erase(0, 10);
    auto cut = [&](size_t n) {
      std::vector<size_t> o;
      for (size_t x : rng.Split(n, 1 + rng.Below(6))) { if (rng.Chance(1, 4)) o.push_back(0); o.push_back(x); }
      return o;
    };
    if (w < 3 && !dead) { HistoryOp(run, rng, k, number, i, salt); continue; }
    run.Begin("%s life %zu, call %zu (so far %s)", Name(a), number, i, trail.c_str());
    // A stream from the peer; the first record of it may be bad.
    size_t records = 1 + rng.Below(3);
    bool single = records == 1 && rng.Chance(1, 2);
    ref::Tls13Half before = *k.in;
    Bytes stream, first, want;
    for (size_t r = 0; r < records; r++) {
      Bytes d = rng.Data(rng.Chance(1, 20) ? rng.Len(kMax) : rng.Len(80)), rec;
      switch (faults ? rng.Below(12) : 11) {
        case 0: rec = k.in->Protect(22, Msg(4, rng.Data(1 + rng.Below(40)))); break;
        case 1: rec = k.in->Protect(21, {1, static_cast<uint8_t>(rng.Below(60))}); break;
        case 2: rec = k.in->Protect(22, Msg(24, {0})); k.in->KeyUpdate(); break;
        case 3: rec = rng.Data(22 + rng.Below(40)); rec[0] = 23; rec[1] = rec[2] = 3; rec[3] = 0; rec[4] = static_cast<uint8_t>(rec.size() - 5); break;
        default: rec = k.in->Protect(23, d, rng.Chance(1, 4) ? rng.Below(std::min<size_t>(20, kMax - d.size() + 1)) : 0); want = Cat(want, d); break;
      }
      if (r == 0) first = rec;
      stream = Cat(stream, rec);
    }
    if (faults) {
      // Whatever fails: no buffer is lost, released twice or kept after an error.
      dead = true;
      Bytes pt = rng.Content(Size(rng, 2));
      bool protect = rng.Chance(1, 2);
      const Bytes& in = protect ? pt : stream;
      Pieces p;
      p.Build(in.data(), cut(in.size()), salt++);
      k.pool->Clear();
      int how = static_cast<int>(rng.Below(4));
      if (how == 0) k.pool->fail_at = static_cast<long>(1 + rng.Below(4));
      if (how == 1) { k.pool->short_at = static_cast<long>(1 + rng.Below(4)); k.pool->short_by = rng.Range(1, 30); }
      if (how == 2) wrapssl::Arm(static_cast<long>(1 + rng.Below(20)), static_cast<int>(rng.Below(3)));
      if (single) {
        size_t room = protect ? PredictProtected(pt.size()) : stream.size(), less = rng.Chance(1, 4) ? rng.Below(std::min<size_t>(room, 30) + 1) : 0;
        Guard out(room - less, salt & 1);
        Iovec v{out.data(), out.size()};
        if (protect) (void)k.f->Protect(p.iov, v); else (void)k.f->Unprotect(p.iov, v);
        wrapssl::Arm(0);
        run.Check(v.iov_base == out.data() && out.CanaryOk() && k.pool->calls == 0 && k.pool->bad.empty(), "unprotect-buffer", "caller's buffer released, replaced or overrun");
      } else {
        auto r = protect ? k.f->Protect(p.iov) : k.f->Unprotect(p.iov);
        wrapssl::Arm(0);
        size_t kept = 0;
        std::set<void*> seen;
        for (auto& b : r.bytes) if (k.pool->live.count(b.iov_base) && seen.insert(b.iov_base).second) kept++;
        run.Check(k.pool->bad.empty(), "release", "%s", k.pool->bad.c_str());
        run.Check(kept == k.pool->live.size() && (r.status.ok() || r.bytes.empty()), "leak", "%zu buffers returned (%zu of the allocator), %zu live, status %s", r.bytes.size(), kept, k.pool->live.size(), std::string(r.status.message()).c_str());
        for (auto& l : k.pool->live) run.Check(l.second->CanaryOk(), "overrun", "an allocated buffer was overrun");
        run.Count(r.status.ok() ? "life_calls" : "life_failures");
      }
      ERR_clear_error();
      run.Nontrivial(Fmt("life%d/%s/%d%d%d", static_cast<int>(a), trail.c_str(), protect, how, single));
      continue;
    }
    Bytes m = stream;
    bool undisturbed = true;
    switch (w) {
      case 3: case 4: undisturbed = false; break;                                     // good, with empty buffers
      case 5: m.resize(rng.Below(first.size())); break;                                // cut in the first record
      case 6: { size_t n = first.size() - kHeader, more = rng.Range(1, 0x3fff); n += m.size() - first.size() + more; if (n > 0xffff) n = 0xffff; m[3] = static_cast<uint8_t>(n >> 8); m[4] = static_cast<uint8_t>(n); break; }  // the header says more than there is
      case 7: m[kHeader + rng.Below(first.size() - kHeader)] ^= static_cast<uint8_t>(1 << rng.Below(8)); undisturbed = false; break;
      case 8: m.insert(m.end(), 1 + rng.Below(60), static_cast<uint8_t>(rng.Below(2) * 23)); undisturbed = false; break;  // something behind the last record
      default: m = rng.Data(rng.Below(kOverhead)); break;                              // too short for a record
    }
    bool good = w < 5, ok;
    if (single) {
      Pieces p;
      p.Build(m.data(), cut(m.size()), salt++);
      Guard out(std::max<size_t>(1, m.size()), salt & 1);
      Iovec v{out.data(), out.size()};
      ok = k.f->Unprotect(p.iov, v).ok();
      run.Check(out.CanaryOk() && v.iov_base == out.data() && v.iov_len <= out.size(), "unprotect-buffer", "caller's buffer replaced or overrun");
      run.Check(!ok || !good || (v.iov_len == want.size() && std::equal(want.begin(), want.end(), out.data())), "unprotect", "wrong data");
    } else {
      auto o = UnprotectAll(run, k, m, cut(m.size()), salt++);
      ok = o.ok;
      run.Check(!ok || !good || o.data == want, "unprotect", "%zu of %zu bytes", o.data.size(), want.size());
    }
    run.Check(ok == good, good ? "whole-refused" : "malformed-accepted", "%s (kind %u%s)", good ? "a good stream was refused" : "a malformed stream was accepted", w, single ? ", as one record" : "");
    run.Count(good ? "life_good" : "life_malformed");
    run.Nontrivial(Fmt("life%d/%s/%d%zu", static_cast<int>(a), trail.c_str(), single, records));
    if (good) continue;
    if (!undisturbed) return;
    *k.in = before;  // nothing was used up
  }
}

// ---------------------------------------------------------------- C17
void Ownership(Run& run) {
  run.Rule("a case is one protect or unprotect call, most of them made to fail (SSL fault at each call, allocation failure at each allocation, bad record at each "
           "position, alerts, short buffers); the allocator log must balance; distinct by call kind and failure");
  Rng rng(run.seed() * 17 + 17);
  unsigned salt = 0;
  for (ref::Aead a : kAeads) {
    // Protect: every SSL call failing, every allocation failing.
    for (size_t n : {size_t{0}, size_t{1}, size_t{100}, kMax, kMax + 1, 2 * kMax, 2 * kMax + 77}) {
      for (int forever = 0; forever < 3; forever++) {
        long calls = 1;
        for (long f = 0; f <= calls && f < 80 && !run.TooMany(); f++) {
          for (int own = 0; own < 2; own++) {
            Fp k = MakeFp(rng, a);
            if (!run.Check(k.f != nullptr, "create", "frame protector not created")) return;
            run.Begin("%s protect %zu bytes, SSL call %ld fails%s, %s buffer", Name(a), n, f, forever == 1 ? " from then on" : forever ? " late" : "", own ? "caller's" : "allocated");
            Bytes pt = rng.Data(n);
            Pieces p;
            p.Build(pt.data(), rng.Split(n, 4), salt++);
            Guard out(PredictProtected(n), salt & 1);
            out.Fill(0x5A);
            Iovec v{out.data(), out.size()};
            k.pool->Clear();
            wrapssl::Arm(f, forever);
            bool ok;
            std::vector<Iovec> got;
            if (own) ok = k.f->Protect(p.iov, v).ok();
            else { auto r = k.f->Protect(p.iov); ok = r.status.ok(); got = r.bytes; }
            if (f == 0) calls = wrapssl::Calls();
            bool fired = wrapssl::Fired() > 0;
            wrapssl::Arm(0);
            ERR_clear_error();
            run.Check(ok || fired, "protect", "failed without a fault");
            run.Check(k.pool->bad.empty(), "release", "%s", k.pool->bad.c_str());
            size_t kept = 0;
            for (auto& b : got) kept += k.pool->live.count(b.iov_base);
            run.Check(kept == got.size() && kept == k.pool->live.size() && (ok || got.empty()), "leak", "%zu buffers returned, %zu live", got.size(), k.pool->live.size());
            run.Check(!own || out.CanaryOk(), "overrun", "caller's buffer overrun");
            if (!ok) run.Count("protect_failures");
            run.Nontrivial(Fmt("pf%d/%zu/%ld/%d/%d", static_cast<int>(a), n, f, own, forever));
          }
        }
      }
      for (int own = 0; own < 3; own++)
        for (size_t shrt = 1; shrt < 60 && shrt <= PredictProtected(n); shrt += 1 + shrt / 4) {
          // A caller's buffer that is too small, or an allocator that returns nothing.
          Fp k = MakeFp(rng, a);
          run.Begin("%s protect %zu bytes, %s", Name(a), n, own ? Fmt("%s buffer %zu bytes short", own == 1 ? "caller's" : "allocated", shrt).c_str() : "allocation fails");
          Bytes pt = rng.Data(n);
          Pieces p;
          p.Build(pt.data(), rng.Split(n, 4), salt++);
          k.pool->Clear();
          bool ok;
          if (own == 2) {
            k.pool->short_at = 1;
            k.pool->short_by = shrt;
            ok = k.f->Protect(p.iov).status.ok();
          } else if (own) {
            Guard out(PredictProtected(n) - shrt, salt & 1);
            Iovec v{out.data(), out.size()};
            ok = k.f->Protect(p.iov, v).ok();
            run.Check(out.CanaryOk(), "overrun", "caller's buffer overrun");
          } else {
            k.pool->fail_at = 1;
            ok = k.f->Protect(p.iov).status.ok();
          }
          run.Check(!ok, "short-buffer", "protect succeeded without room");
          run.Check(k.pool->bad.empty() && k.pool->live.empty(), "release", "%s, %zu live", k.pool->bad.c_str(), k.pool->live.size());
          run.Nontrivial(Fmt("ps%d/%zu/%zu/%d", static_cast<int>(a), n, shrt, own));
          if (!own) break;
        }
    }
    // Unprotect: `good` good records, then a failing one of each kind, then more.
    for (size_t good = 0; good < 4; good++)
      for (int kind = 0; kind < 14 && !run.TooMany(); kind++)
        for (size_t after = 0; after < 2; after++) {
          Fp k = MakeFp(rng, a);
          if (!run.Check(k.f != nullptr, "create", "frame protector not created")) return;
          Bytes stream, want;
          for (size_t i = 0; i < good; i++) { Bytes d = rng.Data(rng.Len(200)); stream = Cat(stream, k.in->Protect(23, d)); want = Cat(want, d); }
          Bytes rec = k.in->Protect(23, rng.Data(20));
          const char* name = "";
          switch (kind) {
            case 0: name = "altered tag"; rec.back() ^= 1; break;
            case 1: name = "altered body"; rec[8] ^= 0x40; break;
            case 2: name = "wrong type byte in header"; rec[0] = 22; break;
            case 3: name = "wrong version"; rec[2] = 1; break;
            case 4: name = "length too long"; rec[4] += 1; break;
            case 5: name = "length too short"; rec[4] -= 1; break;
            case 6: name = "alert"; rec = k.in->Protect(21, {2, 40}); break;
            case 7: name = "close_notify"; rec = k.in->Protect(21, {1, 0}); break;
            case 8: name = "unknown content type"; rec = k.in->Protect(99, rng.Data(4)); break;
            case 9: name = "bad handshake message"; rec = k.in->Protect(22, Msg(1, rng.Data(9))); break;
            case 10: name = "cut record"; rec.resize(5 + rng.Below(rec.size() - 5)); break;
            case 11: name = "cut header"; rec.resize(1 + rng.Below(4)); break;
            case 12: name = "record of nothing"; rec = {23, 3, 3, 0, 0}; break;
            case 13: name = "oversized record"; { Bytes inner = rng.Data(kMax + 2); inner.back() = 23; rec = k.in->ProtectInner(inner); } break;
          }
          stream = Cat(stream, rec);
          for (size_t i = 0; i < after; i++) stream = Cat(stream, k.in->Protect(23, rng.Data(30)));
          auto split = rng.Split(stream.size(), 5);
          run.Begin("%s unprotect %zu good records, then %s, then %zu more", Name(a), good, name, after);
          auto o = UnprotectAll(run, k, stream, split, salt++);
          run.Check(!o.ok, "bad-accepted", "%s was accepted", name);
          run.Count(std::string("unprotect_") + name);
          run.Nontrivial(Fmt("u%d/%zu/%d/%zu", static_cast<int>(a), good, kind, after));
          // Once more on the same connection, with a caller's buffer.
          Guard out(rec.size() + 10, salt & 1);
          out.Fill(0x77);
          Iovec v{out.data(), out.size()};
          Pieces p;
          p.Build(rec.data(), rng.Split(rec.size(), 3), salt++);
          k.pool->Clear();
          k.f->Unprotect(p.iov, v);
          run.Check(v.iov_base == out.data() && v.iov_len <= out.size() && out.CanaryOk() && k.pool->calls == 0 && k.pool->bad.empty(), "unprotect-buffer", "caller's buffer released, replaced or overrun");
        }
    // Unprotect: SSL faults and allocation failures at every point of a stream of three records.
    for (int mode = 0; mode < 5; mode++) {
      long calls = 1;
      for (long f = 0; f <= calls && f < 120 && !run.TooMany(); f++) {
        Fp k = MakeFp(rng, a);
        Bytes stream, want;
        for (size_t i = 0; i < 3; i++) { Bytes d = rng.Data(10 + rng.Len(90)); stream = Cat(stream, k.in->Protect(23, d)); want = Cat(want, d); }
        if (f % 2) { stream = Cat(stream, k.in->Protect(22, Msg(24, {0}))); k.in->KeyUpdate(); Bytes d = rng.Data(9); stream = Cat(stream, k.in->Protect(23, d)); want = Cat(want, d); }
        run.Begin("%s unprotect a stream, %s %ld fails", Name(a), mode == 2 ? "allocation" : mode < 2 ? "SSL call" : "allocation (short)", f);
        long fail_at = mode == 2 ? f : 0;
        // UnprotectAll resets the pool; arm the allocator through a hook.
        Pieces p;
        p.Build(stream.data(), rng.Split(stream.size(), 4), salt++);
        k.pool->Clear();
        k.pool->fail_at = fail_at;
        if (mode > 2) { k.pool->short_at = f; k.pool->short_by = mode == 3 ? rng.Range(1, 10) : rng.Range(18, 26); }
        if (mode < 2) wrapssl::Arm(f, mode);
        auto r = k.f->Unprotect(p.iov);
        bool fired = mode > 2 ? k.pool->shorted : mode == 2 ? k.pool->nulls > 0 : wrapssl::Fired() > 0;
        if (f <= 1) calls = std::max(calls, mode >= 2 ? 6 : wrapssl::Calls());
        wrapssl::Arm(0);
        ERR_clear_error();
        run.Check(k.pool->bad.empty(), "release", "%s", k.pool->bad.c_str());
        run.Check(r.status.ok() || (fired && r.bytes.empty()), "unprotect", "failed without a fault, or failed with data: %s", std::string(r.status.message()).c_str());
        size_t kept = 0;
        Bytes got;
        for (auto& b : r.bytes) {
          auto it = k.pool->live.find(b.iov_base);
          if (it == k.pool->live.end()) continue;
          kept++;
          got.insert(got.end(), static_cast<uint8_t*>(b.iov_base), static_cast<uint8_t*>(b.iov_base) + std::min(b.iov_len, it->second->size()));
        }
        run.Check(kept == k.pool->live.size(), "leak", "%zu of %zu live buffers returned", kept, k.pool->live.size());
        run.Check(!r.status.ok() || got == want, "fault-swallowed", "success with %zu of %zu bytes although a call failed", got.size(), want.size());
        if (!r.status.ok()) run.Count("unprotect_failures");
        run.Nontrivial(Fmt("uf%d/%d/%ld", static_cast<int>(a), mode, f));
      }
    }
    for (size_t c = 0; c < run.N(120, 2500) && !run.TooMany(); c++) Life(run, rng, salt, c, 30);
    run.Sample(Fmt("%s: protect 0..2*16384+77 with each SSL call failing; unprotect of 0..3 good records, a bad one of 14 kinds, 0..1 more", Name(a)));
  }
}

// ---------------------------------------------------------------- C18
void Malformed(Run& run) {
  run.Rule("a case is one unprotect call on a stream that is cut, extended, mislabelled or mislength'd, or is whole but has empty buffers in the list; "
           "distinct by stream shape, mutation and segmentation");
  Rng rng(run.seed() * 17 + 18);
  unsigned salt = 0;
  auto with_empties = [&](size_t n) {
    auto s = rng.Split(n, 1 + rng.Below(6));
    std::vector<size_t> o;
    for (size_t x : s) { while (rng.Chance(1, 3)) o.push_back(0); o.push_back(x); }
    while (rng.Chance(1, 2)) o.push_back(0);
    return o;
  };
  for (ref::Aead a : kAeads) {
    // Whole streams with empty buffers anywhere, also inside headers.
    for (size_t c = 0; c < run.N(400, 8000) && !run.TooMany(); c++) {
      Fp k = MakeFp(rng, a);
      if (!run.Check(k.f != nullptr, "create", "frame protector not created")) return;
      size_t records = 1 + rng.Below(3);
      Bytes stream, want;
      for (size_t i = 0; i < records; i++) { Bytes d = rng.Data(rng.Len(60)); stream = Cat(stream, k.in->Protect(23, d)); want = Cat(want, d); }
      std::vector<size_t> split;
      if (c % 3 == 0) for (size_t i = 0; i < stream.size(); i++) { if (rng.Chance(1, 3)) split.push_back(0); split.push_back(1); }
      else split = with_empties(stream.size());
      run.Begin("%s whole stream of %zu records cut as %s", Name(a), records, Show(split).c_str());
      if (records == 1 && c % 2) {
        Pieces p;
        p.Build(stream.data(), split, salt++);
        Guard out(k.f->NumberBytesToUnprotect(stream.size()), salt & 1);
        Iovec v{out.data(), out.size()};
        auto s = k.f->Unprotect(p.iov, v);
        run.Check(s.ok() && v.iov_len == want.size() && std::equal(want.begin(), want.end(), out.data()), "whole-refused", "a whole record with empty buffers in the list: %s", std::string(s.message()).c_str());
      } else {
        auto o = UnprotectAll(run, k, stream, split, salt++);
        run.Check(o.ok && o.data == want, "whole-refused", "a whole stream with empty buffers in the list: %s, %zu of %zu bytes", o.msg.c_str(), o.data.size(), want.size());
      }
      run.Count("whole_with_empty_buffers");
      run.Nontrivial(Fmt("w%d/%zu/%s", static_cast<int>(a), records, Show(split).c_str()));
    }
    // Protect ignores empty buffers too (C16 compares the bytes).
    for (size_t c = 0; c < run.N(60, 1500) && !run.TooMany(); c++) {
      Fp k = MakeFp(rng, a);
      size_t n = Size(rng, 2);
      auto split = with_empties(n);
      run.Begin("%s protect %zu bytes as %s", Name(a), n, Show(split).c_str());
      ProtectCase(run, k, rng.Content(n), split, salt++, c & 1);
      run.Nontrivial(Fmt("p%d/%zu/%s", static_cast<int>(a), n, Show(split).c_str()));
    }
    // No buffers, or only empty ones.
    for (size_t z = 0; z < 4; z++)
      for (unsigned s = 0; s < 6; s++) {
        Fp k = MakeFp(rng, a);
        run.Begin("%s %zu empty buffers", Name(a), z);
        auto o = UnprotectAll(run, k, {}, std::vector<size_t>(z, 0), s);
        run.Check(!o.ok, "malformed-accepted", "nothing was accepted as a record");
        Pieces p;
        p.Build(nullptr, std::vector<size_t>(z, 0), s);
        Guard out(10, true);
        Iovec v{out.data(), out.size()};
        run.Check(!k.f->Unprotect(p.iov, v).ok(), "malformed-accepted", "nothing was accepted as a record");
        run.Nontrivial(Fmt("e%d/%zu/%u", static_cast<int>(a), z, s));
      }
    // Cut and extended at every byte.
    for (int shape = 0; shape < 4; shape++) {
      size_t records = 1 + static_cast<size_t>(shape % 3);
      Bytes is = rng.Key(SecretSize(a)), os = rng.Key(SecretSize(a));
      ref::Tls13Half peer(a, is, 0);
      std::vector<Bytes> recs, data;
      Bytes whole;
      for (size_t i = 0; i < records; i++) { data.push_back(rng.Data(shape == 3 ? 0 : 4 + rng.Below(20))); recs.push_back(peer.Protect(23, data.back())); whole = Cat(whole, recs.back()); }
      Bytes next_data = rng.Data(12), next = peer.Protect(23, next_data);
      Bytes more = Cat(whole, next);
      for (size_t n = 0; n <= more.size() && !run.TooMany(); n++) {
        Bytes stream(more.begin(), more.begin() + n);
        Bytes want, acc;
        size_t complete = 0;
        bool at_end = false;
        for (size_t i = 0, e = 0; i <= records && !at_end; i++) {
          const Bytes& r = i < records ? recs[i] : next;
          e += r.size();
          if (e > n) break;
          acc = Cat(acc, i < records ? data[i] : next_data);
          complete++;
          at_end = e == n;
        }
        Fp k = MakeFp(a, is, os, 0, 0);
        auto split = rng.Split(n, 4);
        run.Begin("%s stream of %zu records cut to %zu of %zu bytes as %s", Name(a), records + 1, n, more.size(), Show(split).c_str());
        auto o = UnprotectAll(run, k, stream, split, salt++);
        if (at_end) run.Check(o.ok && o.data == acc, "whole-refused", "%zu whole records refused: %s", complete, o.msg.c_str());
        else run.Check(!o.ok, "malformed-accepted", "%zu bytes holding %zu whole records and a part of one were accepted (%zu bytes out)", n, complete, o.data.size());
        if (!at_end && complete == 0) {
          // Nothing was used up: the whole stream is still good.
          auto w = UnprotectAll(run, k, whole, {whole.size()}, salt++);
          Bytes all;
          for (auto& d : data) all = Cat(all, d);
          run.Check(w.ok && w.data == all, "after-cut", "after refusing a cut record, the whole one was refused: %s", w.msg.c_str());
        }
        run.Nontrivial(Fmt("c%d/%d/%zu/%s", static_cast<int>(a), shape, n, Show(split).c_str()));
        run.Count(at_end ? "cut_at_record_end" : "cut_inside_record");
        // The one-record overload.
        Fp j = MakeFp(a, is, os, 0, 0);
        Pieces p;
        p.Build(stream.data(), split, salt++);
        Guard out(std::max<size_t>(1, n), salt & 1);
        Iovec v{out.data(), out.size()};
        auto s = j.f->Unprotect(p.iov, v);
        bool one = at_end && complete == 1;
        run.Check(s.ok() == one, one ? "whole-refused" : "malformed-accepted", "%zu bytes holding %zu whole records%s as one record: %s", n, complete, at_end ? "" : " and a part", s.ok() ? "accepted" : std::string(s.message()).c_str());
        run.Check(out.CanaryOk(), "overrun", "output overrun");
        if (s.ok() && one) run.Check(v.iov_len == data[0].size() && std::equal(data[0].begin(), data[0].end(), out.data()), "unprotect", "wrong data");
        if (!s.ok() && complete == 0) {
          Pieces q;
          q.Build(recs[0].data(), {recs[0].size()}, salt++);
          Iovec v2{out.data(), 0};
          Guard o2(recs[0].size(), true);
          v2 = {o2.data(), o2.size()};
          auto t = j.f->Unprotect(q.iov, v2);
          run.Check(t.ok() && v2.iov_len == data[0].size() && std::equal(data[0].begin(), data[0].end(), o2.data()), "after-cut", "after refusing a cut record, the whole one was refused");
        }
      }
      // Every byte of the stream altered: never success with other data than the genuine prefix, and every length value in the header.
      for (size_t i = 0; i < whole.size() && !run.TooMany(); i++)
        for (int b = 0; b < 3; b++) {
          Fp k = MakeFp(a, is, os, 0, 0);
          Bytes m = whole;
          m[i] ^= b == 0 ? 1 : b == 1 ? 0x80 : static_cast<uint8_t>(1 + rng.Below(255));
          run.Begin("%s stream of %zu records with byte %zu altered", Name(a), records, i);
          auto o = UnprotectAll(run, k, m, rng.Split(m.size(), 4), salt++);
          run.Check(!o.ok, "malformed-accepted", "accepted with %zu bytes", o.data.size());
          Fp j = MakeFp(a, is, os, 0, 0);
          run.Check(!UnprotectOne(run, j, m, rng.Split(m.size(), 4), salt++), "malformed-accepted", "accepted as one record");
          run.Nontrivial(Fmt("a%d/%d/%zu/%d", static_cast<int>(a), shape, i, b));
          run.Count("altered");
        }
      for (unsigned len = 0; len < 65536; len += shape == 0 ? (len < 300 ? 1 : len > 16300 && len < 16700 ? 1 : 97) : 1009) {
        if (run.TooMany()) break;
        Bytes m = whole;
        if (len == size_t{m[3]} * 256 + m[4]) continue;
        m[3] = static_cast<uint8_t>(len >> 8);
        m[4] = static_cast<uint8_t>(len);
        if (len % 2) m.resize(5 + len, 0x17);
        Fp k = MakeFp(a, is, os, 0, 0);
        run.Begin("%s stream of %zu records with the first length %u (%zu bytes)", Name(a), records, len, m.size());
        auto o = UnprotectAll(run, k, m, rng.Split(m.size(), 4), salt++);
        run.Check(!o.ok, "malformed-accepted", "accepted with %zu bytes", o.data.size());
        Fp j = MakeFp(a, is, os, 0, 0);
        run.Check(!UnprotectOne(run, j, m, rng.Split(m.size(), 4), salt++), "malformed-accepted", "accepted as one record");
        run.Nontrivial(Fmt("l%d/%d/%u", static_cast<int>(a), shape, len));
        run.Count("wrong_length");
      }
    }
    for (size_t c = 0; c < run.N(200, 4000) && !run.TooMany(); c++) Life(run, rng, salt, c, 30);
    // Random bytes that look like records.
    for (size_t c = 0; c < run.N(1500, 40000) && !run.TooMany(); c++) {
      Fp k = MakeFp(rng, a);
      Bytes m;
      while (m.size() < 60 && rng.Chance(7, 8)) {
        size_t n = rng.Below(60);
        Bytes r{23, 3, 3, 0, static_cast<uint8_t>(n)};
        if (rng.Chance(1, 4)) r[rng.Below(5)] = static_cast<uint8_t>(rng.U64());
        m = Cat(m, Cat(r, rng.Data(rng.Chance(1, 4) ? rng.Below(60) : n)));
      }
      run.Begin("%s random record-like bytes, case %zu: %s", Name(a), c, vh::Hex(m).c_str());
      auto o = UnprotectAll(run, k, m, with_empties(m.size()), salt++);
      run.Check(!o.ok, "malformed-accepted", "accepted with %zu bytes", o.data.size());
      run.Check(!UnprotectOne(run, k, m, with_empties(m.size()), salt++), "malformed-accepted", "accepted as one record");
      run.Nontrivial(vh::HashBytes(m.data(), m.size()));
      run.Count("random_streams");
    }
    run.Sample(Fmt("%s: streams of 1-3 records cut at every byte, each byte altered, each length value, empty buffers anywhere", Name(a)));
  }
}
// Far more room than needed is no reason to fail.
void HugeRoom(Run& run) {
  Rng rng(run.seed() * 83 + 2);
  for (ref::Aead a : kAeads)
    for (size_t len : {size_t{1} << 31, size_t{1} << 32, (size_t{1} << 32) + 7, (size_t{1} << 33) + 22}) {
      void* out = vh::HugeOutput(len);
      if (out == MAP_FAILED) { run.Count("huge_skipped"); continue; }
      Fp k = MakeFp(rng, a);
      if (!run.Check(k.f != nullptr, "create", "frame protector not created")) return;
      for (size_t n : {size_t{0}, size_t{77}, kMax + 5}) {
        run.Begin("%s room for %zu bytes", Name(a), len);
        Bytes pt = rng.Data(n), want;
        for (size_t at = 0; at == 0 || at < n; at += kMax) want = Cat(want, k.out->Protect(23, Bytes(pt.begin() + static_cast<long>(at), pt.begin() + static_cast<long>(std::min(n, at + kMax)))));
        Iovec v{out, len};
        auto s = k.f->Protect({{pt.data(), n}}, v);
        run.Check(s.ok() && !memcmp(out, want.data(), want.size()), "huge-room", "protecting fails, or gives something else");
        Bytes d = rng.Data(std::min(n, kMax)), rec = k.in->Protect(23, d);
        v = {out, len};
        s = k.f->Unprotect({{rec.data(), rec.size()}}, v);
        run.Check(s.ok() && v.iov_len == d.size() && (d.empty() || !memcmp(out, d.data(), d.size())), "huge-room", "unprotecting fails, or gives something else");
      }
      munmap(out, len);
      run.Nontrivial(Fmt("huge%d/%zu", static_cast<int>(a), len));
    }
}

// One kind of call again and again, past any small counter; then ordinary traffic both ways.
void Marathon(Run& run, const std::string& kinds) {
  Rng rng(run.seed() * 29 + 3);
  unsigned salt = 0;
  const ref::Aead a = kAeads[run.seed() % 3];
  for (char kind : kinds) {
    if (run.TooMany()) return;
    Fp k = MakeFp(rng, a, rng.Number(8), rng.Number(8));
    if (!run.Check(k.f != nullptr, "create", "frame protector not created")) return;
    const size_t n = run.Many(400);
    size_t done = 0;
    bool ok = true;
    for (; done < n && ok; done++) {
      if (done % 256 == 0) run.Begin("%s repetition %zu of call %c", Name(a), done, kind);
      uint8_t b = static_cast<uint8_t>(rng.Below(256));
      if (done % 64 == 0) k.pool->Clear();
      k.pool->fail_at = 0;
      auto unprotect = [&](Bytes r, bool good, size_t want) {
        auto u = k.f->Unprotect({{r.data(), r.size()}});
        size_t got = 0;
        for (auto& v : u.bytes) { got += v.iov_len; ok &= run.Check(v.iov_len == 0 || *static_cast<uint8_t*>(v.iov_base) == b, "unprotect", "call %zu delivers other data", done); k.pool->Free(v); }
        ok &= run.Check(u.status.ok() == good && got == want, "marathon", "call %zu: status %s, %zu bytes instead of %zu", done, std::string(u.status.message()).c_str(), got, want);
      };
      switch (kind) {
        case 'p': {
          Iovec v{&b, 1};
          auto r = k.f->Protect({v});
          Bytes want = k.out->Protect(23, Bytes(1, b));
          ok = run.Check(r.status.ok() && r.bytes.size() == 1 && r.bytes[0].iov_len == want.size() && !memcmp(r.bytes[0].iov_base, want.data(), want.size()), "protect", "call %zu gives something else", done);
          for (auto& x : r.bytes) k.pool->Free(x);
          break;
        }
        case 'q': {  // no memory
          Iovec v{&b, 1};
          k.pool->fail_at = k.pool->calls + 1;
          auto r = k.f->Protect({v});
          ok = run.Check(!r.status.ok() && r.bytes.empty(), "protect", "call %zu works without a buffer", done);
          break;
        }
        case 'u': unprotect(k.in->Protect(23, Bytes(1, b)), true, 1); break;
        case 't': unprotect(k.in->Protect(22, Msg(4, Bytes(3, b))), true, 0); break;
        case 'a': unprotect(k.in->Protect(21, {1, 100}), false, 0); break;
        case 'm': {  // cut short, or with a wrong header: nothing is used up
          Bytes r = k.in->Protect(23, Bytes(1, b));
          k.in->set_seq(k.in->seq() - 1);
          switch (done % 3) {
            case 0: r.resize(1 + done % (r.size() - 1)); break;
            case 1: r[0] = 22; break;
            case 2: r[4]++; break;
          }
          unprotect(r, false, 0);
          break;
        }
        case 'f': { Bytes r = k.in->Protect(23, Bytes(1, b)); r.back() ^= 2; unprotect(r, false, 0); break; }
        case 'n': {  // no memory for a record
          Bytes r = k.in->Protect(23, Bytes(1, b));
          k.pool->fail_at = k.pool->calls + 1;
          auto u = k.f->Unprotect({{r.data(), r.size()}});
          ok = run.Check(!u.status.ok() && u.bytes.empty(), "unprotect", "call %zu works without a buffer", done);
          break;
        }
      }
      ok = run.Check(k.pool->bad.empty() && k.pool->live.empty(), "release", "call %zu: %s, %zu buffers outstanding", done, k.pool->bad.c_str(), k.pool->live.size()) && ok;
    }
    run.Count("marathon_calls", done);
    // Whether a record is used up for lack of a buffer is left open.
    for (int i = 0; i < 3 && ok && kind != 'n'; i++) {
      ProtectCase(run, k, rng.Data(99), {99}, salt++, i & 1);
      Bytes d = rng.Data(99), r = k.in->Protect(23, d);
      auto o = UnprotectAll(run, k, r, {r.size()}, salt++);
      ok = run.Check(o.ok && o.data == d, "unprotect", "after %zu calls %c good data is refused: %s", done, kind, o.msg.c_str());
    }
    run.Nontrivial(Fmt("marathon %s %c %zu", Name(a), kind, done));
  }
}

}  // namespace

int Workload(Run& run) {
  std::string why;
  if (!ref::Sealer::SelfTest(&why)) { fprintf(stderr, "oracle self-test: %s\n", why.c_str()); return 3; }
  const std::string& p = run.property();
  if (p == "C16") { RoundTrip(run); if (run.round() == 0) Marathon(run, "put"), HugeRoom(run); }
  else if (p == "C17") { Ownership(run); if (run.round() == 0) Marathon(run, "qnf"); }
  else if (p == "C18") { Malformed(run); if (run.round() == 0) Marathon(run, "ma"); }
  else return 3;
  return 0;
}

void TapeCase(Run& run, Rng& rng) {
  run.Rule("a case is one call on a connection of a frame protector with an independent peer, the connection's history found by coverage-guided mutation");
  unsigned salt = static_cast<unsigned>(rng.Below(12));
  if (run.property() != "C16") { Life(run, rng, salt, 0, 200); return; }
  Fp k = MakeFp(rng, kAeads[rng.Below(3)], rng.Number(2), rng.Number(2));
  if (!run.Check(k.f != nullptr, "create", "frame protector not created")) return;
  for (size_t i = 1; i < 60 && !rng.Dry() && !run.TooMany(); i++) HistoryOp(run, rng, k, 1, i, salt);
}
