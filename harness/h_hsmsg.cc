// Post-handshake message reassembly and ticket collection: C12 C13.
#include <string.h>
#include <sanitizer/allocator_interface.h>
#include <algorithm>

#include "absl/status/status.h"
#include "absl/types/variant.h"
#include "src/record_protocol/handshake_message_handler.h"
#include "vh.h"

using s2a::handshake_message_handler::HandshakeMessageHandler;
using vh::Bytes;
using vh::Fmt;
using vh::Guard;
using vh::Rng;
using vh::Run;

namespace {
// What a byte stream of post-handshake messages means, by RFC 8446 4.6 and the
// documented limits; written on the unfragmented stream.
struct Model {
  Bytes cur;                    // bytes of the unfinished message
  std::vector<Bytes> tickets;   // kept ones
  bool retrieved = false, dead = false;
  struct Out { bool error, more, has_ku, has_ticket; int ku_type; size_t stored; };
  Out Feed(const uint8_t* p, size_t n) {
    Out o{false, false, false, false, -1, 0};
    for (size_t i = 0; i < n && !o.error; i++) {
      cur.push_back(p[i]);
      uint8_t t = cur[0];
      if (t != 4 && t != 24) { o.error = true; break; }
      (t == 4 ? o.has_ticket : o.has_ku) = true;
      if (cur.size() < 4) continue;
      size_t len = size_t{cur[1]} << 16 | size_t{cur[2]} << 8 | cur[3];
      if (len == 0) { o.error = true; break; }
      if (cur.size() < 4 + len) {
        // Skip ahead over the body.
        size_t take = std::min(n - i - 1, 4 + len - cur.size());
        cur.insert(cur.end(), p + i + 1, p + i + 1 + take);
        i += take;
        if (cur.size() < 4 + len) continue;
      }
      if (t == 24) {
        o.ku_type = cur[4];
        if (i + 1 < n) o.error = true;
      } else if (!retrieved && tickets.size() < 5) {
        tickets.push_back(cur);
      }
      cur.clear();
    }
    o.more = !cur.empty();
    o.stored = retrieved ? 0 : tickets.size();
    dead |= o.error;
    return o;
  }
};

Bytes Msg(uint8_t type, const Bytes& body) {
  Bytes m{type, static_cast<uint8_t>(body.size() >> 16), static_cast<uint8_t>(body.size() >> 8), static_cast<uint8_t>(body.size())};
  m.insert(m.end(), body.begin(), body.end());
  return m;
}

struct Session {
  Run& run;
  HandshakeMessageHandler h;
  Model m;
  explicit Session(Run& r) : run(r) {}
  // Feeds one piece to both; false when the stream is over (rejected) or differs.
  bool Piece(const uint8_t* p, size_t n, bool right = true) {
    Guard g(Bytes(p, p + n), right);
    auto v = h.ProcessHandshakeMessage(g.data(), n);
    Model::Out o = m.Feed(p, n);
    run.Count("pieces");
    if (o.error) {
      run.Check(v.index() == 0 && !absl::get<0>(v).ok(), "invalid-accepted", "a malformed stream was accepted");
      run.Count("rejected_streams");
      return false;
    }
    if (!run.Check(v.index() == 1, "valid-rejected", "a valid stream was rejected: %s", v.index() == 0 ? absl::get<0>(v).ToString().c_str() : "")) return false;
    auto r = absl::get<1>(v);
    bool ok = run.Check(r.expecting_to_read_more_bytes == o.more, "expecting", "reports expecting=%d, the stream %s inside a message", r.expecting_to_read_more_bytes, o.more ? "ends" : "does not end");
    ok &= run.Check(r.contains_key_update == o.has_ku, "contains-key-update", "contains_key_update=%d, expected %d", r.contains_key_update, o.has_ku);
    ok &= run.Check(r.contains_ticket == o.has_ticket, "contains-ticket", "contains_ticket=%d, expected %d", r.contains_ticket, o.has_ticket);
    if (o.ku_type >= 0) { ok &= run.Check(r.key_update_type == o.ku_type, "key-update-type", "key update type %d, sent %d", r.key_update_type, o.ku_type); run.Count("key_updates"); }
    ok &= run.Check(r.num_full_tickets_stored == o.stored, "stored-count", "%zu tickets stored, expected %zu", r.num_full_tickets_stored, o.stored);
    return ok;
  }
  bool Retrieve() {
    bool mid = !m.cur.empty() && m.cur[0] == 4;
    auto v = h.GetStoredTickets();
    if (m.retrieved || mid) {
      run.Count("retrievals_refused");
      return run.Check(v.index() == 0 && !absl::get<0>(v).ok(), "retrieve-not-refused", "tickets handed out %s", m.retrieved ? "twice" : "while a ticket is incomplete");
    }
    m.retrieved = true;
    run.Count("retrievals");
    if (!run.Check(v.index() == 1 && absl::get<1>(v) != nullptr, "retrieve-refused", "complete tickets were refused")) return false;
    auto& t = *absl::get<1>(v);
    bool ok = run.Check(t.size() == m.tickets.size(), "ticket-count", "%zu tickets handed out, %zu expected", t.size(), m.tickets.size());
    for (size_t i = 0; ok && i < t.size(); i++) {
      Bytes got;
      for (auto& f : *t[i]) got.insert(got.end(), f->begin(), f->end());
      ok &= run.Check(got == m.tickets[i], "ticket-bytes", "ticket %zu of %zu: got %zu bytes %s, sent %zu bytes %s", i, t.size(), got.size(), vh::Hex(got, 12).c_str(), m.tickets[i].size(), vh::Hex(m.tickets[i], 12).c_str());
      run.Count("tickets_compared");
    }
    return ok;
  }
};

// Absent where the build has no such allocator (it then has no use for it).
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
size_t Live() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }

// All cuts of a short stream.
void AllCuts(Run& run, const Bytes& s, const std::string& name, bool retrieve_last) {
  size_t n = s.size();
  for (uint64_t mask = 0; mask < (uint64_t{1} << (n ? n - 1 : 0)) && !run.TooMany(); mask += run.scale() > 1 ? 2 * run.scale() + 1 : 1) {
    run.Begin("stream %s cut mask %llx", name.c_str(), static_cast<unsigned long long>(mask));
    Session x(run);
    size_t from = 0;
    bool ok = true;
    for (size_t i = 1; i <= n && ok; i++)
      if (i == n || (mask >> (i - 1) & 1)) { ok = x.Piece(s.data() + from, i - from, mask & 1); from = i; }
    if (ok && retrieve_last) x.Retrieve();
    run.Nontrivial(Fmt("%s/%llx", name.c_str(), static_cast<unsigned long long>(mask)));
  }
}

std::vector<size_t> Cuts(Rng& rng, const std::vector<size_t>& ends, size_t total) {
  // Piece lengths; biased to message boundaries and to header bytes.
  std::vector<size_t> at;
  size_t k = rng.Below(4) == 0 ? 0 : rng.Below(3 * ends.size() + 4);
  for (size_t i = 0; i < k; i++) {
    size_t p;
    if (rng.Chance(2, 3) && !ends.empty()) {
      size_t e = rng.Chance(1, 4) ? 0 : ends[rng.Below(ends.size())];
      p = e + rng.Below(7);
      if (rng.Chance(1, 4) && e > 2) p = e - rng.Below(3);
    } else {
      p = rng.Below(total + 1);
    }
    if (p <= total) at.push_back(p);
  }
  if (rng.Chance(1, 3)) for (size_t e : ends) at.push_back(e);
  std::sort(at.begin(), at.end());
  std::vector<size_t> out;
  size_t prev = 0;
  for (size_t a : at) { out.push_back(a - prev); prev = a; }
  out.push_back(total - prev);
  return out;
}

void Fragmentation(Run& run) {
  run.Rule("a case is a message stream in one fragmentation (all fragmentations of short streams; random ones biased to header bytes "
           "otherwise), judged by a model on the unfragmented stream; distinct by stream shape and cuts");
  Rng rng(run.seed() * 31 + 12);
  // Exhaustive over short streams: all sequences of up to 3 messages from a small alphabet.
  std::vector<std::pair<std::string, Bytes>> alpha = {
      {"T1", Msg(4, {0x04})}, {"T2", Msg(4, {0x18, 0x00})}, {"T3", Msg(4, {9, 8, 7})}, {"K0", Msg(24, {0})}, {"K1", Msg(24, {1})},
      {"E4", Msg(4, {})}, {"E24", Msg(24, {})}, {"U", {0x0b, 0, 0, 1, 5}}, {"K9", Msg(24, {9})}};
  size_t cap = run.N(15, 18);
  for (size_t i = 0; i < alpha.size(); i++) {
    AllCuts(run, alpha[i].second, alpha[i].first, true);
    for (size_t j = 0; j < alpha.size(); j++) {
      Bytes s2 = alpha[i].second;
      s2.insert(s2.end(), alpha[j].second.begin(), alpha[j].second.end());
      if (s2.size() <= cap) AllCuts(run, s2, alpha[i].first + alpha[j].first, true);
      for (size_t k = 0; k < alpha.size(); k++) {
        Bytes s3 = s2;
        s3.insert(s3.end(), alpha[k].second.begin(), alpha[k].second.end());
        if (s3.size() <= cap && run.thorough()) AllCuts(run, s3, alpha[i].first + alpha[j].first + alpha[k].first, true);
        else if (s3.size() <= 16 && i < 5 && j < 5 && k < 5) AllCuts(run, s3, alpha[i].first + alpha[j].first + alpha[k].first, true);
      }
    }
  }
  // Two-cut exhaustive over a longer stream (every pair of cut points).
  for (int v = 0; v < 3; v++) {
    Bytes s;
    for (int i = 0; i < 3; i++) { Bytes t = Msg(4, rng.Data(v == 0 ? 5 : 1 + rng.Below(20))); s.insert(s.end(), t.begin(), t.end()); }
    if (v) { Bytes t = Msg(24, {static_cast<uint8_t>(v & 1)}); s.insert(s.end(), t.begin(), t.end()); }
    for (size_t a = 0; a <= s.size(); a++)
      for (size_t b = a; b <= s.size() && !run.TooMany(); b++) {
        run.Begin("stream v%d cut at %zu,%zu of %zu", v, a, b, s.size());
        Session x(run);
        if (x.Piece(s.data(), a) && x.Piece(s.data() + a, b - a) && x.Piece(s.data() + b, s.size() - b)) x.Retrieve();
        run.Nontrivial(Fmt("2cut%d/%zu/%zu", v, a, b));
      }
  }
  // Random streams.
  for (size_t c = 0; c < run.N(12000, 200000) && !run.TooMany(); c++) {
    Session x(run);
    Bytes s;
    std::vector<size_t> ends, kus;
    std::string shape;
    size_t msgs = 1 + rng.Below(12);
    for (size_t i = 0; i < msgs; i++) {
      Bytes m;
      unsigned k = static_cast<unsigned>(rng.Below(20));
      if (k < 12) { m = Msg(4, rng.Data(1 + rng.Len(c % 40 == 0 ? 70000 : 300))); shape += Fmt("T%zu", m.size() - 4); }
      else if (k < 19) { m = Msg(24, {static_cast<uint8_t>(rng.Chance(1, 8) ? rng.Below(256) : rng.Below(2))}); shape += "K"; kus.push_back(s.size() + m.size()); }
      else { m = rng.Data(1 + rng.Below(8)); shape += "?"; }
      s.insert(s.end(), m.begin(), m.end());
      ends.push_back(s.size());
    }
    auto cuts = Cuts(rng, ends, s.size());
    if (rng.Chance(7, 8)) {  // cut after each key update, so that the stream is legal
      std::vector<size_t> at;
      size_t p = 0;
      for (size_t l : cuts) { p += l; at.push_back(p); }
      for (size_t k : kus) at.push_back(k);
      std::sort(at.begin(), at.end());
      cuts.clear();
      p = 0;
      for (size_t a : at) { cuts.push_back(a - p); p = a; }
    }
    std::string cs;
    for (size_t l : cuts) cs += Fmt("%zu,", l);
    run.Begin("stream %s cut %s", shape.c_str(), cs.c_str());
    if (c < 4) run.Sample("stream " + shape + " cut " + cs);
    size_t off = 0;
    bool ok = true;
    size_t retrieve_at = rng.Below(cuts.size() * 2);
    for (size_t i = 0; i < cuts.size() && ok; i++) {
      ok = x.Piece(s.data() + off, cuts[i], rng.Chance(1, 2));
      off += cuts[i];
      if (ok && i == retrieve_at) ok = x.Retrieve();
    }
    if (ok && !x.m.dead) x.Retrieve();
    run.Nontrivial(shape + cs);
  }
  // Garbage, also beyond an error: no undefined behaviour, no unbounded run.
  for (size_t c = 0; c < run.N(6000, 100000) && !run.TooMany(); c++) {
    run.Begin("garbage stream %zu", c);
    HandshakeMessageHandler h;
    size_t n = 1 + rng.Below(12);
    uint64_t sig = 0;
    for (size_t i = 0; i < n; i++) {
      Bytes p;
      if (rng.Chance(1, 3)) { p = rng.Data(rng.Below(12)); }
      else {
        size_t k = 1 + rng.Below(4);
        for (size_t j = 0; j < k; j++) {
          Bytes m = Msg(rng.Chance(1, 2) ? 4 : 24, rng.Data(rng.Below(4)));
          if (rng.Chance(1, 4)) m.resize(rng.Below(m.size() + 1));
          p.insert(p.end(), m.begin(), m.end());
        }
      }
      Guard g(p, rng.Chance(1, 2));
      (void)h.ProcessHandshakeMessage(g.data(), p.size());
      if (rng.Chance(1, 6)) (void)h.GetStoredTickets();
      sig = vh::HashBytes(p.data(), p.size(), sig);
      run.Count("garbage_pieces");
    }
    run.Nontrivial(sig);
  }
  { HandshakeMessageHandler h; run.Begin("null plaintext"); auto v = h.ProcessHandshakeMessage(nullptr, 0); run.Check(v.index() == 0, "null-accepted", "null plaintext accepted");
    auto w = h.ProcessHandshakeMessage(nullptr, 5); run.Check(w.index() == 0, "null-accepted", "null plaintext accepted"); }
}

void Tickets(Run& run) {
  run.Rule("a case is a history of tickets (count 0..several hundred, sizes 1..2^24-1, any fragmentation) with retrievals at arbitrary points; "
           "distinct by counts, sizes, cuts and retrieval points");
  Rng rng(run.seed() * 31 + 13);
  // Every number of tickets, every retrieval point.
  for (size_t n = 0; n <= 12; n++)
    for (size_t at = 0; at <= n; at++)
      for (int frag = 0; frag < 4; frag++) {
        run.Begin("%zu tickets, retrieved after %zu, fragmentation %d", n, at, frag);
        Session x(run);
        bool ok = true;
        for (size_t i = 0; i <= n && ok; i++) {
          if (i == at) ok = x.Retrieve();
          if (i == n || !ok) break;
          Bytes t = Msg(4, rng.Data(1 + rng.Below(40)));
          size_t step = frag == 0 ? t.size() : frag == 1 ? 1 : frag == 2 ? 4 : 3;
          for (size_t o = 0; o < t.size() && ok; o += step) {
            ok = x.Piece(t.data() + o, std::min(step, t.size() - o));
            if (ok && frag == 3 && o + step < t.size() && i < at) ok = x.Retrieve();  // must be refused mid-ticket
          }
        }
        if (ok) x.Retrieve();
        run.Nontrivial(Fmt("n%zu/%zu/%d", n, at, frag));
      }
  // Sizes: every byte of the 24-bit length field matters.
  std::vector<size_t> sizes;
  for (size_t n = 1; n <= 600; n++) sizes.push_back(n);
  for (size_t k = 10; k <= 23; k++) for (size_t d = 0; d < 3; d++) sizes.push_back((size_t{1} << k) - 1 + d);
  for (size_t v : {size_t{0x010203}, size_t{0x0A0000}, size_t{0x00FF00}, size_t{0xFF0001}, size_t{0xFFFFFF}, size_t{65280}, size_t{16777214}}) sizes.push_back(v);
  for (size_t i = 0; i < run.N(20, 200); i++) sizes.push_back(1 + rng.Below(1 << 18));
  for (size_t n : vh::CodeSizes(0xffffff)) if (n) sizes.push_back(n);
  for (size_t sz : sizes) {
    if (run.TooMany()) return;
    size_t variants = sz > (1 << 20) ? 1 : 5;
    for (size_t v = 0; v < variants; v++) {
      run.Begin("ticket of %zu bytes, variant %zu", sz, v);
      Session x(run);
      Bytes t = Msg(4, rng.Data(sz));
      bool ok = true;
      size_t o = 0;
      while (o < t.size() && ok) {
        size_t step = v == 3 ? t.size() : v == 4 ? (o == 0 ? 1 + rng.Below(8) : t.size()) : v == 0 ? 16384 : v == 1 ? 1 + rng.Below(5) + (o > 8 ? rng.Below(sz) : 0) : rng.Len(16384);
        step = std::min(step, t.size() - o);
        ok = x.Piece(t.data() + o, step);
        o += step;
        if (ok && o < t.size() && rng.Chance(1, 8)) ok = x.Retrieve();
      }
      // A second small ticket behind it.
      Bytes u = Msg(4, rng.Data(3));
      if (ok) ok = x.Piece(u.data(), u.size());
      if (ok) ok = x.Retrieve();
      if (ok) ok = x.Piece(u.data(), u.size());
      if (ok) x.Retrieve();
      run.Nontrivial(Fmt("size%zu/%zu", sz, v));
    }
  }
  // Many tickets in one piece and over many pieces; key updates among them.
  for (size_t c = 0; c < run.N(400, 6000) && !run.TooMany(); c++) {
    Session x(run);
    size_t n = c % 20 == 0 ? 250 + rng.Below(300) : c % 20 == 1 ? rng.Repeats(3000) : rng.Below(20);
    Bytes s;
    std::vector<size_t> ends;
    for (size_t i = 0; i < n; i++) {
      Bytes t = rng.Chance(1, 12) ? Msg(24, {1}) : Msg(4, rng.Data(1 + rng.Len(200)));
      s.insert(s.end(), t.begin(), t.end());
      ends.push_back(s.size());
    }
    size_t off = 0, pieces = 0;
    bool ok = true, pulled = false;
    run.Begin("%zu tickets in a stream of %zu bytes, case %zu", n, s.size(), c);
    while (off < s.size() && ok) {
      size_t step = rng.Chance(1, 2) ? 1 + rng.Below(12) : 1 + rng.Len(4000);
      step = std::min(step, s.size() - off);
      // end at the next key update, which must be last in its piece
      size_t p = 0;
      for (size_t e : ends) { if (s[p] == 24 && e > off && e < off + step) { step = e - off; break; } p = e; if (e >= off + step) break; }
      ok = x.Piece(s.data() + off, step);
      off += step;
      pieces++;
      if (ok && rng.Chance(1, 40)) { ok = x.Retrieve(); pulled = true; }
    }
    if (ok) ok = x.Retrieve();
    if (ok) x.Retrieve();
    run.Nontrivial(Fmt("many%zu/%zu/%zu/%d", n, s.size(), pieces, pulled));
    if (c < 3) run.Sample(Fmt("%zu messages, %zu bytes, %zu pieces", n, s.size(), pieces));
  }
  // A long history: hundreds of thousands of tickets would wrap small counters.
  {
    run.Begin("long history of tickets");
    Session x(run);
    Bytes t = Msg(4, rng.Data(3));
    bool ok = true;
    for (size_t i = 0; i < run.N(140000, 1000000) && ok; i++) ok = x.Piece(t.data(), t.size());
    if (ok) x.Retrieve();
    Session y(run);
    y.Retrieve();
    for (size_t i = 0; i < 70000 && ok; i++) ok = y.Piece(t.data(), t.size());
    if (ok) y.Retrieve();
    run.Nontrivial("long");
  }
  // Ignored tickets must not accumulate.
  for (int mode = 0; mode < 2; mode++) {
    run.Begin("memory held for ignored tickets, mode %d", mode);
    HandshakeMessageHandler h;
    Bytes small = Msg(4, rng.Data(10)), big = Msg(4, rng.Data(16000)), huge = Msg(4, rng.Data(1 << 23));
    for (int i = 0; i < 5 && mode == 0; i++) (void)h.ProcessHandshakeMessage(small.data(), small.size());
    if (mode == 1) (void)h.GetStoredTickets();
    for (int i = 0; i < 10; i++) (void)h.ProcessHandshakeMessage(big.data(), big.size());
    size_t before = Live();
    for (int i = 0; i < 1000; i++) (void)h.ProcessHandshakeMessage(big.data(), big.size());
    for (size_t o = 0; o < huge.size() / 2; o += 4096) (void)h.ProcessHandshakeMessage(huge.data() + o, 4096);
    size_t after = Live();
    run.Check(after < before + (1 << 20), "ignored-tickets-kept", "20 MB of tickets past the limit grew the heap by %zu bytes", after - before);
    run.Count("ignored_bytes", 1000 * big.size() + huge.size() / 2);
    run.Nontrivial(Fmt("mem%d", mode));
  }
}
}  // namespace

// A stream of messages, its fragments and the retrievals, all from the tape.
void TapeCase(Run& run, Rng& rng) {
  run.Rule("a case is one stream of handshake messages with its cuts and retrievals, found by coverage-guided mutation, judged by a model on the unfragmented stream");
  Session x(run);
  Bytes pending;
  bool ok = true;
  std::string trail;
  for (size_t n = 0; ok && n < 400 && !(rng.Dry() && pending.empty()); n++) {
    if (pending.empty() || rng.Chance(1, 4)) {
      size_t times = rng.Chance(1, 40) ? rng.Repeats(700) : 1;
      unsigned k = static_cast<unsigned>(rng.Below(24));
      Bytes m = k < 14 ? Msg(4, rng.Data(1 + rng.Len(k == 0 ? 70000 : 300))) : k < 22 ? Msg(24, {static_cast<uint8_t>(rng.Chance(1, 8) ? rng.Below(256) : rng.Below(2))}) : rng.Data(1 + rng.Below(8));
      if (k >= 14 || m.size() > 2000) times = 1;
      while (times--) pending.insert(pending.end(), m.begin(), m.end());
    }
    // To the end of a message, so many bytes, or all.
    size_t step = rng.Chance(1, 3) ? 1 + rng.Below(9) : rng.Chance(1, 3) ? 1 + rng.Len(pending.size()) : pending.size();
    step = std::min(step, pending.size());
    if (rng.Chance(3, 4)) {
      Bytes cur = x.m.cur;
      for (size_t i = 0; i < step; i++) {
        cur.push_back(pending[i]);
        if (cur.size() < 4 || cur.size() < 4 + (size_t{cur[1]} << 16 | size_t{cur[2]} << 8 | cur[3])) continue;
        if (cur[0] == 24) step = i + 1;
        cur.clear();
      }
    }
    if (trail.size() < 200) trail += Fmt("%zu,", step);
    run.Begin("pieces %s", trail.c_str());
    ok = x.Piece(pending.data(), step, rng.Chance(1, 2));
    pending.erase(pending.begin(), pending.begin() + static_cast<long>(step));
    if (ok && rng.Chance(1, 12)) { trail += "R"; ok = x.Retrieve(); }
  }
  if (ok && !x.m.dead) x.Retrieve();
  run.Nontrivial(trail);
}

int Workload(Run& run) {
  if (run.property() == "C12") Fragmentation(run);
  else if (run.property() == "C13") Tickets(run);
  else return 3;
  return 0;
}
