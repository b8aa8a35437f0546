// C38: lifetimes.  Everything the caller lends is overwritten and freed as
// soon as the call (or creation) it was lent to is over; everything handed
// out is kept, and looked at again after later calls and after the object it
// came from is gone; everything given away or captured is counted.
#include <pthread.h>
#include <sanitizer/allocator_interface.h>

#include <functional>

#include "include/s2a_frame_protector.h"
#include "px.h"
#include "src/record_protocol/handshake_message_handler.h"
#include "src/record_protocol/s2a_half_connection.h"

extern "C" int __sanitizer_get_ownership(const volatile void*) __attribute__((weak));

using namespace px;
using s2a::frame_protector::S2AFrameProtector;
using s2a::handshake_message_handler::HandshakeMessageHandler;
using s2a::record_protocol::S2AHalfConnection;
using FactoryInterface = s2a::s2a_channel::S2AChannelFactoryInterface;
using ChannelOptions = FactoryInterface::S2AChannelOptionsInterface;

namespace {
// ------------------------------------------------------------ what is lent
void Scribble(void* p, size_t n) {
  volatile uint8_t* b = static_cast<volatile uint8_t*>(p);
  for (size_t i = 0; i < n; i++) b[i] = 0xDD;
}
// A vector or string on the heap; overwritten and freed at the end of its life.
template <class T> class Lent {
 public:
  explicit Lent(const T& v) : p_(new T(v)) {}
  Lent(Lent&&) = default;
  ~Lent() { Return(); }
  void Return() { if (!p_) return; if (!p_->empty()) Scribble(&(*p_)[0], p_->size() * sizeof((*p_)[0])); p_.reset(); }
  const T& operator*() const { return *p_; }
  const T* operator->() const { return p_.get(); }
 private:
  std::unique_ptr<T> p_;
};
class LentId {
 public:
  explicit LentId(const Id& i) : p_(new Identity(ToS2A(i))) {}
  // Assigned to before it goes, so that a reference to it shows even where the memory is not looked at.
  ~LentId() { *p_ = Identity::FromUid("identity no longer lent, of some length"); }
  const Identity& operator*() const { return *p_; }
 private:
  std::unique_ptr<Identity> p_;
};
// Bytes in pieces, each its own allocation, and the list of them.
class LentIov {
 public:
  LentIov(const Bytes& data, const std::vector<size_t>& split) : iov_(new std::vector<Iovec>) {
    size_t off = 0;
    for (size_t n : split) {
      uint8_t* p = static_cast<uint8_t*>(malloc(n ? n : 1));
      if (n) memcpy(p, data.data() + off, n);
      iov_->push_back({p, n});
      off += n;
    }
  }
  LentIov(Rng& rng, const Bytes& data, size_t pieces = 5) : LentIov(data, rng.Split(data.size(), 1 + rng.Below(pieces))) {}
  LentIov(const LentIov&) = delete;
  ~LentIov() {
    for (auto& v : *iov_) { Scribble(v.iov_base, v.iov_len); free(v.iov_base); }
    Scribble(iov_->data(), iov_->size() * sizeof(Iovec));
  }
  const std::vector<Iovec>& operator*() const { return *iov_; }
 private:
  std::unique_ptr<std::vector<Iovec>> iov_;
};

// -------------------------------------------------- what is captured or given
// Calls of the library that may call back.
struct Scope {
  long depth = 0, calls = 0;
  std::string bad;
  pthread_t thread = pthread_self();
};
struct In {
  explicit In(Scope& s) : s_(s) { s_.depth++; }
  ~In() { s_.depth--; }
  Scope& s_;
};
// What a callback holds on to.
struct Token {
  Token(Scope* s, const char* w) : scope(s), what(w) {}
  Scope* scope;
  const char* what;
  void Use() {
    scope->calls++;
    if (scope->depth == 0) scope->bad = Fmt("the %s was called although no call was running", what);
    else if (!pthread_equal(scope->thread, pthread_self())) scope->bad = Fmt("the %s was called on another thread", what);
  }
};
// The tokens of one case, seen from outside.
struct Held {
  std::vector<std::pair<const char*, std::weak_ptr<Token>>> t;
  std::shared_ptr<Token> New(Scope* s, const char* what) {
    auto p = std::make_shared<Token>(s, what);
    t.push_back({what, p});
    return p;
  }
  const char* Alive() const { for (auto& x : t) if (!x.second.expired()) return x.first; return nullptr; }
};
class LifeFactory : public FactoryInterface {
 public:
  explicit LifeFactory(std::shared_ptr<Token> t) : t_(t) { Live()++; }
  ~LifeFactory() override { Live()--; }
  void WaitForChannelReady() override { t_->Use(); }
  absl::StatusOr<std::unique_ptr<s2a::s2a_channel::S2AChannelInterface>> Build(S2AChannelOptionsInterface*) override { t_->Use(); return absl::UnimplementedError("x"); }
  static long& Live() { static long n = 0; return n; }
 private:
  std::shared_ptr<Token> t_;
};
class LifeManager : public AccessTokenManagerInterface {
 public:
  explicit LifeManager(std::shared_ptr<Token> t) : t_(t) { Live()++; }
  ~LifeManager() override { Live()--; }
  absl::StatusOr<std::string> GetDefaultToken() override { t_->Use(); return std::string("the default token, long enough to be on the heap"); }
  absl::StatusOr<std::string> GetToken(const Identity& i) override { t_->Use(); return "the token of " + i.GetIdentityString(); }
  std::string DebugName() const override { return "life"; }
  static long& Live() { static long n = 0; return n; }
 private:
  std::shared_ptr<Token> t_;
};
bool Freed(const void* p) { return p == nullptr || !__sanitizer_get_ownership || !__sanitizer_get_ownership(p); }

// ------------------------------------------------------------ ticket sender
struct Sent {
  const Identity* identity;
  std::string identity_then, identity_at_wait, url;
  std::unique_ptr<std::vector<std::unique_ptr<std::string>>> tickets;
  std::vector<std::string> seen;
  std::unique_ptr<FactoryInterface> factory;
  std::unique_ptr<ChannelOptions> options;
  bool waited = false;
};
std::vector<Sent>& Sends() { static std::vector<Sent> s; return s; }
// What the sender does: takes what it is given or not; has a wait function; which fails.
bool g_take = true, g_wait = true, g_fail = false;
void SenderMode(Rng& rng) { Sends().clear(); g_take = rng.Chance(2, 3); g_wait = rng.Chance(7, 8); g_fail = rng.Chance(1, 2); }
bool LifeWait() {
  for (auto& s : Sends()) if (!s.waited) { s.waited = true; s.identity_at_wait = s.identity->GetIdentityString(); break; }
  return !g_fail;
}
s2a::s2a_ticket_sender::WaitOnTicketSender LifeSender(s2a::s2a_ticket_sender::TicketSenderOptions& o) {
  Sent s;
  s.identity = &o.local_identity;
  s.identity_then = o.local_identity.GetIdentityString();
  s.url = o.handshaker_service_url;
  if (o.tickets) for (auto& t : *o.tickets) s.seen.push_back(*t);
  if (g_take) { s.tickets = std::move(o.tickets); s.factory = std::move(o.channel_factory); s.options = std::move(o.channel_options); }
  Sends().push_back(std::move(s));
  return g_wait ? LifeWait : nullptr;
}
// After the sessions: what the sender was given is still its own.
void CheckSends(Run& run, const std::string& url, const std::string& identity, const std::vector<std::string>& tickets) {
  for (auto& s : Sends()) {
    run.Check(s.url == url, "value", "tickets for address %s instead of %s", s.url.c_str(), url.c_str());
    run.Check(s.identity_then == identity, "value", "tickets for identity %s instead of %s", s.identity_then.c_str(), identity.c_str());
    run.Check(!g_wait || (s.waited && s.identity_at_wait == identity), "value", "the identity lent to the ticket sender is no longer there when it is waited for: %s", s.identity_at_wait.c_str());
    run.Check(s.seen.size() <= tickets.size() && std::equal(s.seen.begin(), s.seen.end(), tickets.begin()), "value", "%zu tickets sent, not the first of the %zu received", s.seen.size(), tickets.size());
    if (s.tickets) {
      bool same = s.tickets->size() == s.seen.size();
      for (size_t i = 0; same && i < s.seen.size(); i++) same = *(*s.tickets)[i] == s.seen[i];
      run.Check(same, "kept", "tickets given to the ticket sender changed afterwards");
      run.Count("results kept");
    }
    run.Count("ticket sends");
  }
}

// ------------------------------------------------------- what is handed out
struct Kept {
  struct K { const uint8_t* p; Bytes want; std::function<void()> release; std::string what; };
  std::vector<K> all;
  void Add(const uint8_t* p, const Bytes& want, const char* what, std::function<void()> release) { all.push_back({p, want, release, what}); }
  void Check(Run& run) {
    for (auto& k : all) run.Check(k.want.empty() || memcmp(k.p, k.want.data(), k.want.size()) == 0, "kept", "%s of %zu bytes changed after it was handed out", k.what.c_str(), k.want.size());
    run.Count("results kept", all.size());
  }
  void Release(Rng& rng) { while (!all.empty()) { size_t i = rng.Below(all.size()); all[i].release(); all[i] = all.back(); all.pop_back(); } }
  ~Kept() { for (auto& k : all) k.release(); }
};

std::string UrlText(Rng& rng) { return rng.Chance(1, 2) ? "s2a:" + Text(rng, 8) : "an address too long for the string itself: " + Text(rng, 60); }

// The peer of a session: deliveries, and what they should give.
struct Peer {
  ref::Tls13Half in;
  std::vector<std::string> tickets;
  Bytes pending;  // the rest of a message whose start was delivered
  bool key_update_pending = false;
  // One record; *data: the application data it carries, if it does.
  Bytes Next(Rng& rng, Bytes* data, bool* is_data) {
    *is_data = false;
    data->clear();
    if (pending.empty() && tickets.size() < 5 && rng.Chance(1, 3)) {
      pending = Msg(4, rng.Data(1 + rng.Below(rng.Chance(1, 6) ? 9000 : 200)));
      tickets.push_back(Str(pending));
    } else if (pending.empty() && rng.Chance(1, 6)) {
      pending = Msg(24, {0});
      key_update_pending = true;
    }
    if (!pending.empty()) {
      size_t n = key_update_pending ? pending.size() : std::min<size_t>({pending.size(), kMax, 1 + rng.Below(2 * pending.size())});
      Bytes part(pending.begin(), pending.begin() + static_cast<long>(n));
      pending.erase(pending.begin(), pending.begin() + static_cast<long>(n));
      Bytes r = in.Protect(22, part);
      if (key_update_pending && pending.empty()) { in.KeyUpdate(); key_update_pending = false; }
      return r;
    }
    *is_data = true;
    *data = rng.Data(rng.Below(rng.Chance(1, 8) ? kMax + 1 : 100));
    return in.Protect(23, *data);
  }
};

// ------------------------------------------------------------ the crypter
void CrypterLife(Run& run, Rng& rng, size_t c) {
  ref::Aead a = kAeads[rng.Below(3)];
  Scope scope;
  Held held;
  Kept kept;
  SenderMode(rng);
  const std::string url = UrlText(rng);
  const Id id{2, Text(rng, 60)};
  Bytes is = rng.Key(SecretSize(a)), os = rng.Key(SecretSize(a));
  const int fail = rng.Chance(1, 8) ? 1 + static_cast<int>(rng.Below(4)) : 0;  // a refused creation
  const size_t ops = 4 + rng.Below(20);
  run.Begin("case %zu: record layer, %s, %zu operations, refusal %d", c, Name(a), ops, fail);
  std::unique_ptr<S2ACrypter> cr;
  const void* channel_options = nullptr;
  absl::Status refused;
  {
    Lent<std::string> lurl(fail == 1 ? "" : url);
    LentId lid(id);
    Lent<Bytes> lin(fail == 2 ? Bytes(7, 1) : is), lout(fail == 3 ? Bytes(5, 2) : os);
    std::unique_ptr<FactoryInterface> f(rng.Chance(1, 6) ? nullptr : new LifeFactory(held.New(&scope, "channel factory")));
    std::unique_ptr<ChannelOptions> o(rng.Chance(1, 6) ? nullptr : new ChannelOptions);
    channel_options = o.get();
    auto logger = held.New(&scope, "logger");
    In in(scope);
    auto v = S2ACrypter::Create(fail == 4 ? TlsVersion::TLS1_2 : TlsVersion::TLS1_3, SuiteOf(a), 7, *lurl, *lid, *lin, *lout, 0, 0, LifeSender, std::move(f), std::move(o),
                                [logger](const std::string&) { logger->Use(); });
    if (v.index() == 1) cr = std::move(absl::get<1>(v));
    else refused = absl::get<0>(v);
  }
  run.Check((cr == nullptr) == (fail != 0), "value", "creation %s", cr ? "not refused" : "refused");
  run.Check(fail == 0 || !refused.ok(), "value", "the status of a refused creation is gone");
  Peer peer{ref::Tls13Half(a, is, 0), {}, {}, false};
  ref::Tls13Half out(a, os, 0);
  std::string shape;
  for (size_t i = 0; cr && i < ops && !run.TooMany(); i++) {
    if (rng.Chance(1, 12)) {
      In in(scope);
      run.Check(cr->UpdateOutboundKey().ok(), "value", "the outbound key is not updated");
      out.KeyUpdate();
      shape += "K";
    } else if (rng.Chance(1, 2)) {
      Bytes data = rng.Data(rng.Below(rng.Chance(1, 8) ? kMax + 1 : 100));
      uint8_t* rec = static_cast<uint8_t*>(malloc(data.size() + kOverhead));
      size_t n;
      {
        LentIov l(rng, data);
        std::unique_ptr<Iovec> where(new Iovec{rec, data.size() + kOverhead});
        In in(scope);
        auto s = cr->Protect(S2ACrypter::RecordType::APPLICATION_DATA, *l, *where);
        n = s.GetCode() == Code::OK ? s.GetBytesWritten() : 0;
        Scribble(where.get(), sizeof(Iovec));
      }
      Bytes want = out.Protect(23, data);
      run.Check(n == want.size() && memcmp(rec, want.data(), n) == 0, "value", "operation %zu: the record of %zu bytes differs from an independent one", i, data.size());
      if (rng.Chance(1, 2)) kept.Add(rec, Bytes(rec, rec + n), "a record", [rec] { free(rec); });
      else { Scribble(rec, data.size() + kOverhead); free(rec); }
      shape += "P";
    } else {
      Bytes data;
      bool is_data;
      Bytes r = peer.Next(rng, &data, &is_data);
      const bool forge = rng.Chance(1, 20);
      if (forge) r[r.size() - 1] ^= 1;
      size_t room = r.size() - kHeader;
      uint8_t* pt = static_cast<uint8_t*>(malloc(room));
      size_t n = 0;
      Code code;
      std::string message;
      {
        Lent<Bytes> header(Bytes(r.begin(), r.begin() + kHeader));
        LentIov l(rng, Bytes(r.begin() + kHeader, r.end()));
        In in(scope);
        auto s = cr->Unprotect({const_cast<uint8_t*>(header->data()), kHeader}, *l, {pt, room});
        code = s.GetCode();
        message = s.GetErrorMessage();
        n = s.GetBytesWritten();
      }
      if (forge) {
        run.Check(code != Code::OK, "value", "operation %zu: a forged record is accepted", i);
        run.Count("forged");
        Scribble(pt, room);
        free(pt);
        break;  // the positions differ from here
      }
      run.Check(code == Code::OK && (!is_data || (n == data.size() && (n == 0 || memcmp(pt, data.data(), n) == 0))), "value", "operation %zu: code %d, %zu bytes for %zu: %s", i, static_cast<int>(code), n, data.size(), message.c_str());
      if (is_data && rng.Chance(1, 2)) kept.Add(pt, data, "a plaintext", [pt] { free(pt); });
      else { Scribble(pt, room); free(pt); }
      shape += is_data ? "D" : "H";
    }
    run.Count("arguments lent and taken away");
  }
  kept.Check(run);
  if (rng.Chance(1, 3)) kept.Release(rng);
  { In in(scope); cr.reset(); }
  kept.Check(run);
  CheckSends(run, url, id.text, peer.tickets);
  const bool taken = !Sends().empty() && g_take;
  Sends().clear();
  run.Check(LifeFactory::Live() == 0, "released", "%ld channel factories still alive", LifeFactory::Live());
  run.Check(taken || Freed(channel_options), "released", "the channel options were not released");
  run.Check(scope.bad.empty(), "callback", "%s", scope.bad.c_str());
  run.Check(held.Alive() == nullptr, "released", "what the %s holds outlives the record layer", held.Alive());
  run.Count("callbacks", static_cast<uint64_t>(scope.calls));
  run.Nontrivial(Fmt("r%s%d", Name(a), fail) + shape);
  LifeFactory::Live() = 0;
}

// ------------------------------------------------------------ frame protector
struct LifePool {
  std::map<void*, size_t> mine;    // allocated, not handed out
  std::set<void*> given;
  std::string bad;
  Iovec Alloc(size_t n) { void* p = malloc(n ? n : 1); mine[p] = n; return {p, n}; }
  void Destroy(Iovec v) {
    if (mine.erase(v.iov_base) == 0) { bad = given.count(v.iov_base) ? "a buffer that was handed out was released" : "a buffer that is not the allocator's was released"; return; }
    Scribble(v.iov_base, v.iov_len);
    free(v.iov_base);
  }
  void Give(void* p) { mine.erase(p); given.insert(p); }
  ~LifePool() { for (auto& m : mine) free(m.first); }
};
Bytes Flat(const std::vector<Iovec>& v) { Bytes b; for (auto& x : v) { const uint8_t* p = static_cast<const uint8_t*>(x.iov_base); b.insert(b.end(), p, p + x.iov_len); } return b; }
Bytes WantStream(ref::Tls13Half* out, const Bytes& data) {
  Bytes s;
  size_t off = 0;
  do {
    size_t n = std::min(kMax, data.size() - off);
    s = Cat(s, out->Protect(23, Bytes(data.begin() + static_cast<long>(off), data.begin() + static_cast<long>(off + n))));
    off += n;
  } while (off < data.size());
  return s;
}
// Operations on a frame protector.  give: the buffer is the caller's from now on; release: gives it back.
std::string UseProtector(Run& run, Rng& rng, Scope& scope, S2AFrameProtector* fp, Peer* peer, ref::Tls13Half* out, Kept* kept, size_t ops,
                         const std::function<void(Iovec)>& give, const std::function<void(Iovec)>& release) {
  std::string shape;
  for (size_t i = 0; i < ops && !run.TooMany(); i++) {
    run.Count("arguments lent and taken away");
    const bool own_buffer = rng.Chance(1, 3);
    if (rng.Chance(1, 2)) {
      Bytes data = rng.Data(rng.Chance(1, 8) ? rng.Below(3 * kMax) : rng.Below(200));
      Bytes want = WantStream(out, data);
      std::unique_ptr<LentIov> l(new LentIov(rng, data));
      if (own_buffer) {
        size_t need;
        { In in(scope); need = fp->NumberBytesToProtect(**l); }
        uint8_t* p = static_cast<uint8_t*>(malloc(need));
        std::unique_ptr<Iovec> where(new Iovec{p, need});
        absl::Status s;
        { In in(scope); s = fp->Protect(**l, *where); }
        l.reset();
        Scribble(where.get(), sizeof(Iovec));
        where.reset();
        run.Check(s.ok() && need == want.size() && memcmp(p, want.data(), need) == 0, "value", "operation %zu: %zu bytes protected into the caller's buffer differ: %s", i, data.size(), s.ToString().c_str());
        kept->Add(p, want, "a protected buffer of the caller", [p] { free(p); });
      } else {
        S2AFrameProtector::Result r;
        { In in(scope); r = fp->Protect(**l); }
        l.reset();
        Bytes got = Flat(r.bytes);
        run.Check(r.status.ok() && got == want, "value", "operation %zu: %zu protected bytes, %zu expected, or they differ: %s", i, got.size(), want.size(), r.status.ToString().c_str());
        for (auto& b : r.bytes) { give(b); Iovec v = b; kept->Add(static_cast<uint8_t*>(v.iov_base), Bytes(static_cast<uint8_t*>(v.iov_base), static_cast<uint8_t*>(v.iov_base) + v.iov_len), "a protected buffer", [v, release] { release(v); }); }
      }
      shape += own_buffer ? "p" : "P";
    } else {
      Bytes stream, want;
      for (size_t n = own_buffer ? 1 : 1 + rng.Below(3); n; n--) {
        Bytes d;
        bool is_data;
        stream = Cat(stream, peer->Next(rng, &d, &is_data));
        want = Cat(want, d);
        shape += is_data ? "d" : "h";
      }
      if (rng.Chance(1, 5)) {  // first only a part of it: refused, and nothing is lost
        LentIov cut(rng, Bytes(stream.begin(), stream.end() - 1 - static_cast<long>(rng.Below(3))));
        S2AFrameProtector::Result r;
        { In in(scope); if (stream.size() <= kHeader + kMax && want.size() + kOverhead >= stream.size()) r = fp->Unprotect(*cut); else r.status = absl::UnknownError("not tried"); }
        run.Check(!r.status.ok() && r.bytes.empty(), "value", "operation %zu: a cut record is not refused", i);
        shape += "c";
      }
      std::unique_ptr<LentIov> l(new LentIov(rng, stream));
      if (own_buffer) {
        size_t need;
        { In in(scope); need = fp->NumberBytesToUnprotect(**l); }
        uint8_t* p = static_cast<uint8_t*>(malloc(need ? need : 1));
        std::unique_ptr<Iovec> where(new Iovec{p, need});
        absl::Status s;
        { In in(scope); s = fp->Unprotect(**l, *where); }
        l.reset();
        run.Check(s.ok() && where->iov_len == want.size() && (want.empty() || memcmp(where->iov_base, want.data(), want.size()) == 0), "value", "operation %zu: %zu bytes unprotected, %zu expected, or they differ: %s", i, where->iov_len, want.size(), s.ToString().c_str());
        kept->Add(static_cast<uint8_t*>(where->iov_base), want, "an unprotected buffer of the caller", [p] { free(p); });
      } else {
        S2AFrameProtector::Result r;
        { In in(scope); r = fp->Unprotect(**l); }
        l.reset();
        Bytes got = Flat(r.bytes);
        run.Check(r.status.ok() && got == want, "value", "operation %zu: %zu bytes unprotected, %zu expected, or they differ: %s", i, got.size(), want.size(), r.status.ToString().c_str());
        for (auto& b : r.bytes) { give(b); Iovec v = b; kept->Add(static_cast<uint8_t*>(v.iov_base), Bytes(static_cast<uint8_t*>(v.iov_base), static_cast<uint8_t*>(v.iov_base) + v.iov_len), "an unprotected buffer", [v, release] { release(v); }); }
      }
      shape += own_buffer ? "u" : "U";
    }
    if (rng.Chance(1, 4)) kept->Check(run);
    if (rng.Chance(1, 4)) kept->Release(rng);
  }
  return shape;
}
void ProtectorLife(Run& run, Rng& rng, size_t c) {
  ref::Aead a = kAeads[rng.Below(3)];
  Scope scope;
  Held held;
  auto pool = std::make_shared<LifePool>();
  SenderMode(rng);
  const std::string url = UrlText(rng);
  const Id id{3, Text(rng, 60)};
  Bytes is = rng.Key(SecretSize(a)), os = rng.Key(SecretSize(a));
  const int fail = rng.Chance(1, 6) ? 1 + static_cast<int>(rng.Below(5)) : 0;
  run.Begin("case %zu: frame protector, %s, refusal %d", c, Name(a), fail);
  std::unique_ptr<S2AFrameProtector> fp;
  absl::Status refused;
  std::string refused_then;
  const void* channel_options;
  {
    Lent<std::string> lurl(fail == 1 ? "" : url);
    std::unique_ptr<LentId> lid(new LentId(id));
    auto t1 = held.New(&scope, "allocator"), t2 = held.New(&scope, "destroy function"), t3 = held.New(&scope, "logger");
    std::unique_ptr<ChannelOptions> o(new ChannelOptions);
    channel_options = o.get();
    std::unique_ptr<S2AFrameProtector::S2AFrameProtectorOptions> opts(new S2AFrameProtector::S2AFrameProtectorOptions{
        fail == 2 ? TlsVersion::TLS1_2 : TlsVersion::TLS1_3, SuiteOf(a), fail == 3 ? Bytes(3, 3) : is, os, 0, 0, *lurl, **lid, 9,
        std::unique_ptr<FactoryInterface>(new LifeFactory(held.New(&scope, "channel factory"))), std::move(o),
        [t1, pool](size_t n) { t1->Use(); return pool->Alloc(n); }, [t2, pool](Iovec v) { t2->Use(); pool->Destroy(v); }, [t3](const std::string&) { t3->Use(); }});
    if (fail == 4) opts->destroy = nullptr;
    if (fail == 5) opts->logger = nullptr;
    In in(scope);
    auto r = S2AFrameProtector::Create(*opts);
    if (r.ok()) fp = std::move(*r);
    else { refused = r.status(); refused_then = refused.ToString(); }
  }
  run.Check((fp == nullptr) == (fail != 0), "value", "creation %s", fp ? "not refused" : "refused");
  Peer peer{ref::Tls13Half(a, is, 0), {}, {}, false};
  ref::Tls13Half out(a, os, 0);
  Kept kept;
  std::string shape;
  auto give = [pool](Iovec v) { pool->Give(v.iov_base); };
  auto release = [](Iovec v) { free(v.iov_base); };
  if (fp) shape = UseProtector(run, rng, scope, fp.get(), &peer, &out, &kept, 3 + rng.Below(12), give, release);
  kept.Check(run);
  { In in(scope); fp.reset(); }
  kept.Check(run);
  run.Check(refused.ToString() == (fail ? refused_then : "OK"), "kept", "the status of a refused creation changed");
  CheckSends(run, url, id.text, peer.tickets);
  const bool taken = !Sends().empty() && g_take;
  Sends().clear();
  run.Check(LifeFactory::Live() == 0, "released", "%ld channel factories still alive", LifeFactory::Live());
  run.Check(taken || Freed(channel_options), "released", "the channel options were not released");
  run.Check(scope.bad.empty(), "callback", "%s", scope.bad.c_str());
  run.Check(pool->bad.empty(), "released", "%s", pool->bad.c_str());
  run.Check(pool->mine.empty(), "released", "%zu allocated buffers neither handed out nor released", pool->mine.size());
  run.Check(held.Alive() == nullptr, "released", "what the %s holds outlives the frame protector", held.Alive());
  run.Count("callbacks", static_cast<uint64_t>(scope.calls));
  run.Nontrivial(Fmt("f%s%d", Name(a), fail) + shape);
  LifeFactory::Live() = 0;
}

// ------------------------------------------------------------ the proxy
struct KeptContext {
  std::unique_ptr<S2AContext> c;
  Resp r;
  void Check(Run& run) {
    run.Check(c->ApplicationProtocol() == r.protocol && FromS2A(c->PeerIdentity()) == r.peer && FromS2A(c->LocalIdentity()) == r.result_local && c->PeerCertFingerprint() == r.peer_fp &&
              c->LocalCertFingerprint() == r.local_fp && c->IsHandshakeResumed() == r.resumed, "kept", "a context changed after it was handed out");
    run.Count("results kept");
  }
};
void ProxyLife(Run& run, Rng& rng, size_t c) {
  Scope scope;
  Held held;
  SenderMode(rng);
  Config k = RandomConfig(rng);
  while (k.client && SetOf(k.locals).size() > 1) k.locals.pop_back();
  k.address = UrlText(rng);
  const int fail = rng.Chance(1, 10) ? 1 + static_cast<int>(rng.Below(2)) : 0;
  run.Begin("case %zu: %s proxy, refusal %d", c, k.client ? "client" : "server", fail);
  const void* channel_options;
  std::unique_ptr<S2AProxy> proxy;
  {
    auto logger = held.New(&scope, "logger");
    std::unique_ptr<ChannelOptions> o(new ChannelOptions);
    channel_options = o.get();
    std::unique_ptr<S2AProxy::S2AProxyOptions> po(new S2AProxy::S2AProxyOptions{
        [logger](const std::string&) { logger->Use(); }, k.client, k.protocol, k.target, Options(k),
        std::unique_ptr<FactoryInterface>(new LifeFactory(held.New(&scope, "channel factory"))), std::move(o),
        rng.Chance(1, 6) ? nullptr : std::unique_ptr<AccessTokenManagerInterface>(new LifeManager(held.New(&scope, "token manager")))});
    if (fail == 1) po->options.reset();
    if (fail == 2) po->logger = nullptr;
    { In in(scope); proxy = S2AProxy::Create(*po); }
    Scribble(&po->application_protocol[0], po->application_protocol.size());
    Scribble(&po->target_hostname[0], po->target_hostname.size());
  }
  run.Check((proxy == nullptr) == (fail != 0), "value", "creation %s", proxy ? "not refused" : "refused");
  struct Answer { std::unique_ptr<Buffer> b; std::string want; absl::Status s; std::string s_want; };
  std::vector<Answer> answers;
  auto keep = [&](S2AProxy::ProxyStatus s) {
    Answer a;
    a.want = s.buffer ? Str(*s.buffer) : "";
    a.b = std::move(s.buffer);
    a.s = s.status;
    a.s_want = s.status.ToString();
    answers.push_back(std::move(a));
  };
  auto check_answers = [&] {
    for (auto& a : answers) run.Check((a.b ? Str(*a.b) : "") == a.want && a.s.ToString() == a.s_want, "kept", "an answer of %zu bytes changed after it was handed out", a.want.size());
    run.Count("results kept", answers.size());
  };
  std::vector<KeptContext> contexts;
  std::unique_ptr<S2AFrameProtector> fp;
  ref::Aead a;
  Resp good = GoodResult(rng, &a);
  good.in_seq = good.out_seq = 0;
  std::string shape;
  if (proxy) {
    const std::string hello = Str(rng.Data(rng.Below(300)));
    {
      In in(scope);
      auto s = proxy->GetBytesForS2A(k.client ? nullptr : Buf(hello + "h"));
      if (run.Check(s.status.ok() && s.buffer != nullptr, "value", "no start request: %s", s.status.ToString().c_str())) CheckStart(run, k, Str(*s.buffer), hello + "h");
      keep(std::move(s));
    }
    for (size_t n = rng.Below(5); n; n--) {
      Resp mid;
      mid.frames = Str(rng.Data(rng.Below(400)));
      if (rng.Chance(1, 3)) { mid.has_local = true; mid.local = RandomId(rng); }
      if (rng.Chance(1, 6)) { mid.code = BadCode(rng); mid.details = Text(rng, 80); }
      std::string bytes = rng.Chance(1, 6) ? Str(rng.Data(rng.Below(60))) : mid.Encode(&rng);
      In in(scope);
      keep(proxy->GetBytesForPeer(Buf(bytes)));
      if (rng.Chance(1, 2)) keep(proxy->GetBytesForS2A(Buf(Str(rng.Data(1 + rng.Below(300))))));
      shape += "m";
    }
    if (rng.Chance(7, 8)) {
      In in(scope);
      auto s = proxy->GetBytesForPeer(Buf(good.Encode(&rng)));
      run.Check(s.status.ok() && s.buffer && Str(*s.buffer) == good.frames, "value", "the result is refused or its bytes differ: %s", s.status.ToString().c_str());
      keep(std::move(s));
      shape += "R";
      for (size_t n = rng.Below(3); n; n--) {
        auto v = proxy->GetS2AContext();
        if (run.Check(v.index() == 1 && absl::get<1>(v) != nullptr, "value", "no context")) contexts.push_back({std::move(absl::get<1>(v)), good});
        shape += "c";
      }
      if (rng.Chance(4, 5)) {
        auto r = proxy->CreateFrameProtector();
        if (run.Check(r.ok() && *r, "value", "no frame protector: %s", r.status().ToString().c_str())) fp = std::move(*r);
        shape += "f";
      }
    }
    check_answers();
    // The proxy may go on, or be gone, when what it made is used.
    if (rng.Chance(1, 3)) { In in(scope); keep(proxy->GetBytesForPeer(rng.Chance(1, 2) ? Buf("x") : nullptr)); }
    if (rng.Chance(2, 3)) { In in(scope); proxy.reset(); shape += "x"; }
  }
  check_answers();
  for (auto& x : contexts) x.Check(run);
  Peer peer{ref::Tls13Half(a, Bytes(good.in_key.begin(), good.in_key.end()), 0), {}, {}, false};
  ref::Tls13Half out(a, Bytes(good.out_key.begin(), good.out_key.end()), 0);
  Kept kept;
  auto give = [](Iovec) {};
  auto release = [](Iovec v) { delete[] static_cast<uint8_t*>(v.iov_base); };
  if (fp) shape += UseProtector(run, rng, scope, fp.get(), &peer, &out, &kept, 1 + rng.Below(5), give, release);
  if (rng.Chance(1, 2)) { In in(scope); proxy.reset(); }
  if (fp && rng.Chance(1, 2)) shape += UseProtector(run, rng, scope, fp.get(), &peer, &out, &kept, 1 + rng.Below(3), give, release);
  { In in(scope); fp.reset(); }
  { In in(scope); proxy.reset(); }
  kept.Check(run);
  check_answers();
  for (auto& x : contexts) x.Check(run);
  CheckSends(run, k.address, good.result_local.text, peer.tickets);
  const bool taken = !Sends().empty() && g_take;
  Sends().clear();
  run.Check(LifeFactory::Live() == 0, "released", "%ld channel factories still alive", LifeFactory::Live());
  run.Check(LifeManager::Live() == 0, "released", "%ld token managers still alive", LifeManager::Live());
  run.Check(taken || Freed(channel_options), "released", "the channel options were not released");
  run.Check(scope.bad.empty(), "callback", "%s", scope.bad.c_str());
  run.Check(held.Alive() == nullptr, "released", "what the %s holds outlives the proxy and what it made", held.Alive());
  run.Count("callbacks", static_cast<uint64_t>(scope.calls));
  run.Nontrivial(Fmt("x%d%d%s", k.client, fail, Name(a)) + shape);
  LifeFactory::Live() = LifeManager::Live() = 0;
}

// ------------------------------------------- options, contexts, tickets, keys
void SmallLives(Run& run, Rng& rng, size_t c) {
  const unsigned kind = static_cast<unsigned>(rng.Below(4));
  run.Begin("case %zu: small object of kind %u", c, kind);
  std::string shape;
  if (kind == 0) {  // options, their copies and identities
    Config k = RandomConfig(rng);
    k.address = UrlText(rng);
    std::unique_ptr<S2AOptions> o(new S2AOptions);
    for (auto* list : {&k.locals, &k.targets})
      for (auto& i : *list) {
        Lent<std::string> t(i.text);
        const bool local = list == &k.locals;
        if (i.kind == 1) local ? o->add_local_spiffe_id(*t) : o->add_target_spiffe_id(*t);
        else if (i.kind == 2) local ? o->add_local_hostname(*t) : o->add_target_hostname(*t);
        else local ? o->add_local_uid(*t) : o->add_target_uid(*t);
      }
    { Lent<std::string> t(k.address); o->set_s2a_address(*t); }
    std::vector<std::unique_ptr<S2AOptions>> chain;
    for (size_t n = rng.Below(4); n; n--) { auto copy = o->Copy(); o = std::move(copy); }
    std::multiset<Id> l, t;
    for (auto& i : o->local_identities()) l.insert(FromS2A(i));
    for (auto& i : o->target_identities()) t.insert(FromS2A(i));
    run.Check(l == SetOf(k.locals) && t == SetOf(k.targets) && o->s2a_address() == k.address, "value", "options differ once what they were made of is gone");
    std::vector<Identity> ids;
    for (auto& i : o->local_identities()) ids.push_back(i);
    o.reset();
    std::multiset<Id> after;
    for (auto& i : ids) after.insert(FromS2A(i));
    run.Check(after == l, "kept", "identities differ once their options are gone");
    shape = Fmt("%zu/%zu", k.locals.size(), k.targets.size());
  } else if (kind == 1) {  // contexts
    Resp r = GoodResult(rng);
    const Suite suite = SuiteOf(kAeads[r.suite]);
    std::unique_ptr<S2AContext> x;
    {
      Lent<std::string> p(r.protocol), f1(r.peer_fp), f2(r.local_fp);
      LentId peer(r.peer), local(r.result_local);
      x.reset(new S2AContext(*p, TlsVersion::TLS1_3, suite, *peer, *local, *f1, *f2, r.resumed));
    }
    KeptContext kc{std::move(x), r};
    kc.Check(run);
    std::vector<KeptContext> later;
    std::unique_ptr<Buffer> ser;
    std::string was;
    for (size_t n = 1 + rng.Below(3); n; n--) {
      auto s = kc.c->GetSerializedContext();
      if (!run.Check(s.index() == 1 && absl::get<1>(s), "value", "not serialized")) return;
      ser = std::move(absl::get<1>(s));
      was = Str(*ser);
      kc.c.reset();
      run.Check(Str(*ser) == was, "kept", "serialized bytes differ once their context is gone");
      absl::StatusOr<std::unique_ptr<S2AContext>> y = absl::UnknownError("");
      {
        Lent<std::vector<char>> l(*ser);
        ser.reset();
        y = s2a::s2a_context::GetS2AContextFromSerializedContext(l->data(), l->size());
      }
      if (!run.Check(y.ok() && *y, "value", "not read back: %s", y.status().ToString().c_str())) return;
      kc.c = std::move(*y);
      kc.Check(run);
    }
    shape = r.peer.Show() + r.protocol;
  } else if (kind == 2) {  // handshake messages and the tickets in them
    std::unique_ptr<HandshakeMessageHandler> h(new HandshakeMessageHandler);
    Bytes all;
    std::vector<Bytes> want;
    for (size_t n = rng.Below(6); n; n--) { want.push_back(Msg(4, rng.Data(1 + rng.Below(rng.Chance(1, 5) ? 3000 : 60)))); all = Cat(all, want.back()); }
    for (size_t n : rng.Split(all.size(), 1 + rng.Below(12), false)) {
      Lent<Bytes> l(Bytes(all.begin(), all.begin() + static_cast<long>(n)));
      all.erase(all.begin(), all.begin() + static_cast<long>(n));
      if (n == 0) continue;
      run.Check(h->ProcessHandshakeMessage(l->data(), l->size()).index() == 1, "value", "fragment refused");
      shape += Fmt("%zu,", n);
    }
    auto v = h->GetStoredTickets();
    if (!run.Check(v.index() == 1 && absl::get<1>(v), "value", "no tickets")) return;
    auto tickets = std::move(absl::get<1>(v));
    h.reset();
    std::vector<Bytes> got;
    for (auto& m : *tickets) { Bytes b; for (auto& f : *m) b.insert(b.end(), f->begin(), f->end()); got.push_back(b); }
    run.Check(got == want, "kept", "%zu stored tickets, %zu received, or they differ once the messages and the handler are gone", got.size(), want.size());
    run.Count("results kept", got.size());
  } else {  // half connections and bare AEAD
    ref::Aead a = kAeads[rng.Below(3)];
    Bytes secret = rng.Key(SecretSize(a)), key = rng.Key(ref::KeySize(a));
    std::unique_ptr<S2AHalfConnection> mine, twin;
    {
      Lent<Bytes> l(secret);
      auto v = S2AHalfConnection::Create(SuiteOf(a), 0, *l);
      auto w = S2AHalfConnection::Create(SuiteOf(a), 0, secret);
      if (!run.Check(v.index() == 1 && w.index() == 1, "value", "no half connection")) return;
      mine = std::move(absl::get<1>(v));
      twin = std::move(absl::get<1>(w));
    }
    std::unique_ptr<s2a::aead_crypter::S2AAeadCrypter> aead;
    {
      Lent<Bytes> l(key);
      auto v = a == ref::Aead::kChachaPoly ? s2a::aead_crypter::CreateChachaPolyAeadCrypter(*l) : s2a::aead_crypter::CreateAesGcmAeadCrypter(*l);
      if (!run.Check(v.index() == 1, "value", "no AEAD")) return;
      aead = std::move(absl::get<1>(v));
    }
    ref::Sealer sealer(a, key);
    const bool seal_with_mine = rng.Chance(1, 2);
    for (size_t n = 2 + rng.Below(8); n && !run.TooMany(); n--) {
      Bytes aad = rng.Data(5), pt = rng.Data(rng.Below(300)), nonce = rng.Data(12);
      std::vector<uint8_t> out(pt.size() + 16);
      if (rng.Chance(1, 5)) { run.Check(mine->UpdateKey().ok() && twin->UpdateKey().ok(), "value", "no key update"); shape += "K"; }
      bool ok;
      {
        LentIov la(rng, aad), lp(rng, pt);
        if (seal_with_mine) ok = mine->Encrypt(*la, *lp, {out.data(), out.size()}).GetStatus().ok();
        else { ok = twin->Encrypt(*la, *lp, {out.data(), out.size()}).GetStatus().ok(); }
      }
      Bytes back(pt.size() ? pt.size() : 1);
      {
        LentIov la(rng, aad), lc(rng, out);
        ok = ok && (seal_with_mine ? twin : mine)->Decrypt(*la, *lc, {back.data(), pt.size()}).GetStatus().ok();
      }
      run.Check(ok && std::equal(pt.begin(), pt.end(), back.begin()), "value", "two half connections of one secret disagree once the secret lent to one of them is gone");
      {
        LentIov la(rng, aad), lp(rng, pt);
        Lent<Bytes> ln(nonce);
        ok = aead->Encrypt(*ln, *la, *lp, {out.data(), out.size()}).GetStatus().ok();
      }
      run.Check(ok && out == sealer.Seal(nonce, aad, pt), "value", "the AEAD differs from an independent one once the key lent to it is gone");
      shape += Fmt("%zu,", pt.size());
      run.Count("arguments lent and taken away", 6);
    }
  }
  run.Nontrivial(Fmt("s%u", kind) + shape);
}

void Lives(Run& run, Rng* tape = nullptr) {
  run.Rule("a case is the life of one record layer, frame protector, proxy (with what it made) or smaller object whose arguments are overwritten and freed after each call; "
           "distinct by kind, parameters and operations");
  Rng own(run.seed() * 29 + 38);
  Rng& rng = tape ? *tape : own;
  CASES(c, 3000, 60000) {
    switch (rng.Below(4)) {
      case 0: CrypterLife(run, rng, c); break;
      case 1: ProtectorLife(run, rng, c); break;
      case 2: ProxyLife(run, rng, c); break;
      default: SmallLives(run, rng, c); break;
    }
  }
}
}  // namespace

extern "C" s2a::s2a_ticket_sender::WaitOnTicketSender __wrap__ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE(s2a::s2a_ticket_sender::TicketSenderOptions& o);
extern "C" s2a::s2a_ticket_sender::WaitOnTicketSender __wrap__ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE(s2a::s2a_ticket_sender::TicketSenderOptions& o) { return LifeSender(o); }

int Workload(Run& run) {
  if (run.property() != "C38") return 3;
  Lives(run);
  return 0;
}
void TapeCase(Run& run, Rng& rng) { Lives(run, &rng); }
