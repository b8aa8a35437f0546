// C26 (options and identities are values), C27 (token managers).
#include <stdlib.h>

#include <algorithm>
#include <atomic>
#include <map>
#include <set>
#include <thread>

#include "absl/hash/hash.h"
#include "include/access_token_manager_factory.h"
#include "include/s2a_options.h"
#ifdef FAKE
#include "src/token_manager/fake_access_token_manager.h"
#else
#include "src/token_manager/single_token_access_token_manager.h"
#endif
#include "vh.h"

using s2a::s2a_options::S2AOptions;
using s2a::token_manager::AccessTokenManagerInterface;
using s2a::token_manager::BuildAccessTokenManager;
using vh::Fmt;
using vh::Rng;
using vh::Run;
typedef S2AOptions::Identity Identity;
typedef S2AOptions::IdentityType IT;
typedef S2AOptions::Ciphersuite Suite;
typedef S2AOptions::TlsVersion Ver;

namespace {
struct Id {
  int kind;
  std::string text;
  bool operator<(const Id& o) const { return kind != o.kind ? kind < o.kind : text < o.text; }
  bool operator==(const Id& o) const { return kind == o.kind && text == o.text; }
};
const IT kTypes[] = {IT::NONE, IT::SPIFFE_ID, IT::HOSTNAME, IT::UID};
Id Read(const Identity& i) {
  int k = -1;
  for (int j = 0; j < 4; j++) if (kTypes[j] == i.GetIdentityType()) k = j;
  return {k, i.GetIdentityString()};
}
Identity Make(const Id& i) {
  return i.kind == 1 ? Identity::FromSpiffeId(i.text) : i.kind == 2 ? Identity::FromHostname(i.text) : i.kind == 3 ? Identity::FromUid(i.text) : Identity::GetEmptyIdentity();
}
std::string PlainText(Rng& rng);
// Now and then with a beginning or an end that normalisation would touch.
std::string AnyText(Rng& rng) {
  std::string s = PlainText(rng);
  static const char* const kEnds[] = {"/", "//", ".", "..", " ", "\n", "\t", "\r\n", ":", ":443", "A", "Z", "%20", "\0", "dns:///", "\xc3\x84", "*"};
  if (rng.Chance(1, 4)) { const char* e = kEnds[rng.Below(17)]; s += *e ? std::string(e) : std::string(1, '\0'); }
  if (rng.Chance(1, 8)) { const char* e = kEnds[rng.Below(17)]; s = (*e ? std::string(e) : std::string(1, '\0')) + s; }
  return s;
}
std::string PlainText(Rng& rng) {
  std::string s;
  uint64_t c;
  if (rng.FromCode(20000, 12, &c)) return std::string(c, 'y');
  if (rng.Chance(1, 12)) { s = rng.CodeText(); if (!s.empty()) return s; }
  switch (rng.Below(8)) {
    case 0: return "";
    case 1: s = std::string("a\0b", 3); break;
    case 2: { size_t n = rng.Range(1, 300); while (n--) s.push_back(static_cast<char>(rng.U64())); break; }
    case 3: s = std::string(rng.Range(10, 40), 'x'); break;
    case 4: s = std::string(rng.Range(2000, 70000), static_cast<char>('a' + rng.Below(26))); break;
    default: { size_t n = rng.Range(1, 5); while (n--) s.push_back(static_cast<char>('a' + rng.Below(3))); break; }
  }
  return s;
}
std::string Show(const std::string& s) { return s.size() < 24 ? vh::Hex(reinterpret_cast<const uint8_t*>(s.data()), s.size()) : Fmt("(%zu bytes)", s.size()); }

// ------------------------------------------------------------------- C26
struct Model {
  Ver min = Ver::TLS1_3, max = Ver::TLS1_3;
  std::string address;
  std::vector<Suite> suites;
  std::set<Id> local, target;
};
std::set<Id> Set(const absl::flat_hash_set<Identity>& s, size_t* n) {
  std::set<Id> o;
  *n = 0;
  for (auto& i : s) { o.insert(Read(i)); ++*n; }
  return o;
}
std::string Differs(const S2AOptions& o, const Model& m) {
  if (o.min_tls_version() != m.min) return "minimum TLS version";
  if (o.max_tls_version() != m.max) return "maximum TLS version";
  if (o.s2a_address() != m.address) return "S2A address";
  if (o.supported_ciphersuites() != m.suites) return "ciphersuites";
  size_t n;
  if (Set(o.local_identities(), &n) != m.local || n != m.local.size()) return "local identities";
  if (Set(o.target_identities(), &n) != m.target || n != m.target.size()) return "target identities";
  for (auto& i : m.local) if (!o.local_identities().contains(Make(i))) return "lookup in local identities";
  for (auto& i : m.target) if (!o.target_identities().contains(Make(i))) return "lookup in target identities";
  if (o.local_identities().contains(Make({2, "never added"}))) return "lookup of an identity never added";
  return "";
}
void CheckOptions(Run& run, Rng* tape = nullptr) {
  Rng own(run.seed() * 26);
  Rng& rng = tape ? *tape : own;
  CASES(h, 1500, 20000) {
    struct Obj { std::unique_ptr<S2AOptions> o; Model m; };
    std::vector<Obj> objs(1);
    objs[0].o.reset(new S2AOptions);
    std::string trace;
    std::vector<Id> pool;
    size_t steps = rng.Range(1, rng.Chance(1, 20) ? 400 : 40), max_objs = rng.Range(1, 6);
    // Some histories are dominated by one kind of operation.
    int bias = static_cast<int>(rng.Below(14));
    run.Begin("options history %zu", h);
    std::string bad = Differs(*objs[0].o, objs[0].m);
    run.Check(bad.empty(), "options", "new options differ from the documented default in: %s", bad.c_str());
    for (size_t s = 0; s < steps && !(tape && rng.Dry()); s++) {
      size_t which = rng.Below(objs.size());
      Obj& x = objs[which];
      int op = rng.Chance(1, 3) ? bias : static_cast<int>(rng.Below(14));
      std::string text = !pool.empty() && rng.Chance(1, 3) ? pool[rng.Below(pool.size())].text : AnyText(rng);
      switch (op) {
        case 0: x.m.min = rng.Chance(1, 2) ? Ver::TLS1_2 : Ver::TLS1_3; x.o->set_min_tls_version(x.m.min); break;
        case 1: x.m.max = rng.Chance(1, 2) ? Ver::TLS1_2 : Ver::TLS1_3; x.o->set_max_tls_version(x.m.max); break;
        case 2: x.m.address = text; x.o->set_s2a_address(text); break;
        case 3: { Suite c = static_cast<Suite>(rng.Below(3)); x.m.suites.push_back(c); x.o->add_supported_ciphersuite(c); break; }
        case 4: x.m.local.insert({1, text}); pool.push_back({1, text}); x.o->add_local_spiffe_id(text); break;
        case 5: x.m.local.insert({2, text}); pool.push_back({2, text}); x.o->add_local_hostname(text); break;
        case 6: x.m.local.insert({3, text}); pool.push_back({3, text}); x.o->add_local_uid(text); break;
        case 7: x.m.target.insert({1, text}); pool.push_back({1, text}); x.o->add_target_spiffe_id(text); break;
        case 8: x.m.target.insert({2, text}); pool.push_back({2, text}); x.o->add_target_hostname(text); break;
        case 9: x.m.target.insert({3, text}); pool.push_back({3, text}); x.o->add_target_uid(text); break;
        case 10: case 11: {
          Obj n;
          n.o = x.o->Copy();
          n.m = x.m;
          if (n.o == nullptr) { run.Check(false, "copy", "Copy() gave no object"); return; }
          run.Count("copies");
          if (objs.size() < max_objs) objs.push_back(std::move(n));
          else { size_t to = rng.Below(objs.size()); objs[to] = std::move(n); which = to; }
          break;
        }
        case 12:
          if (objs.size() > 1) { objs.erase(objs.begin() + static_cast<long>(which)); run.Count("destroyed"); which = 0; }
          break;
        default: {
          // Copy a copy, then drop the middle one.
          Obj n;
          n.o = x.o->Copy()->Copy();
          n.m = x.m;
          objs[which] = std::move(n);
          break;
        }
      }
      trace += Fmt("%d@%zu ", op, which);
      run.Count("operations");
      // Every object, not only the one just changed.
      for (size_t i = 0; i < objs.size(); i++) {
        bad = Differs(*objs[i].o, objs[i].m);
        if (!run.Check(bad.empty(), "options", "after [%s] object %zu differs from what was set in: %s (text %s)", trace.c_str(), i, bad.c_str(), Show(text).c_str())) return;
      }
    }
    run.Nontrivial(trace + Fmt("/%zu", h));
    if (h < 3) run.Sample("operations " + trace.substr(0, 200));
  }
}
void CheckIdentities(Run& run) {
  Rng rng(run.seed() * 2627);
  absl::Hash<Identity> hash;
  size_t rounds = run.N(60, 600);
  for (size_t r = 0; r < rounds && !run.TooMany(); r++) {
    std::vector<Id> ids = {{0, ""}};
    for (int k = 1; k < 4; k++) ids.push_back({k, ""});
    while (ids.size() < 40) {
      std::string t = AnyText(rng);
      ids.push_back({1 + static_cast<int>(rng.Below(3)), t});
      if (rng.Chance(1, 2)) ids.push_back({1 + static_cast<int>(rng.Below(3)), t});
      // Nearly equal texts.
      if (!t.empty() && rng.Chance(1, 2)) { t[rng.Below(t.size())] ^= 1; ids.push_back({1 + static_cast<int>(rng.Below(3)), t}); }
      if (!t.empty() && rng.Chance(1, 3)) { t.pop_back(); ids.push_back({ids.back().kind, t}); }
      if (rng.Chance(1, 4)) { t.push_back('\0'); ids.push_back({ids.back().kind, t}); }
      for (char& c : t) if (c >= 'a' && c <= 'z') c = static_cast<char>(c - 32);
      if (rng.Chance(1, 3)) ids.push_back({ids.back().kind, t});
    }
    std::vector<Identity> made;
    for (auto& i : ids) {
      // The source string is gone afterwards.
      std::unique_ptr<std::string> t(new std::string(i.text));
      made.push_back(i.kind == 1 ? Identity::FromSpiffeId(*t) : i.kind == 2 ? Identity::FromHostname(*t) : i.kind == 3 ? Identity::FromUid(*t) : Identity::GetEmptyIdentity());
      t->assign(t->size(), '#');
    }
    for (size_t a = 0; a < ids.size(); a++) {
      run.Begin("identity round %zu: kind %d text %s", r, ids[a].kind, Show(ids[a].text).c_str());
      run.Nontrivial(Fmt("%d:", ids[a].kind) + ids[a].text);
      const Identity& x = made[a];
      run.Check(Read(x) == ids[a], "identity", "kind or text is not the given one (kind %d, text %s)", Read(x).kind, Show(Read(x).text).c_str());
      run.Check(std::string(x.GetIdentityCString()) == std::string(ids[a].text.c_str()), "identity", "the C string is not the text");
      Identity copy(x), assigned(Identity::GetEmptyIdentity());
      assigned = x;
      run.Check(Read(copy) == ids[a] && Read(assigned) == ids[a], "identity", "a copy differs");
      run.Check(copy == x && x == copy && assigned == x && hash(copy) == hash(x) && hash(assigned) == hash(x), "identity", "a copy does not compare or hash equal");
      Identity& self = assigned;
      assigned = self;
      run.Check(Read(assigned) == ids[a], "identity", "self-assignment changes an identity");
      // Assigning to a copy leaves the original alone.
      size_t other = rng.Below(ids.size());
      copy = made[other];
      run.Check(Read(x) == ids[a] && Read(copy) == ids[other], "identity", "assigning to a copy changes the original");
      for (size_t b = 0; b < ids.size(); b++) {
        bool eq = ids[a] == ids[b];
        if ((x == made[b]) != eq) { run.Check(false, "identity-equality", "compares %s to kind %d text %s", eq ? "unequal" : "equal", ids[b].kind, Show(ids[b].text).c_str()); break; }
        if (eq && hash(x) != hash(made[b])) { run.Check(false, "identity-hash", "equal identities hash differently"); break; }
        run.Count("pairs compared");
      }
    }
  }
}

// ------------------------------------------------------------------- C27
const char kVar[] = "S2A_ACCESS_TOKEN";
std::string Token(Rng& rng) {
  std::string s;
  switch (rng.Below(6)) {
    case 0: return "";
    case 1: return std::string(rng.Range(1, 3), 't');
    case 2: { size_t n = rng.Range(1, 400); while (n--) s.push_back(static_cast<char>(1 + rng.Below(255))); return s; }
    case 3: return " leading and trailing \n";
    case 4: return std::string(rng.Range(1000, 120000), static_cast<char>('A' + rng.Below(26))) + "end";
    default: return Fmt("token-%llx=%%s", static_cast<unsigned long long>(rng.U64()));
  }
}
#ifndef FAKE
typedef std::unique_ptr<AccessTokenManagerInterface> Mgr;
struct Want { bool set; std::string token; };
std::string Ask(AccessTokenManagerInterface* m, const Want& w, const Id* id) {
  absl::StatusOr<std::string> t = id ? m->GetToken(Make(*id)) : m->GetDefaultToken();
  if (w.set) {
    if (!t.ok()) return "no token although the variable was set at creation: " + t.status().ToString();
    if (*t != w.token) return Fmt("the token is not the one at creation (%zu bytes instead of %zu)", t->size(), w.token.size());
    (*t)[0 < t->size() ? 0 : 0] = '!';  // the answer belongs to the caller
  } else {
    if (t.ok()) return "a token although the variable was not set at creation";
    if (t.status().code() != absl::StatusCode::kNotFound) return "an unset variable is not reported as not found but as " + t.status().ToString();
  }
  return "";
}
void CheckSingle(Run& run) {
  Rng rng(run.seed() * 27);
  size_t histories = run.N(1500, 15000);
  for (size_t h = 0; h < histories && !run.TooMany(); h++) {
    struct Live { Mgr m; Want w; };
    std::vector<Live> live;
    Want now{false, ""};
    unsetenv(kVar);
    std::string trace;
    size_t steps = rng.Range(3, 30);
    for (size_t s = 0; s < steps; s++) {
      switch (rng.Below(5)) {
        case 0: now.set = false; unsetenv(kVar); trace += "unset "; break;
        case 1: case 2: now.set = true; now.token = Token(rng); setenv(kVar, now.token.c_str(), 1); trace += Fmt("set(%zu) ", now.token.size()); break;
        case 3:
          // Overwrite the value in place, as putenv users do.
          if (now.set && !now.token.empty()) { char* e = getenv(kVar); if (e) { size_t at = rng.Below(now.token.size()); e[at] = now.token[at] = 'Z'; trace += "scribble "; } }
          break;
        default: {
          Live l;
          l.w = now;
          if (rng.Chance(1, 2)) l.m.reset(new s2a::token_manager::SingleTokenAccessTokenManager);
          else {
            auto b = BuildAccessTokenManager();
            if (!run.Check(b.ok() && *b != nullptr, "build", "after [%s] no manager was built", trace.c_str())) return;
            l.m = std::move(*b);
          }
          trace += "create ";
          if (live.size() < 4) live.push_back(std::move(l));
          else live[rng.Below(4)] = std::move(l);
        }
      }
      run.Begin("token history %zu step %zu: %s", h, s, trace.c_str());
      for (size_t i = 0; i < live.size(); i++) {
        Id id{static_cast<int>(rng.Below(4)), AnyText(rng)};
        std::string bad = Ask(live[i].m.get(), live[i].w, nullptr);
        run.Check(bad.empty(), "default-token", "manager %zu: %s", i, bad.c_str());
        bad = Ask(live[i].m.get(), live[i].w, &id);
        run.Check(bad.empty(), "identity-token", "manager %zu, identity kind %d %s: %s", i, id.kind, Show(id.text).c_str(), bad.c_str());
        run.Count("tokens asked", 2);
      }
    }
    run.Nontrivial(trace + Fmt("/%zu", h));
    if (h < 3) run.Sample(trace);
    unsetenv(kVar);
  }
}
void Threads(Run& run) {
  Rng rng(run.seed() * 2727);
  size_t rounds = run.N(60, 800);
  for (size_t r = 0; r < rounds && !run.TooMany(); r++) {
    Want w{rng.Chance(4, 5), Token(rng)};
    if (w.set) setenv(kVar, w.token.c_str(), 1); else unsetenv(kVar);
    run.Begin("token threads round %zu: %s, %zu bytes", r, w.set ? "set" : "unset", w.token.size());
    auto shared = BuildAccessTokenManager();
    if (!run.Check(shared.ok() && *shared != nullptr, "build", "no manager was built")) return;
    int n = static_cast<int>(rng.Range(2, 8));
    std::vector<std::string> bad(static_cast<size_t>(n));
    std::vector<std::thread> th;
    std::atomic<int> go{0};
    uint64_t seed = rng.U64();
    for (int t = 0; t < n; t++) th.emplace_back([&, t] {
      Rng mine(seed + static_cast<uint64_t>(t));
      go.fetch_add(1, std::memory_order_relaxed);
      while (go.load(std::memory_order_relaxed) < n) sched_yield();
      for (int i = 0; i < 40; i++) {
        Id id{static_cast<int>(mine.Below(4)), Fmt("id-%d-%d", t, i)};
        std::string b = Ask(shared->get(), w, mine.Chance(1, 2) ? &id : nullptr);
        if (b.empty() && i % 8 == 0) {
          auto own = BuildAccessTokenManager();
          b = own.ok() && *own ? Ask(own->get(), w, &id) : "building concurrently failed";
        }
        if (!b.empty()) { bad[static_cast<size_t>(t)] = b; return; }
      }
    });
    for (auto& t : th) t.join();
    for (auto& b : bad) run.Check(b.empty(), "threads", "%d threads: %s", n, b.c_str());
    run.Count("concurrent requests", static_cast<uint64_t>(n) * 40);
    run.Nontrivial(Fmt("t%zu/%d", r, n));
  }
  unsetenv(kVar);
}
#else
void CheckFake(Run& run) {
  Rng rng(run.seed() * 2728);
  const std::string want = s2a::token_manager::testing::kFakeS2AAccessToken;
  size_t n = run.N(2000, 20000);
  for (size_t i = 0; i < n && !run.TooMany(); i++) {
    if (rng.Chance(1, 2)) setenv(kVar, "something else", 1); else unsetenv(kVar);
    Id id{static_cast<int>(rng.Below(4)), AnyText(rng)};
    run.Begin("fake manager %zu: kind %d %s", i, id.kind, Show(id.text).c_str());
    auto b = BuildAccessTokenManager();
    if (!run.Check(b.ok() && *b, "build", "no manager was built")) return;
    auto d = (*b)->GetDefaultToken();
    auto t = (*b)->GetToken(Make(id));
    run.Check(d.ok() && *d == want && t.ok() && *t == want, "fake", "the fake manager does not return its fixed token");
    run.Nontrivial(id.text + Fmt("%d", id.kind));
  }
}
#endif
}  // namespace

int Workload(Run& run) {
  const std::string& p = run.property();
  if (p == "C26") {
    run.Rule("an evaluation is one history of option operations (every live object compared with a value model after each) or one identity compared with all others of its round; "
             "distinct: histories and identities by content");
    CheckOptions(run);
    CheckIdentities(run);
  } else if (p == "C27") {
#ifdef FAKE
    run.Rule("an evaluation is one fake manager asked for the default and one identity's token; distinct by identity");
    CheckFake(run);
#else
    run.Rule("an evaluation is one step of a history of environment changes and manager creations after which every live manager is asked, or one round of concurrent requests; distinct by history");
    if (run.Arg("part") != "threads") CheckSingle(run);
    Threads(run);
#endif
  } else {
    fprintf(stderr, "unknown property %s\n", p.c_str());
    return 3;
  }
  return 0;
}

// One history of option operations (or one of identity comparisons), every choice taken from the tape.
void TapeCase(Run& run, Rng& rng) { CheckOptions(run, &rng); }
