// AEAD, HKDF and SSL error queue workloads: C01 C02 C03 C04 C05 C06 C28 C29.
#include <openssl/err.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <thread>

#include "absl/status/status.h"
#include "absl/types/variant.h"
#include "ref.h"
#include "src/crypto/hkdf.h"
#include "src/crypto/s2a_aead_crypter.h"
#include "src/crypto/s2a_aead_crypter_util.h"
#include "vh.h"
#include "wrap_ssl.h"

using s2a::aead_crypter::Iovec;
using s2a::aead_crypter::S2AAeadCrypter;
using vh::Bytes;
using vh::Fmt;
using vh::Guard;
using vh::Rng;
using vh::Run;

namespace {
const size_t kTag = 16, kNonce = 12;
const ref::Aead kAll[] = {ref::Aead::kAes128Gcm, ref::Aead::kAes256Gcm, ref::Aead::kChachaPoly};
const char* Name(ref::Aead a) {
  return a == ref::Aead::kAes128Gcm ? "aes128gcm" : a == ref::Aead::kAes256Gcm ? "aes256gcm" : "chachapoly";
}

std::unique_ptr<S2AAeadCrypter> TryMake(ref::Aead a, const Bytes& key, absl::Status* st = nullptr) {
  auto v = a == ref::Aead::kChachaPoly ? s2a::aead_crypter::CreateChachaPolyAeadCrypter(key)
                                       : s2a::aead_crypter::CreateAesGcmAeadCrypter(key);
  if (v.index() == 0) {
    if (st) *st = absl::get<0>(v);
    return nullptr;
  }
  return std::move(absl::get<1>(v));
}

// A scatter-gather list over separately allocated pieces.  Pieces alternate
// between guard pages (which catch the SSL library too) and exact heap blocks
// (which ASan watches).
struct Vec {
  std::vector<Iovec> iov;
  std::vector<Guard> guards;
  std::vector<std::unique_ptr<uint8_t[]>> heap;
  Bytes orig;
  std::vector<size_t> lens;
  void Build(const Bytes& data, const std::vector<size_t>& split, unsigned salt) {
    orig = data;
    lens = split;
    size_t off = 0;
    // Sometimes all pieces are slices of one buffer; pieces of equal content
    // may be one and the same memory (a caller repeating a buffer).
    const bool slices = salt % 11 == 7, share = salt % 2 == 0;
    if (slices) guards.emplace_back(data, salt % 3 == 0);
    for (size_t k = 0; k < split.size(); k++) {
      size_t n = split[k];
      if (slices) { iov.push_back({guards.back().data() + off, n}); off += n; continue; }
      bool shared = false;
      for (size_t j = k < 12 ? 0 : k - 12; share && n && j < k && !shared; j++) {
        if (iov[j].iov_len != n || memcmp(iov[j].iov_base, data.data() + off, n)) continue;
        iov.push_back(iov[j]);
        shared = true;
      }
      if (shared) { off += n; continue; }
      unsigned how = (salt + static_cast<unsigned>(k)) % 4;
      if (n == 0 && how < 2) {
        iov.push_back({nullptr, 0});
      } else if (how % 2 == 0) {
        guards.emplace_back(Bytes(data.begin() + off, data.begin() + off + n), how == 0);
        iov.push_back({guards.back().data(), n});
      } else {
        heap.emplace_back(new uint8_t[n]);
        if (n) memcpy(heap.back().get(), data.data() + off, n);
        iov.push_back({heap.back().get(), n});
      }
      off += n;
    }
  }
  bool Unchanged() const {
    size_t off = 0;
    for (auto& v : iov) {
      if (v.iov_len && (v.iov_base == nullptr || memcmp(v.iov_base, orig.data() + off, v.iov_len))) return false;
      off += v.iov_len;
    }
    return true;
  }
};
std::string Show(const std::vector<size_t>& s) {
  std::string o = "[";
  for (size_t i = 0; i < s.size() && i < 24; i++) o += Fmt(i ? ",%zu" : "%zu", s[i]);
  if (s.size() > 24) o += Fmt(",..%zu pieces", s.size());
  return o + "]";
}

struct Box {
  ref::Aead a;
  Bytes key;
  std::unique_ptr<S2AAeadCrypter> c;
  std::unique_ptr<ref::Sealer> r;
};
Box MakeBox(Run& run, ref::Aead a, const Bytes& key) {
  Box b;
  b.a = a;
  b.key = key;
  b.c = TryMake(a, key);
  b.r.reset(new ref::Sealer(a, key));
  run.Check(b.c != nullptr, "create", "crypter creation failed for a %zu-byte key", key.size());
  return b;
}

// One encryption, judged against the reference.  slack: extra output room.
bool EncOnce(Run& run, Box& b, const Bytes& nonce, const Bytes& aad, const std::vector<size_t>& as, const Bytes& pt,
             const std::vector<size_t>& ps, size_t slack, unsigned salt) {
  run.Begin("%s encrypt aad=%s pt=%s slack=%zu nonce=%s key=%s", Name(b.a), Show(as).c_str(), Show(ps).c_str(), slack,
            vh::Hex(nonce).c_str(), vh::Hex(b.key).c_str());
  Vec va, vp;
  va.Build(aad, as, salt);
  vp.Build(pt, ps, salt / 3);
  Bytes want = b.r->Seal(nonce, aad, pt);
  Guard out(want.size() + slack, (salt & 1) == 0);
  out.Fill(0x5A);
  auto s = b.c->Encrypt(nonce, va.iov, vp.iov, {out.data(), out.size()});
  bool ok = run.Check(s.GetStatus().ok(), "encrypt-failed", "valid encryption rejected: %s",
                      s.GetStatus().ToString().c_str());
  if (!ok) return false;
  ok &= run.Check(s.GetBytesWritten() == want.size(), "encrypt-length", "wrote %zu bytes, the standard has %zu",
                  s.GetBytesWritten(), want.size());
  ok &= run.Check(memcmp(out.data(), want.data(), want.size()) == 0, "encrypt-bytes", "ciphertext differs from the standard");
  for (size_t i = 0; i < slack; i++)
    if (out.data()[want.size() + i] != 0x5A) {
      ok &= run.Check(false, "encrypt-spill", "output byte %zu past the result was written", i);
      break;
    }
  ok &= run.Check(out.CanaryOk(), "encrypt-canary", "memory before/after the output buffer was written");
  ok &= run.Check(va.Unchanged() && vp.Unchanged(), "encrypt-input", "an input buffer was modified");
  return ok;
}
bool DecOnce(Run& run, Box& b, const Bytes& nonce, const Bytes& aad, const std::vector<size_t>& as, const Bytes& pt,
             const Bytes& ct, const std::vector<size_t>& cs, size_t slack, unsigned salt) {
  run.Begin("%s decrypt aad=%s ct=%s slack=%zu nonce=%s key=%s", Name(b.a), Show(as).c_str(), Show(cs).c_str(), slack,
            vh::Hex(nonce).c_str(), vh::Hex(b.key).c_str());
  Vec va, vc;
  va.Build(aad, as, salt);
  vc.Build(ct, cs, salt / 3);
  Guard out(pt.size() + slack, (salt & 1) == 0);
  out.Fill(0x5A);
  // Nothing to write: a buffer without an address will do.
  auto s = b.c->Decrypt(nonce, va.iov, vc.iov, {out.size() == 0 && salt % 3 == 0 ? nullptr : out.data(), out.size()});
  bool ok = run.Check(s.GetStatus().ok(), "decrypt-failed", "authentic ciphertext rejected: %s",
                      s.GetStatus().ToString().c_str());
  if (!ok) return false;
  ok &= run.Check(s.GetBytesWritten() == pt.size(), "decrypt-length", "wrote %zu bytes, the plaintext has %zu",
                  s.GetBytesWritten(), pt.size());
  ok &= run.Check(pt.empty() || memcmp(out.data(), pt.data(), pt.size()) == 0, "decrypt-bytes", "plaintext differs");
  for (size_t i = 0; i < slack; i++)
    if (out.data()[pt.size() + i] != 0x5A) {
      ok &= run.Check(false, "decrypt-spill", "output byte %zu past the result was written", i);
      break;
    }
  ok &= run.Check(out.CanaryOk(), "decrypt-canary", "memory before/after the output buffer was written");
  ok &= run.Check(va.Unchanged() && vc.Unchanged(), "decrypt-input", "an input buffer was modified");
  return ok;
}

// Lists made of one chunk over and over (between other pieces now and then).
// With an even salt the repetitions are one and the same memory.
void Repeated(Run& run, Box& b, Rng& rng, unsigned salt) {
  Bytes nonce = rng.Data(kNonce), chunk = rng.Data(1 + rng.Len(rng.Chance(1, 8) ? 3000 : 60));
  auto list = [&](std::vector<size_t>* cut) {
    Bytes d;
    for (size_t k = rng.Below(7); k > 0; k--) {
      bool other = rng.Chance(1, 4);
      Bytes x = other ? rng.Data(rng.Below(20)) : chunk;
      d.insert(d.end(), x.begin(), x.end());
      cut->push_back(x.size());
    }
    return d;
  };
  std::vector<size_t> as, ps, cs;
  Bytes aad = list(&as), pt = list(&ps), ct = list(&cs);
  EncOnce(run, b, nonce, aad, as, pt, ps, 0, salt);
  // A ciphertext of that shape: what is encrypted to it, then its tag.
  Bytes x = b.r->Seal(nonce, aad, ct);
  x.resize(ct.size());
  Bytes full = b.r->Seal(nonce, aad, x);
  for (size_t t : rng.Split(kTag, 4)) cs.push_back(t);
  DecOnce(run, b, nonce, aad, as, x, full, cs, rng.Below(2), salt);
  // One list as AAD and plaintext at once.
  Vec v;
  v.Build(pt, ps, salt);
  Bytes want = b.r->Seal(nonce, pt, pt);
  Guard out(want.size(), true);
  auto s = b.c->Encrypt(nonce, v.iov, v.iov, {out.data(), out.size()});
  run.Check(s.GetStatus().ok() && s.GetBytesWritten() == want.size() && memcmp(out.data(), want.data(), want.size()) == 0, "encrypt-bytes",
            "one list %s as AAD and as plaintext: ciphertext differs from the standard", Show(ps).c_str());
  run.Check(v.Unchanged() && out.CanaryOk(), "encrypt-input", "an input or the surroundings of the output were modified");
  run.Count("repeated_buffers");
  run.Nontrivial(Fmt("rep%d%s%s%s%u", static_cast<int>(b.a), Show(as).c_str(), Show(ps).c_str(), Show(cs).c_str(), salt % 2));
}

// A call with some arguments malformed (or none): refused exactly if one is,
// with nothing reported or written outside, and right otherwise.
void Malformed(Run& run, Box& b, Rng& rng, unsigned salt) {
  size_t n = rng.Len(rng.Chance(1, 8) ? 20000 : 300);
  Bytes nonce = rng.Data(rng.Chance(1, 6) ? rng.Below(70) : kNonce), aad = rng.Data(rng.Len(60)), pt = rng.Data(n);
  bool enc = rng.Chance(1, 2), bad = nonce.size() != kNonce;
  Bytes in = pt, want;
  if (!bad) { want = b.r->Seal(nonce, aad, pt); if (!enc) { in = want; want = pt; } }
  else want.resize(enc ? n + kTag : n);
  if (!enc && rng.Chance(1, 8)) { in.resize(rng.Below(kTag)); bad = true; }  // shorter than a tag
  else if (!enc && bad) in = rng.Data(n + kTag);
  auto as = rng.Split(aad.size(), 6), is = rng.Split(in.size(), rng.Chance(1, 3) ? 30 : 6);
  size_t out_len = want.size();
  switch (rng.Below(4)) {
    case 0: out_len += rng.Below(40); break;
    case 1: if (out_len) { out_len = rng.Chance(1, 2) ? rng.Below(out_len) : out_len - 1 - rng.Below(std::min<size_t>(out_len, 20)); bad = true; } break;
    default: break;
  }
  Vec va, vi;
  va.Build(aad, as, salt);
  vi.Build(in, is, salt / 3);
  bool null = false;
  if (rng.Chance(1, 3)) {
    auto& l = rng.Chance(1, 3) ? va.iov : vi.iov;
    if (!l.empty()) {
      size_t k = rng.Below(l.size());
      if (l[k].iov_len) { l[k].iov_base = nullptr; null = bad = true; }
    }
  }
  run.Begin("%s %s aad=%s in=%s nonce=%zu out=%zu of %zu%s%s", Name(b.a), enc ? "encrypt" : "decrypt", Show(as).c_str(), Show(is).c_str(), nonce.size(), out_len, want.size(),
            null ? " null piece" : "", bad ? " (malformed)" : "");
  Guard out(out_len, (salt & 1) == 0);
  out.Fill(0x5A);
  auto s = enc ? b.c->Encrypt(nonce, va.iov, vi.iov, {out.data(), out_len}) : b.c->Decrypt(nonce, va.iov, vi.iov, {out.data(), out_len});
  if (bad) {
    run.Check(!s.GetStatus().ok(), "malformed-accepted", "success although an argument is malformed");
    run.Check(s.GetStatus().ok() || s.GetBytesWritten() == 0, "failure-length", "a failed call reports %zu bytes written", s.GetBytesWritten());
    run.Count("malformed_refused");
  } else {
    run.Check(s.GetStatus().ok() && s.GetBytesWritten() == want.size(), "not-reusable", "a valid call failed: %s, %zu of %zu bytes", s.GetStatus().ToString().c_str(), s.GetBytesWritten(), want.size());
    run.Check(want.empty() || memcmp(out.data(), want.data(), want.size()) == 0, "not-reusable", "a valid call gave other bytes than the standard");
    run.Count("valid_calls_between");
  }
  run.Check(out.CanaryOk(), "overrun", "wrote outside a %zu-byte output", out_len);
  if (!null) run.Check(va.Unchanged() && vi.Unchanged(), "input", "an input was modified");
  run.Nontrivial(Fmt("m%d%d%d/%s%s/%zu", static_cast<int>(b.a), enc, bad, Show(as).c_str(), Show(is).c_str(), out_len));
}

// ---------------------------------------------------------------- C01
void Standard(Run& run) {
  run.Rule("a case is one encryption or decryption compared with an independent AES-GCM/ChaCha20-Poly1305; distinct "
           "by cipher, direction, lengths and segmentation; single-buffer empty-AAD empty-plaintext cases are trivial");
  Rng rng(run.seed() * 77 + 1);
  unsigned salt = 0;
  for (ref::Aead a : kAll) {
    Box b = MakeBox(run, a, rng.Key(ref::KeySize(a)));
    if (!b.c) return;
    run.Check(b.c->KeyLength() == ref::KeySize(a) && b.c->NonceLength() == kNonce && b.c->TagLength() == kTag, "sizes",
              "%s reports key %zu nonce %zu tag %zu", Name(a), b.c->KeyLength(), b.c->NonceLength(), b.c->TagLength());
    for (size_t n : {size_t{0}, size_t{1}, size_t{16}, size_t{16384}, size_t{1} << 33}) {
      run.Check(b.c->MaxCiphertextAndTagLength(n) == n + kTag && b.c->MaxPlaintextLength(n + kTag) == n, "sizes",
                "%s length computations are wrong for %zu", Name(a), n);
    }
    auto note = [&](const char* d, const std::vector<size_t>& x, const std::vector<size_t>& y) {
      run.Nontrivial(Fmt("%d%s%s/%s", static_cast<int>(a), d, Show(x).c_str(), Show(y).c_str()));
    };
    // Exhaustive: every way to cut ciphertext||tag (16..max) and plaintext/AAD into three pieces.
    size_t max3 = run.N(40, 72);
    for (size_t n = 0; n + kTag <= max3 && !run.TooMany(); n++) {
      Bytes nonce = rng.Data(kNonce), aad = rng.Data(rng.Below(9)), pt = rng.Data(n);
      Bytes ct = b.r->Seal(nonce, aad, pt);
      std::vector<size_t> as{aad.size()};
      for (size_t i = 0; i <= ct.size(); i++)
        for (size_t j = 0; i + j <= ct.size(); j++) {
          std::vector<size_t> cs{i, j, ct.size() - i - j};
          DecOnce(run, b, nonce, aad, as, pt, ct, cs, (i + j) % 3, salt++);
          note("D3", as, cs);
        }
      for (size_t i = 0; i <= n; i++)
        for (size_t j = 0; i + j <= n; j++) {
          std::vector<size_t> ps{i, j, n - i - j};
          EncOnce(run, b, nonce, aad, as, pt, ps, (i + j) % 3, salt++);
          note("E3", as, ps);
        }
      run.Count("exhaustive_three_piece_totals");
    }
    for (size_t n = 0; n <= run.N(24, 48) && !run.TooMany(); n++) {
      Bytes nonce = rng.Data(kNonce), aad = rng.Data(n), pt = rng.Data(rng.Below(20));
      Bytes ct = b.r->Seal(nonce, aad, pt);
      for (size_t i = 0; i <= n; i++)
        for (size_t j = 0; i + j <= n; j++) {
          std::vector<size_t> as{i, j, n - i - j};
          EncOnce(run, b, nonce, aad, as, pt, {pt.size()}, 0, salt++);
          DecOnce(run, b, nonce, aad, as, pt, ct, {ct.size()}, 0, salt++);
          note("A3", as, {pt.size()});
        }
    }
    // One byte per buffer, with and without empty buffers between.
    for (size_t n = 0; n <= run.N(70, 300) && !run.TooMany(); n += 1 + n / 20) {
      Bytes nonce = rng.Data(kNonce), aad = rng.Data(n / 2), pt = rng.Data(n), ct = b.r->Seal(nonce, aad, pt);
      for (int gap = 0; gap < 2; gap++) {
        auto ones = [&](size_t m) {
          std::vector<size_t> v;
          for (size_t i = 0; i < m; i++) { v.push_back(1); if (gap) v.push_back(0); }
          return v;
        };
        EncOnce(run, b, nonce, aad, ones(aad.size()), pt, ones(n), 0, salt++);
        DecOnce(run, b, nonce, aad, ones(aad.size()), pt, ct, ones(ct.size()), 0, salt++);
        note("1s", ones(aad.size()), ones(n));
      }
    }
    // Every length, in one buffer and randomly cut.
    std::vector<size_t> lens;
    for (size_t n = 0; n <= run.N(600, 3000); n++) lens.push_back(n);
    for (size_t k = 10; k <= run.N(17, 21); k++)
      for (size_t d = 0; d < 7; d++) lens.push_back((size_t{1} << k) - 3 + d);
    for (size_t n : {size_t{16384}, size_t{16401}, size_t{16640}, size_t{65519}, size_t{65520}, size_t{65521}, size_t{100000}}) lens.push_back(n);
    for (size_t n : vh::CodeSizes(200000)) if (n > 600) lens.push_back(n);
    for (size_t n : lens) {
      if (run.TooMany()) break;
      Bytes nonce = rng.Data(kNonce), aad = rng.Data(rng.Chance(1, 3) ? 0 : rng.Len(64)), pt = rng.Data(n);
      if (rng.Chance(1, 12)) nonce.assign(kNonce, static_cast<uint8_t>(rng.Chance(1, 2) ? 0xff : 0));
      Bytes ct = b.r->Seal(nonce, aad, pt);
      auto as = rng.Split(aad.size(), 4), ps = rng.Split(n, 5);
      // Cut the tag region itself, often into three or more pieces.
      std::vector<size_t> cs = rng.Split(n, 3);
      for (size_t t : rng.Split(kTag, 6)) cs.push_back(t);
      if (rng.Chance(1, 2)) cs = rng.Split(ct.size(), 6);
      EncOnce(run, b, nonce, aad, as, pt, ps, rng.Below(40), salt++);
      note("E", as, ps);
      DecOnce(run, b, nonce, aad, as, pt, ct, cs, rng.Below(40), salt++);
      note("D", as, cs);
      EncOnce(run, b, nonce, aad, {aad.size()}, pt, {n}, 0, salt++);
      DecOnce(run, b, nonce, aad, {aad.size()}, pt, ct, {ct.size()}, 0, salt++);
      note("one", {aad.size()}, {n});
      run.Count("lengths");
    }
    // AAD lengths.
    std::vector<size_t> alens;
    for (size_t n = 0; n <= run.N(300, 1200); n++) alens.push_back(n);
    for (size_t k = 9; k <= 17; k++)
      for (size_t d = 0; d < 5; d++) alens.push_back((size_t{1} << k) - 2 + d);
    for (size_t n : {size_t{65279}, size_t{65280}, size_t{65281}}) alens.push_back(n);
    for (size_t n : vh::CodeSizes(200000)) if (n > 300) alens.push_back(n);
    for (size_t n : alens) {
      if (run.TooMany()) break;
      Bytes nonce = rng.Data(kNonce), aad = rng.Data(n), pt = rng.Data(rng.Below(50)), ct = b.r->Seal(nonce, aad, pt);
      auto as = rng.Split(n, 6);
      EncOnce(run, b, nonce, aad, as, pt, rng.Split(pt.size(), 3), 0, salt++);
      DecOnce(run, b, nonce, aad, as, pt, ct, rng.Split(ct.size(), 4), 0, salt++);
      note("aad", as, {pt.size()});
    }
    // The same buffer several times in a list, and in both lists.
    for (size_t i = 0; i < run.N(400, 8000) && !run.TooMany(); i++) Repeated(run, b, rng, salt++);
    // Random keys and segmentations.
    for (size_t i = 0; i < run.N(1500, 30000) && !run.TooMany(); i++) {
      if (i % 20 == 0) { b = MakeBox(run, a, rng.Key(ref::KeySize(a))); if (!b.c) return; }
      size_t n = rng.Len(i % 50 == 0 ? 40000 : 1500);
      Bytes nonce = rng.Data(kNonce), aad = rng.Data(rng.Len(200)), pt = rng.Data(n), ct = b.r->Seal(nonce, aad, pt);
      auto as = rng.Split(aad.size(), 8), ps = rng.Split(n, 40), cs = rng.Split(ct.size(), 40);
      EncOnce(run, b, nonce, aad, as, pt, ps, rng.Below(3), salt++);
      DecOnce(run, b, nonce, aad, as, pt, ct, cs, rng.Below(3), salt++);
      note("rE", as, ps);
      note("rD", as, cs);
      if (i < 2) run.Sample(Fmt("%s aad %s plaintext %s ciphertext+tag %s", Name(a), Show(as).c_str(), Show(ps).c_str(), Show(cs).c_str()));
    }
  }
}

// A decryption that must be refused and must leave no decrypted byte behind.
// `may_pass`: the tampering happens to be authentic (never true in practice).
void MustReject(Run& run, Box& b, const char* what, const Bytes& nonce, const Bytes& aad, const Bytes& ct,
                const std::vector<size_t>& cs, size_t out_len, const Bytes* secret, unsigned salt) {
  run.Begin("%s tamper=%s aad=%zu ct=%s out=%zu", Name(b.a), what, aad.size(), Show(cs).c_str(), out_len);
  Vec va, vc;
  // The AAD cut in various ways too.
  std::vector<size_t> as{aad.size()};
  if (salt % 3 == 1) as = {aad.size() / 2, 0, aad.size() - aad.size() / 2};
  if (salt % 3 == 2 && aad.size() > 2) as = {0, 1, aad.size() - 2, 1};
  va.Build(aad, as, salt);
  vc.Build(ct, cs, salt / 3);
  Guard out(out_len, (salt & 1) == 0);
  // A fill that differs from the true plaintext at every byte, and is not 0.
  Bytes fill(out_len);
  for (size_t i = 0; i < out_len; i++) {
    uint8_t f = static_cast<uint8_t>(0x5A ^ (i & 1));
    if (secret && i < secret->size() && (*secret)[i] == f) f ^= 0x80;
    fill[i] = f;
    out.data()[i] = f;
  }
  auto s = b.c->Decrypt(nonce, va.iov, vc.iov, {out.size() == 0 && salt % 3 == 0 ? nullptr : out.data(), out.size()});
  run.Check(!s.GetStatus().ok(), "forged-accepted", "%s: decryption of inauthentic data reported success", what);
  run.Check(s.GetStatus().ok() || s.GetBytesWritten() == 0, "failure-length", "%s: a failed decryption reports %zu bytes", what, s.GetBytesWritten());
  for (size_t i = 0; i < out_len; i++) {
    if (out.data()[i] != 0 && out.data()[i] != fill[i]) {
      run.Check(false, "plaintext-left", "%s: failed decryption left byte %zu of the output = %02x (was %02x%s)", what, i,
                out.data()[i], fill[i], secret && i < secret->size() && (*secret)[i] == out.data()[i] ? "; it is the plaintext" : "");
      break;
    }
  }
  run.Check(out.CanaryOk(), "canary", "%s: memory around the output buffer was written", what);
  run.Nontrivial(Fmt("%d%s%s%zu/%zu", static_cast<int>(b.a), what, Show(cs).c_str(), aad.size(), out_len));
  run.Count(std::string("rejected_") + what);
}

// ---------------------------------------------------------------- C02
void Authentic(Run& run) {
  run.Rule("a case is one decryption of tampered or misdelivered data; distinct by cipher, kind of tampering, "
           "segmentation and sizes; every case is non-trivial because a valid ciphertext was altered");
  Rng rng(run.seed() * 77 + 2);
  unsigned salt = 0;
  for (ref::Aead a : kAll) {
    std::vector<size_t> sizes{0, 1, 2, 15, 16, 17, 31, 32, 33, 48, 64, 100, 255, 256, 257, 1000, 4096, 16384};
    for (size_t i = 0; i < run.N(10, 100); i++) sizes.push_back(rng.Len(3000));
    for (size_t n : sizes) {
      if (run.TooMany()) return;
      Box b = MakeBox(run, a, rng.Key(ref::KeySize(a)));
      if (!b.c) return;
      Bytes nonce = rng.Data(kNonce), aad = rng.Data(n % 3 == 0 ? 0 : 1 + rng.Below(40)), pt = rng.Data(n);
      Bytes ct = b.r->Seal(nonce, aad, pt);
      auto cut = [&](size_t len) -> std::vector<size_t> {
        switch (rng.Below(5)) {
          case 0: return {len};
          case 1: if (len >= kTag) return {len - kTag, kTag}; return {len};
          case 2: { // the tag in small pieces
            if (len < kTag) return {len};
            std::vector<size_t> v{len - kTag};
            for (size_t t : rng.Split(kTag, 6)) v.push_back(t);
            return v;
          }
          case 3: if (len > 8) return {len - 8, 8}; return {len};
          default: return rng.Split(len, 7);
        }
      };
      auto rej = [&](const char* what, const Bytes& nn, const Bytes& aa, const Bytes& cc) {
        size_t out = cc.size() >= kTag ? cc.size() - kTag : 0;
        MustReject(run, b, what, nn, aa, cc, cut(cc.size()), out + rng.Below(3) * rng.Below(20), &pt, salt++);
      };
      // Every tag bit; and tag bytes replaced wholesale.
      for (size_t bit = 0; bit < 128; bit++) {
        Bytes c = ct;
        c[n + bit / 8] ^= static_cast<uint8_t>(1 << (bit % 8));
        rej("tag-bit", nonce, aad, c);
      }
      for (size_t k = 0; k < kTag; k++) {
        Bytes c = ct;  // all but one tag byte right / only a prefix right / only a suffix right
        c[n + k] ^= static_cast<uint8_t>(1 + rng.Below(255));
        rej("tag-byte", nonce, aad, c);
        Bytes p = ct, q = ct;
        for (size_t j = k; j < kTag; j++) p[n + j] ^= static_cast<uint8_t>(1 + rng.Below(255));
        for (size_t j = 0; j <= k; j++) q[n + j] ^= static_cast<uint8_t>(1 + rng.Below(255));
        rej("tag-prefix", nonce, aad, p);
        rej("tag-suffix", nonce, aad, q);
      }
      { Bytes c = ct; std::fill(c.begin() + n, c.end(), 0); rej("tag-zero", nonce, aad, c); }
      { Bytes c = ct; std::reverse(c.begin() + n, c.end()); rej("tag-reversed", nonce, aad, c); }
      { Bytes c = b.r->Seal(nonce, aad, Bytes(n, 0)); Bytes d = ct; if (n) { std::copy(c.begin() + n, c.end(), d.begin() + n); if (d != ct) rej("tag-of-other", nonce, aad, d); } }
      // Ciphertext: every byte for short ones, sampled for long ones; always first/last/block edges.
      for (size_t i = 0; i < n; i++) {
        if (n > 300 && i > 40 && i + 40 < n && !rng.Chance(40, static_cast<unsigned>(n))) continue;
        Bytes c = ct;
        c[i] ^= static_cast<uint8_t>(1 << rng.Below(8));
        rej("ct-bit", nonce, aad, c);
      }
      if (n >= 2) {
        Bytes c = ct; std::swap(c[0], c[n - 1]); if (c != ct) rej("ct-swap", nonce, aad, c);
        if (n >= 32) { Bytes d = ct; std::swap_ranges(d.begin(), d.begin() + 16, d.begin() + 16); if (d != ct) rej("ct-block-swap", nonce, aad, d); }
      }
      // AAD.
      for (size_t i = 0; i < aad.size(); i++) {
        Bytes x = aad; x[i] ^= static_cast<uint8_t>(1 << rng.Below(8)); rej("aad-bit", nonce, x, ct);
      }
      { Bytes x = aad; x.push_back(0); rej("aad-longer", nonce, x, ct); }
      if (!aad.empty()) { Bytes x = aad; x.pop_back(); rej("aad-shorter", nonce, x, ct); rej("aad-missing", nonce, Bytes(), ct); }
      if (!aad.empty()) { Bytes x(aad.begin(), aad.end() - 1), c = ct; c.insert(c.begin(), aad.back()); rej("aad-ct-shift", nonce, x, c); }
      if (n) { Bytes x = aad, c(ct.begin() + 1, ct.end()); x.push_back(ct[0]); rej("ct-aad-shift", nonce, x, c); }
      // Nonce.
      for (size_t i = 0; i < kNonce; i++)
        for (int bit = 0; bit < 8; bit += (n > 300 ? 4 : 1)) { Bytes x = nonce; x[i] ^= static_cast<uint8_t>(1 << bit); rej("nonce-bit", x, aad, ct); }
      // Length changes.
      for (size_t k = 1; k <= ct.size() && k <= 40; k++) { Bytes c(ct.begin(), ct.end() - k); rej("truncated", nonce, aad, c); }
      for (size_t k = 1; k <= n && k <= 40; k++) { Bytes c(ct.begin() + k, ct.end()); rej("front-cut", nonce, aad, c); }
      for (size_t k = 1; k <= 33; k += 4) { Bytes c = ct; c.resize(c.size() + k, static_cast<uint8_t>(rng.Below(2))); rej("extended", nonce, aad, c); }
      { Bytes c = ct; c.insert(c.begin() + n, 0); rej("inserted", nonce, aad, c); }
      // Right data, wrong key.
      Box other = MakeBox(run, a, rng.Data(ref::KeySize(a)));
      if (!other.c) return;
      MustReject(run, other, "wrong-key", nonce, aad, ct, cut(ct.size()), n, &pt, salt++);
      { Bytes k2 = b.key; k2[rng.Below(k2.size())] ^= 1; Box o2 = MakeBox(run, a, k2); if (!o2.c) return;
        MustReject(run, o2, "wrong-key-bit", nonce, aad, ct, cut(ct.size()), n, &pt, salt++); }
      // Refused because the output is too small: nothing decrypted may be left either.
      for (size_t k = 1; k <= n && k <= 24; k++)
        for (int r = 0; r < 3; r++) MustReject(run, b, "output-small", nonce, aad, ct, cut(ct.size()), n - k, &pt, salt++);
      for (int r = 0; r < 12 && n > 1; r++) MustReject(run, b, "output-small", nonce, aad, ct, rng.Split(ct.size(), 9), rng.Below(n), &pt, salt++);
      // A missing (null) buffer after good ones.
      for (int r = 0; r < 12; r++) {
        run.Begin("%s null component n=%zu", Name(a), n);
        auto cs = rng.Split(ct.size(), 8, false);
        size_t bad = rng.Below(cs.size());
        Vec va, vc;
        va.Build(aad, {aad.size()}, salt);
        vc.Build(ct, cs, salt++);
        vc.iov[bad].iov_base = nullptr;
        Guard out(n, true);
        out.Fill(0x5A);
        for (size_t i = 0; i < n; i++) if (pt[i] == 0x5A) out.data()[i] = 0xDA;
        Bytes before = out.Get();
        auto s = b.c->Decrypt(nonce, va.iov, vc.iov, {out.data(), n});
        run.Check(!s.GetStatus().ok(), "null-accepted", "component %zu of %s null, yet success", bad, Show(cs).c_str());
        for (size_t i = 0; i < n; i++)
          if (out.data()[i] && out.data()[i] != before[i]) { run.Check(false, "plaintext-left", "component %zu of %s null: output byte %zu holds data", bad, Show(cs).c_str(), i); break; }
        run.Nontrivial(Fmt("%dnull%s%zu", static_cast<int>(a), Show(cs).c_str(), bad));
        run.Count("rejected_null_component");
      }
      // The genuine one still opens, after all that.
      DecOnce(run, b, nonce, aad, {aad.size()}, pt, ct, cut(ct.size()), 0, salt++);
      if (n == 17) run.Sample(Fmt("%s: %zu-byte plaintext, %zu-byte aad: every tag bit, ciphertext bit sample, aad, nonce, length, key altered", Name(a), n, aad.size()));
    }
    // Long data, long AAD, many buffers, outputs much larger than needed.
    std::vector<size_t> longs{16385, 16640, 32768, 65519, 65520, 65535, 65536, 65537, 70001, 131072, 262145, 1048577};
    for (size_t n : longs) {
      if (run.TooMany()) return;
      if (n > 300000 && !run.thorough() && run.round() > 0) continue;
      Box b = MakeBox(run, a, rng.Key(ref::KeySize(a)));
      if (!b.c) return;
      const size_t al[] = {0, 13, 200, 4097, 65536, 100000};
      Bytes nonce = rng.Data(kNonce), aad = rng.Data(al[rng.Below(6)]), pt = rng.Data(n), ct = b.r->Seal(nonce, aad, pt);
      auto rej = [&](const char* what, const Bytes& nn, const Bytes& aa, const Bytes& cc) {
        size_t out = cc.size() >= kTag ? cc.size() - kTag : 0;
        auto cs = rng.Split(cc.size(), rng.Chance(1, 2) ? 3 : 300);
        MustReject(run, b, what, nn, aa, cc, cs, out + (rng.Chance(1, 3) ? rng.Below(200000) : 0), &pt, salt++);
      };
      for (int r = 0; r < 4; r++) { Bytes c = ct; c[n + rng.Below(kTag)] ^= static_cast<uint8_t>(1 << rng.Below(8)); rej("long-tag-bit", nonce, aad, c); }
      for (int r = 0; r < 4; r++) { Bytes c = ct; c[rng.Below(n)] ^= static_cast<uint8_t>(1 << rng.Below(8)); rej("long-ct-bit", nonce, aad, c); }
      { Bytes c = ct; c[n - 1] ^= 1; rej("long-ct-last", nonce, aad, c); }
      for (int r = 0; r < 4 && !aad.empty(); r++) { Bytes x = aad; x[r ? rng.Below(x.size()) : x.size() - 1] ^= static_cast<uint8_t>(1 << rng.Below(8)); rej("long-aad-bit", nonce, x, ct); }
      { Bytes c(ct.begin(), ct.end() - 1 - rng.Below(n)); rej("long-truncated", nonce, aad, c); }
      for (int r = 0; r < 4; r++) MustReject(run, b, "long-output-small", nonce, aad, ct, rng.Split(ct.size(), 300), n - 1 - (r ? rng.Below(n) : 0), &pt, salt++);
      DecOnce(run, b, nonce, aad, {aad.size()}, pt, ct, rng.Split(ct.size(), 300), rng.Below(2) * 70000, salt++);
    }
  }
}

// ---------------------------------------------------------------- C03
void Containment(Run& run) {
  run.Rule("a case is a call with an undersized output, a bad nonce or key length, or a null component; distinct by "
           "cipher, call and sizes; output buffers sit against guard pages under ASan+UBSan");
  Rng rng(run.seed() * 77 + 3);
  unsigned salt = 0;
  for (ref::Aead a : kAll) {
    // Keys.
    for (size_t n = 0; n <= 80; n++) {
      run.Begin("%s key length %zu", Name(a), n);
      absl::Status st;
      auto c = TryMake(a, rng.Data(n), &st);
      bool legal = a == ref::Aead::kChachaPoly ? n == 32 : (n == 16 || n == 32);
      run.Check((c != nullptr) == legal, "key-length", "%s key of %zu bytes was %s", Name(a), n, c ? "accepted" : "refused");
      run.Check(c != nullptr || !st.ok(), "key-length", "refused with an OK status");
      run.Nontrivial(Fmt("key%d/%zu", static_cast<int>(a), n));
    }
    Box b = MakeBox(run, a, rng.Key(ref::KeySize(a)));
    if (!b.c) return;
    auto none = [&](const S2AAeadCrypter::CrypterStatus& s) {
      run.Check(s.GetStatus().ok() || s.GetBytesWritten() == 0, "failure-length", "a failed call reports %zu bytes written", s.GetBytesWritten());
    };
    auto alive = [&](const char* after) {
      Bytes nonce = rng.Data(kNonce), aad = rng.Data(7), pt = rng.Data(21);
      Bytes ct = b.r->Seal(nonce, aad, pt);
      bool ok = EncOnce(run, b, nonce, aad, {7}, pt, {10, 11}, 0, salt++) && DecOnce(run, b, nonce, aad, {7}, pt, ct, {ct.size()}, 0, salt++);
      run.Check(ok, "not-reusable", "crypter gives wrong results after %s", after);
    };
    // Undersized (and exact, and oversized) outputs.
    std::vector<size_t> sizes;
    for (size_t n = 0; n <= run.N(50, 130); n++) sizes.push_back(n);
    for (size_t n : {size_t{255}, size_t{256}, size_t{1000}, size_t{4095}, size_t{4096}, size_t{16384}}) sizes.push_back(n);
    for (size_t n : sizes) {
      if (run.TooMany()) return;
      Bytes nonce = rng.Data(kNonce), aad = rng.Data(rng.Below(20)), pt = rng.Data(n), ct = b.r->Seal(nonce, aad, pt);
      size_t need = n + kTag;
      for (size_t out_len = 0; out_len < need; out_len++) {
        if (need > 200 && out_len > 40 && out_len + 40 < need && !rng.Chance(60, static_cast<unsigned>(need))) continue;
        auto ps = out_len % 2 ? std::vector<size_t>{n} : rng.Split(n, 5);
        if (n == 0 && out_len % 3 == 0) ps.clear();  // no component at all
        run.Begin("%s encrypt pt=%s into %zu of %zu bytes", Name(a), Show(ps).c_str(), out_len, need);
        Vec va, vp;
        va.Build(aad, {aad.size()}, salt);
        vp.Build(pt, ps, salt);
        for (int side = 0; side < 2; side++) {
          Guard out(out_len, side == 0);
          auto s = b.c->Encrypt(nonce, va.iov, vp.iov, {out.data(), out_len});
          run.Check(!s.GetStatus().ok(), "small-output", "success although the output has %zu of %zu bytes", out_len, need); none(s);
          run.Check(out.CanaryOk(), "overrun", "wrote outside a %zu-byte output", out_len);
        }
        run.Check(vp.Unchanged() && va.Unchanged(), "input", "an input was modified");
        salt++;
        run.Nontrivial(Fmt("e%d/%s/%zu", static_cast<int>(a), Show(ps).c_str(), out_len));
        run.Count("undersized_encrypt");
      }
      for (size_t out_len = 0; out_len < n; out_len++) {
        if (n > 200 && out_len > 40 && out_len + 40 < n && !rng.Chance(60, static_cast<unsigned>(n))) continue;
        auto cs = out_len % 2 ? std::vector<size_t>{ct.size()} : rng.Split(ct.size(), 6);
        run.Begin("%s decrypt ct=%s into %zu of %zu bytes", Name(a), Show(cs).c_str(), out_len, n);
        Vec va, vc;
        va.Build(aad, {aad.size()}, salt);
        vc.Build(ct, cs, salt);
        for (int side = 0; side < 2; side++) {
          Guard out(out_len, side == 0);
          auto s = b.c->Decrypt(nonce, va.iov, vc.iov, {out.data(), out_len});
          run.Check(!s.GetStatus().ok(), "small-output", "success although the output has %zu of %zu bytes", out_len, n); none(s);
          run.Check(out.CanaryOk(), "overrun", "wrote outside a %zu-byte output", out_len);
        }
        run.Check(vc.Unchanged() && va.Unchanged(), "input", "an input was modified");
        salt++;
        run.Nontrivial(Fmt("d%d/%s/%zu", static_cast<int>(a), Show(cs).c_str(), out_len));
        run.Count("undersized_decrypt");
      }
      alive("undersized outputs");
    }
    // Every list of no bytes (no component, empty ones with and without an
    // address) into every output too small for the tag.
    for (size_t out_len = 0; out_len < kTag; out_len++)
      for (size_t parts = 0; parts < 4; parts++)
        for (int nul = 0; nul < 2; nul++) {
          run.Begin("%s encrypt %zu empty components (%s) into %zu bytes", Name(a), parts, nul ? "null" : "addressed", out_len);
          Guard in(size_t{0}, true), out(out_len, nul == 0);
          std::vector<Iovec> v(parts, Iovec{nul ? nullptr : in.data(), 0});
          auto s = b.c->Encrypt(rng.Data(kNonce), parts == 3 ? v : std::vector<Iovec>(), v, {out.data(), out_len});
          run.Check(!s.GetStatus().ok(), "small-output", "success although the output has %zu of %zu bytes", out_len, kTag);
          none(s);
          run.Check(out.CanaryOk(), "overrun", "wrote outside a %zu-byte output", out_len);
          run.Nontrivial(Fmt("z%d/%zu/%zu/%d", static_cast<int>(a), out_len, parts, nul));
          run.Count("undersized_encrypt");
        }
    alive("outputs too small for a tag");
    // Every total ciphertext length below a tag, in every cut of up to 3 pieces.
    for (size_t t = 0; t < kTag; t++)
      for (size_t i = 0; i <= t; i++)
        for (size_t j = 0; i + j <= t; j++) {
          run.Begin("%s short ciphertext %zu+%zu+%zu", Name(a), i, j, t - i - j);
          Vec vc;
          vc.Build(rng.Data(t), {i, j, t - i - j}, salt++);
          Guard out(8, true);
          auto s = b.c->Decrypt(rng.Data(kNonce), {}, vc.iov, {out.data(), 8});
          run.Check(!s.GetStatus().ok(), "short-ciphertext", "a %zu-byte ciphertext was accepted", t); none(s);
          run.Nontrivial(Fmt("s%d/%zu/%zu/%zu", static_cast<int>(a), t, i, j));
        }
    { run.Begin("%s no ciphertext at all", Name(a)); auto s = b.c->Decrypt(rng.Data(kNonce), {}, {}, {nullptr, 0}); run.Check(!s.GetStatus().ok(), "short-ciphertext", "an absent ciphertext was accepted"); }
    alive("short ciphertexts");
    // Nonces.
    for (size_t n = 0; n <= 64; n++) {
      if (n == kNonce) continue;
      run.Begin("%s nonce length %zu", Name(a), n);
      Bytes nonce = rng.Data(n), pt = rng.Data(20), ct = rng.Data(36);
      Vec vp, vc;
      vp.Build(pt, {20}, 0);
      vc.Build(ct, {36}, 0);
      Guard o1(36, true), o2(20, true);
      auto s = b.c->Encrypt(nonce, {}, vp.iov, {o1.data(), 36});
      run.Check(!s.GetStatus().ok(), "nonce-length", "encrypt accepted a %zu-byte nonce", n); none(s);
      s = b.c->Decrypt(nonce, {}, vc.iov, {o2.data(), 20});
      run.Check(!s.GetStatus().ok(), "nonce-length", "decrypt accepted a %zu-byte nonce", n); none(s);
      run.Nontrivial(Fmt("n%d/%zu", static_cast<int>(a), n));
      alive("a bad nonce length");
    }
    // Null components with a length, at every position of every list.
    for (size_t r = 0; r < run.N(300, 3000) && !run.TooMany(); r++) {
      Bytes nonce = rng.Data(kNonce), aad = rng.Data(1 + rng.Below(40)), pt = rng.Data(1 + rng.Below(80)), ct = b.r->Seal(nonce, aad, pt);
      auto as = rng.Split(aad.size(), 5, false), ps = rng.Split(pt.size(), 5, false), cs = rng.Split(ct.size(), 9, false);
      for (int list = 0; list < 4; list++) {
        size_t count = list == 0 || list == 2 ? as.size() : list == 1 ? ps.size() : cs.size();
        for (size_t bad = 0; bad < count; bad++) {
          run.Begin("%s null component %zu of list %d aad=%s pt=%s ct=%s", Name(a), bad, list, Show(as).c_str(), Show(ps).c_str(), Show(cs).c_str());
          Vec va, vp, vc;
          va.Build(aad, as, salt);
          vp.Build(pt, ps, salt);
          vc.Build(ct, cs, salt++);
          if (list == 0 || list == 2) va.iov[bad].iov_base = nullptr;
          if (list == 1) vp.iov[bad].iov_base = nullptr;
          if (list == 3) vc.iov[bad].iov_base = nullptr;
          Guard out(ct.size(), true);
          auto s = list < 2 ? b.c->Encrypt(nonce, va.iov, vp.iov, {out.data(), ct.size()})
                            : b.c->Decrypt(nonce, va.iov, vc.iov, {out.data(), pt.size()});
          run.Check(!s.GetStatus().ok(), "null-accepted", "a missing buffer was treated as data"); none(s);
          run.Nontrivial(Fmt("null%d/%d/%zu/%s", static_cast<int>(a), list, bad, Show(list == 3 ? cs : list == 1 ? ps : as).c_str()));
          run.Count("null_component_calls");
        }
      }
      alive("null components");
    }
    // A missing buffer whose length makes the total wrap around.
    for (size_t r = 0; r < run.N(400, 4000) && !run.TooMany(); r++) {
      bool enc = rng.Chance(1, 3);
      size_t n = 1 + rng.Below(100), small = rng.Below(n + 1);  // the total as it would come out
      Bytes data = rng.Data(n);
      size_t at = rng.Below(3), list = rng.Below(3);
      run.Begin("%s %s: %zu bytes and a missing buffer of 2^64-%zu at %zu of list %zu", Name(a), enc ? "encrypt" : "decrypt", n, n - small, at, list);
      Vec v;
      v.Build(data, {n / 2, n - n / 2}, salt++);
      v.iov.insert(v.iov.begin() + static_cast<long>(at), Iovec{nullptr, static_cast<size_t>(0) - (n - small)});
      if (n == small) continue;  // no length at all
      Guard out(small + kTag, (r & 1) == 0);
      Bytes nonce = rng.Data(kNonce);
      auto s = enc ? (list == 0 ? b.c->Encrypt(nonce, v.iov, {}, {out.data(), out.size()}) : b.c->Encrypt(nonce, {}, v.iov, {out.data(), out.size()}))
                   : (list == 0 ? b.c->Decrypt(nonce, v.iov, {{data.data(), n}}, {out.data(), out.size()}) : b.c->Decrypt(nonce, {}, v.iov, {out.data(), out.size()}));
      run.Check(!s.GetStatus().ok(), "null-accepted", "a missing buffer was treated as data");
      none(s);
      run.Check(out.CanaryOk() && v.iov.size() == 3, "overrun", "wrote outside the output");
      run.Nontrivial(Fmt("wrap%d/%d/%zu/%zu/%zu/%zu", static_cast<int>(a), enc, n, small, at, list));
      run.Count("wrapping_totals");
    }
    alive("totals that wrap around");
    // Combinations of malformed and valid arguments.
    for (size_t r = 0; r < run.N(6000, 100000) && !run.TooMany(); r++) Malformed(run, b, rng, salt++);
    // Buffers longer than an int can count: right result or an error, never a
    // silently truncated success.
    for (size_t len : {(size_t{1} << 32) + 5, (size_t{1} << 31) + 16, (size_t{1} << 32)}) {
      if (run.round() != 0) break;
      run.Begin("%s single buffer of %zu bytes", Name(a), len);
#ifdef OPENSSL_IS_BORINGSSL
      if (a == ref::Aead::kChachaPoly) continue;  // it copies the plaintext: too much memory
#endif
      void* in = mmap(nullptr, len, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      void* out = vh::HugeOutput(len + 64);
      if (in == MAP_FAILED || out == MAP_FAILED) { run.Count("huge_skipped"); continue; }
      auto s = b.c->Encrypt(rng.Data(kNonce), {}, {{in, len}}, {out, len + 64});
      run.Check(!s.GetStatus().ok() || s.GetBytesWritten() == len + kTag, "huge-truncated", "success with %zu bytes written for a %zu-byte plaintext", s.GetBytesWritten(), len);
      // As ciphertext it is a forgery; as AAD it must not be taken for a shorter one.
      s = b.c->Decrypt(rng.Data(kNonce), {}, {{in, len}}, {out, len});
      run.Check(!s.GetStatus().ok(), "huge-truncated", "a %zu-byte forgery was accepted", len);
      none(s);
      Bytes nonce = rng.Data(kNonce), full(20), part(20);
      s = b.c->Encrypt(nonce, {{in, len}}, {{in, 4}}, {full.data(), 20});
      if (s.GetStatus().ok()) {
        for (size_t l : {len & 0xffffffffu, size_t{0}, size_t{16}}) {
          auto u = b.c->Encrypt(nonce, {{in, l == size_t{1} << 31 ? 0 : l}}, {{in, 4}}, {part.data(), 20});
          run.Check(!u.GetStatus().ok() || part != full, "huge-truncated", "%zu bytes of AAD authenticated as %zu", len, l);
        }
      }
      s = b.c->Decrypt(nonce, {{in, len}}, {{in, 20}}, {out, 4});
      run.Check(!s.GetStatus().ok(), "huge-truncated", "a forgery with %zu bytes of AAD was accepted", len);
      // More room than needed is no reason to fail.
      Bytes ad = rng.Data(9), pt = rng.Data(1 + rng.Below(60)), ct = b.r->Seal(nonce, ad, pt);
      s = b.c->Encrypt(nonce, {{ad.data(), 9}}, {{pt.data(), pt.size()}}, {out, len});
      run.Check(s.GetStatus().ok() && s.GetBytesWritten() == ct.size() && !memcmp(out, ct.data(), ct.size()), "huge-room", "encryption fails with room for %zu bytes", len);
      s = b.c->Decrypt(nonce, {{ad.data(), 9}}, {{ct.data(), ct.size()}}, {out, len});
      run.Check(s.GetStatus().ok() && s.GetBytesWritten() == pt.size() && !memcmp(out, pt.data(), pt.size()), "huge-room", "decryption fails with room for %zu bytes", len);
      munmap(in, len);
      munmap(out, len + 64);
      run.Nontrivial(Fmt("huge%d/%zu", static_cast<int>(a), len));
    }
    alive("huge buffers");
  }
}

// ---------------------------------------------------------------- C04
// A long history on one crypter; every successful operation must give what a
// fresh one gives (the reference), whatever came before.
void History(Run& run, Rng* tape = nullptr) {
  run.Rule("a case is one operation within a random history on a single crypter (valid, forged, undersized, null, "
           "bad-nonce and fault-hit operations interleaved); distinct by cipher and the last four operation kinds");
  Rng own(run.seed() * 77 + 4);
  Rng& rng = tape ? *tape : own;
  unsigned salt = 0;
  const size_t pick = rng.Plain(3);
  for (ref::Aead a : kAll) {
    if (tape && a != kAll[pick]) continue;
    CASES(h, 12, 100) {
      Box b = MakeBox(run, a, rng.Key(ref::KeySize(a)));
      if (!b.c) return;
      std::string trail = "....";
      size_t burst = 0;
      int burst_kind = 0;
      Bytes last_nonce = rng.Data(kNonce), last_aad = rng.Data(5);
      for (size_t op = 0; op < run.N(400, 1500) && !run.TooMany() && !(tape && rng.Dry() && !burst); op++) {
        int kind = static_cast<int>(rng.Below(14));
        if (burst) { burst--; kind = burst_kind; } else if (rng.Chance(1, 800)) { burst_kind = kind; burst = rng.Repeats(400); }
        // Histories often reuse the previous nonce, AAD and sizes.
        Bytes nonce = rng.Chance(1, 3) ? last_nonce : rng.Data(kNonce);
        Bytes aad = rng.Chance(1, 3) ? last_aad : rng.Data(rng.Len(60));
        Bytes pt = rng.Data(rng.Len(200)), ct = b.r->Seal(nonce, aad, pt);
        trail = trail.substr(1) + static_cast<char>('A' + kind);
        Vec va, vp, vc;
        if (kind == 0 || kind == 1) {
          EncOnce(run, b, nonce, aad, rng.Split(aad.size(), 3), pt, rng.Split(pt.size(), 4), rng.Below(4), salt++);
        } else if (kind == 2 || kind == 3) {
          DecOnce(run, b, nonce, aad, rng.Split(aad.size(), 3), pt, ct, rng.Split(ct.size(), 5), rng.Below(4), salt++);
        } else {
          run.Begin("%s history %zu op %zu kind %d after %s", Name(a), h, op, kind, trail.c_str());
          Guard out(ct.size() + 4, true);
          bool expect_fail = true;
          S2AAeadCrypter::CrypterStatus s(absl::OkStatus(), 0);
          va.Build(aad, {aad.size()}, salt);
          switch (kind) {
            case 4: { Bytes c = ct; c[rng.Below(c.size())] ^= 1; vc.Build(c, rng.Split(c.size(), 4), salt); s = b.c->Decrypt(nonce, va.iov, vc.iov, {out.data(), pt.size()}); break; }
            case 5: vp.Build(pt, rng.Split(pt.size(), 4), salt); s = b.c->Encrypt(nonce, va.iov, vp.iov, {out.data(), rng.Below(ct.size())}); break;
            case 6: if (pt.empty()) { expect_fail = false; break; } vc.Build(ct, rng.Split(ct.size(), 4), salt); s = b.c->Decrypt(nonce, va.iov, vc.iov, {out.data(), rng.Below(pt.size())}); break;
            case 7: { Bytes d = rng.Data(20); vp.Build(d, {8, 12}, salt); vp.iov[1].iov_base = nullptr; s = b.c->Encrypt(nonce, va.iov, vp.iov, {out.data(), out.size()}); break; }
            case 8: { Bytes d = rng.Data(8); va.iov.push_back({nullptr, 4}); vp.Build(d, {8}, salt); Guard o(40, true); s = b.c->Encrypt(nonce, va.iov, vp.iov, {o.data(), 40}); break; }
            case 9: { va.iov.push_back({nullptr, 4}); vc.Build(ct, {ct.size()}, salt); s = b.c->Decrypt(nonce, va.iov, vc.iov, {out.data(), out.size()}); break; }
            case 10: { vp.Build(pt, {pt.size()}, salt); s = b.c->Encrypt(rng.Data(rng.Below(12)), va.iov, vp.iov, {out.data(), out.size()}); break; }
            case 11: { vc.Build(rng.Data(rng.Below(16)), rng.Split(0, 1), salt); s = b.c->Decrypt(nonce, va.iov, vc.iov, {out.data(), out.size()}); break; }
            case 12: case 13: {
              // A library call fails somewhere inside the operation.
              vp.Build(pt, rng.Split(pt.size(), 3), salt);
              vc.Build(ct, rng.Split(ct.size(), 3), salt);
              wrapssl::Arm(1 + static_cast<long>(rng.Below(6)), rng.Chance(1, 4));
              s = kind == 12 ? b.c->Encrypt(nonce, va.iov, vp.iov, {out.data(), out.size()}) : b.c->Decrypt(nonce, va.iov, vc.iov, {out.data(), out.size()});
              expect_fail = wrapssl::Fired() > 0;
              if (expect_fail) run.Count("faults_in_history");
              wrapssl::Arm(0);
              if (expect_fail && s.GetStatus().ok()) {  // tolerated only if right
                Bytes want = kind == 12 ? ct : pt;
                expect_fail = !(s.GetBytesWritten() == want.size() && memcmp(out.data(), want.data(), want.size()) == 0);
              }
              break;
            }
          }
          salt++;
          if (expect_fail) run.Check(!s.GetStatus().ok(), "bad-op-accepted", "an operation that cannot succeed reported success");
          run.Count("failing_operations");
        }
        last_nonce = nonce;
        last_aad = aad;
        run.Nontrivial(Fmt("%d%s", static_cast<int>(a), trail.c_str()));
        run.Count("operations");
      }
      ERR_clear_error();
    }
    if (tape) return;
    // Long streaks of one kind of failure (or success), then an ordinary exchange.
    for (int kind = 0; kind < 7 && !run.TooMany(); kind++) {
      Box b = MakeBox(run, a, rng.Key(ref::KeySize(a)));
      if (!b.c) return;
      size_t streak = run.round() == 0 ? run.Many(300) : run.round() == 1 ? 1100 : rng.Repeats(400);
      Bytes nonce = rng.Data(kNonce), aad = rng.Data(5), pt = rng.Data(11), ct = b.r->Seal(nonce, aad, pt), bad = ct, out(40);
      bad[3] ^= 4;
      run.Begin("%s after %zu operations of streak kind %d", Name(a), streak, kind);
      for (size_t i = 0; i < streak; i++) {
        S2AAeadCrypter::CrypterStatus s(absl::OkStatus(), 0);
        switch (kind) {
          case 0: s = b.c->Decrypt(nonce, {{aad.data(), 5}}, {{bad.data(), bad.size()}}, {out.data(), 40}); break;
          case 1: s = b.c->Encrypt(nonce, {{aad.data(), 5}}, {{pt.data(), pt.size()}}, {out.data(), 20}); break;
          case 2: s = b.c->Decrypt(nonce, {{aad.data(), 5}}, {{ct.data(), ct.size()}}, {out.data(), 7}); break;
          case 3: s = b.c->Encrypt(nonce, {{nullptr, 5}}, {{pt.data(), pt.size()}}, {out.data(), 40}); break;
          case 4: s = b.c->Decrypt(Bytes(11), {{aad.data(), 5}}, {{ct.data(), ct.size()}}, {out.data(), 40}); break;
          case 5: s = b.c->Encrypt(nonce, {{aad.data(), 5}}, {{pt.data(), pt.size()}}, {out.data(), 40}); break;
          case 6: s = b.c->Decrypt(nonce, {{aad.data(), 5}}, {{ct.data(), ct.size()}}, {out.data(), 40}); break;
        }
        if (!run.Check(s.GetStatus().ok() == (kind >= 5), "streak", "operation %zu of a streak gives another verdict", i)) break;
      }
      run.Count("streak_operations", streak);
      EncOnce(run, b, rng.Data(kNonce), aad, {5}, pt, {pt.size()}, 0, salt++);
      DecOnce(run, b, nonce, aad, {5}, pt, ct, {ct.size()}, 0, salt++);
      run.Nontrivial(Fmt("streak%d/%d/%zu", static_cast<int>(a), kind, streak));
      ERR_clear_error();
    }
    run.Sample(Fmt("%s: histories over 14 operation kinds on one crypter", Name(a)));
  }
}

// ---------------------------------------------------------------- C05
void Faults(Run& run) {
  run.Rule("a case is one operation with its k-th SSL library call made to fail (once, or from then on); every k is "
           "enumerated for every operation shape; distinct by operation, k and failing call");
  Rng rng(run.seed() * 77 + 5);
  unsigned salt = 0;
  for (ref::Aead a : kAll) {
    // Creation.
    for (int forever = 0; forever < 3; forever++) {
      Bytes key = rng.Key(ref::KeySize(a));
      wrapssl::Arm(0);
      { auto c = TryMake(a, key); }
      long n = wrapssl::Calls();
      run.Check(n > 0, "hook-missing", "no SSL library call seen while creating a crypter");
      for (long k = 1; k <= n; k++) {
        run.Begin("%s create, SSL call %ld of %ld fails%s", Name(a), k, n, forever == 1 ? " from then on" : forever ? " late" : "");
        wrapssl::Arm(k, forever);
        absl::Status st;
        auto c = TryMake(a, key, &st);
        std::string hit = wrapssl::LastFired();
        bool fired = wrapssl::Fired() > 0;
        wrapssl::Arm(0);
        ERR_clear_error();
        if (c != nullptr && fired) {
          // Tolerated only when the crypter works all the same.
          Box b; b.a = a; b.key = key; b.c = std::move(c); b.r.reset(new ref::Sealer(a, key));
          Bytes nonce = rng.Data(kNonce), aad = rng.Data(5), pt = rng.Data(33);
          EncOnce(run, b, nonce, aad, {5}, pt, {33}, 0, salt++);
        } else {
          run.Check(!st.ok(), "fault-swallowed", "no crypter and yet an OK status");
        }
        run.Nontrivial(Fmt("create%d/%ld/%s/%d", static_cast<int>(a), k, hit.c_str(), forever));
        run.Count("fault_" + hit);
      }
    }
    Box b = MakeBox(run, a, rng.Key(ref::KeySize(a)));
    if (!b.c) return;
    for (size_t shape = 0; shape < run.N(120, 1200) && !run.TooMany(); shape++) {
      Bytes nonce = rng.Data(kNonce), aad = rng.Data(shape % 4 == 0 ? 0 : rng.Len(40)), pt = rng.Data(shape % 7 == 0 ? 0 : rng.Len(300));
      Bytes ct = b.r->Seal(nonce, aad, pt);
      auto as = rng.Split(aad.size(), 3), ps = rng.Split(pt.size(), 4), cs = rng.Split(ct.size(), 5);
      for (int dir = 0; dir < 2; dir++)
        for (int forever = 0; forever < 3; forever++) {
          long n = 1;
          for (long k = 0; k <= n && k < 200; k++) {
            run.Begin("%s %s aad=%s data=%s, SSL call %ld fails%s", Name(a), dir ? "decrypt" : "encrypt", Show(as).c_str(), Show(dir ? cs : ps).c_str(), k, forever == 1 ? " from then on" : forever ? " late" : "");
            Vec va, vd;
            va.Build(aad, as, salt);
            vd.Build(dir ? ct : pt, dir ? cs : ps, salt++);
            Guard out(dir ? pt.size() : ct.size(), true);
            out.Fill(0x5A);
            Bytes before(out.size(), 0x5A);
            for (size_t i = 0; dir && i < pt.size(); i++) if (pt[i] == 0x5A) before[i] = out.data()[i] = 0xDA;
            wrapssl::Arm(k, forever);
            auto s = dir ? b.c->Decrypt(nonce, va.iov, vd.iov, {out.data(), out.size()}) : b.c->Encrypt(nonce, va.iov, vd.iov, {out.data(), out.size()});
            bool fired = wrapssl::Fired() > 0;
            std::string hit = wrapssl::LastFired();
            if (k == 0) n = wrapssl::Calls();
            wrapssl::Arm(0);
            const Bytes& want = dir ? pt : ct;
            if (!fired) {
              run.Check(s.GetStatus().ok() && s.GetBytesWritten() == want.size() && out.Get() == want, "after-fault", "fault-free operation after injected faults is wrong: %s", s.GetStatus().ToString().c_str());
              continue;
            }
            run.Check(!s.GetStatus().ok() || (s.GetBytesWritten() == want.size() && out.Get() == want), "fault-swallowed", "%s failed, yet success with a wrong result", hit.c_str());
            if (dir && !s.GetStatus().ok())
              for (size_t i = 0; i < out.size(); i++)
                if (out.data()[i] && out.data()[i] != before[i]) { run.Check(false, "plaintext-left", "%s failed; output byte %zu still holds data", hit.c_str(), i); break; }
            run.Check(out.CanaryOk(), "canary", "memory around the output was written");
            ERR_clear_error();
            run.Nontrivial(Fmt("%d/%d/%ld/%s/%d/%zu/%zu", static_cast<int>(a), dir, k, hit.c_str(), forever, as.size(), (dir ? cs : ps).size()));
            run.Count("fault_" + hit);
          }
          run.Check(n > 0, "hook-missing", "no SSL library call seen in an operation");
        }
    }
  }
  // HKDF.
  for (int h = 0; h < 2; h++)
    for (size_t blocks = 0; blocks < run.N(6, 30); blocks++)
      for (int forever = 0; forever < 3; forever++) {
        ref::Hash rh = h ? ref::Hash::kSha384 : ref::Hash::kSha256;
        auto hf = h ? s2a::hkdf::HashFunction::SHA384_hash_function : s2a::hkdf::HashFunction::SHA256_hash_function;
        Bytes prk = rng.Key(ref::DigestSize(rh)), info = rng.Data(rng.Below(40));
        size_t len = ref::DigestSize(rh) * blocks + rng.Below(7);
        Bytes want = ref::HkdfExpand(rh, prk, info, len);
        long n = 1;
        for (long k = 0; k <= n; k++) {
          run.Begin("hkdf %d out=%zu, SSL call %ld fails%s", h, len, k, forever == 1 ? " from then on" : forever ? " late" : "");
          Bytes out(len, 0xEE);
          wrapssl::Arm(k, forever);
          absl::Status st = s2a::hkdf::HkdfDeriveSecret(hf, prk, info, out);
          bool fired = wrapssl::Fired() > 0;
          std::string hit = wrapssl::LastFired();
          if (k == 0) n = wrapssl::Calls();
          wrapssl::Arm(0);
          ERR_clear_error();
          run.Check(fired ? (!st.ok() || out == want) : (st.ok() && out == want), "hkdf-fault-swallowed", "%s failed, yet the derivation reported success with wrong bytes", hit.c_str());
          if (fired) { run.Nontrivial(Fmt("hkdf%d/%zu/%ld/%s/%d", h, blocks, k, hit.c_str(), forever)); run.Count("fault_" + hit); }
        }
      }
  run.Sample("encrypt/decrypt/create/HKDF with each SSL call k=1..n failing once and persistently");
}

// ---------------------------------------------------------------- C06
void Hkdf(Run& run) {
  run.Rule("a case is one HKDF-Expand compared with an independent HMAC/SHA-2; distinct by hash, output, PRK and info length");
  Rng rng(run.seed() * 77 + 6);
  for (int h = 0; h < 2; h++) {
    ref::Hash rh = h ? ref::Hash::kSha384 : ref::Hash::kSha256;
    auto hf = h ? s2a::hkdf::HashFunction::SHA384_hash_function : s2a::hkdf::HashFunction::SHA256_hash_function;
    size_t d = ref::DigestSize(rh), max = 255 * d;
    auto one = [&](const Bytes& prk, const Bytes& info, size_t len, const Bytes* full) {
      run.Begin("hkdf sha%d prk=%zu info=%zu out=%zu", h ? 384 : 256, prk.size(), info.size(), len);
      Bytes out = rng.Data(len), prk0 = prk, info0 = info;
      absl::Status st = s2a::hkdf::HkdfDeriveSecret(hf, prk, info, out);
      bool legal = prk.size() >= d && len <= max;
      run.Check(st.ok() == legal, "hkdf-status", "status %s", st.ToString().c_str());
      run.Check(out.size() == len, "hkdf-size", "output resized to %zu", out.size());
      if (legal) {
        Bytes want = full ? Bytes(full->begin(), full->begin() + len) : ref::HkdfExpand(rh, prk, info, len);
        run.Check(out == want, "hkdf-bytes", "derived bytes differ from RFC 5869");
      }
      run.Check(prk == prk0 && info == info0, "hkdf-input", "inputs modified");
      run.Nontrivial(Fmt("%d/%zu/%zu/%zu", h, prk.size(), info.size(), len));
      run.Count(legal ? "derived" : "refused");
    };
    // Every output length (the reference is prefix-closed).
    Bytes prk = rng.Data(d), info = rng.Data(13), full = ref::HkdfExpand(rh, prk, info, max);
    for (size_t len = 0; len <= max + 3 * d && !run.TooMany(); len += run.scale() > 1 ? 1 + len / 20 : run.thorough() || len < 700 || len + 300 > max ? 1 : 1 + rng.Below(9))
      one(prk, info, len, &full);
    for (size_t len : {size_t{65536}, size_t{1} << 20, max * 2, max * 256 + 5, 256 * d, 257 * d, 511 * d, 512 * d + 1}) one(prk, info, len, nullptr);
    // PRK lengths around the digest, block and multiples; info lengths.
    for (size_t n = 0; n <= 300; n++) one(rng.Data(n), rng.Data(rng.Below(20)), 1 + rng.Below(3 * d), nullptr);
    for (size_t n = 0; n <= 400; n++) one(rng.Data(d + rng.Below(3)), rng.Data(n), 1 + rng.Below(3 * d), nullptr);
    for (size_t n : {size_t{1000}, size_t{4096}, size_t{65535}, size_t{65536}, size_t{200000}}) { one(rng.Data(d), rng.Data(n), 2 * d + 1, nullptr); one(rng.Data(n), rng.Data(9), d + 1, nullptr); }
    for (size_t n : vh::CodeSizes(100000)) { one(rng.Data(d), rng.Data(n), 2 * d + 1, nullptr); one(rng.Data(n), rng.Data(9), d + 1, nullptr); one(rng.Data(d), rng.Data(10), n, nullptr); }
    for (size_t i = 0; i < run.N(1500, 30000) && !run.TooMany(); i++) {
      Bytes p = rng.Data(rng.Chance(1, 12) ? rng.Below(d) : d + rng.Len(200));
      if (rng.Chance(1, 10) && !p.empty()) p.assign(p.size(), static_cast<uint8_t>(rng.Below(2) * 255));
      Bytes x = rng.Data(rng.Len(300));
      size_t len = rng.Chance(1, 30) ? max - 2 + rng.Below(6) : rng.Len(700);
      one(p, x, len, nullptr);
      // Then inputs that are nearly the same.
      if (rng.Chance(1, 2)) { if (!p.empty()) p[rng.Chance(1, 2) ? p.size() - 1 : rng.Below(p.size())] ^= static_cast<uint8_t>(1 << rng.Below(8)); }
      else if (!x.empty()) x[rng.Chance(1, 2) ? x.size() - 1 : rng.Below(x.size())] ^= static_cast<uint8_t>(1 << rng.Below(8));
      one(p, x, len, nullptr);
      if (rng.Chance(1, 8)) one(p, x, len + 1 + rng.Below(d), nullptr);
    }
    run.Sample(Fmt("sha%d: output lengths 0..%zu, PRK 0..300, info 0..400", h ? 384 : 256, max + 3 * d));
  }
  for (int v = 2; v < 300; v++) {
    run.Begin("hkdf hash function value %d", v);
    Bytes out(32, 0xEE);
    absl::Status st = s2a::hkdf::HkdfDeriveSecret(static_cast<s2a::hkdf::HashFunction>(v), rng.Data(64), rng.Data(3), out);
    run.Check(!st.ok(), "hkdf-hash", "an unsupported hash function was accepted");
  }
}

// ---------------------------------------------------------------- C28
void ErrorQueue(Run& run) {
  run.Rule("a case is a state of the SSL error queue (0..40 pushed errors, after failing operations, per thread) followed by a drain; distinct by count and reasons");
  Rng rng(run.seed() * 77 + 28);
  for (size_t r = 0; r < run.N(3000, 30000) && !run.TooMany(); r++) {
    size_t n = r < 41 ? r : rng.Below(41);
    run.Begin("%zu errors queued", n);
    ERR_clear_error();
    std::vector<std::string> want;
    std::string sig;
    for (size_t i = 0; i < n; i++) {
      int lib = rng.Chance(1, 2) ? ERR_LIB_EVP : rng.Chance(1, 2) ? ERR_LIB_RSA : ERR_LIB_BIO;
      int reason = 1 + static_cast<int>(rng.Below(250));
      ERR_put_error(lib, 0, reason, __FILE__, __LINE__);
      if (rng.Chance(1, 4)) ERR_add_error_data(1, "extra detail");
      char buf[256];
      ERR_error_string_n(ERR_peek_last_error(), buf, sizeof(buf));
      std::string text = buf;  // "error:<code>:..."; the code identifies the error
      want.push_back(text.substr(0, text.find(':', 6)));
      sig += Fmt("%d.%d,", lib, reason);
    }
    std::string got = s2a::aead_crypter::GetSSLErrors();
    run.Check(ERR_peek_error() == 0, "queue-not-empty", "errors remain queued after the drain");
    if (n == 0) run.Check(got.empty(), "phantom", "text returned for an empty queue");
    // The library keeps the most recent 15 or 16.
    size_t pos = 0;
    for (size_t i = n > 15 ? n - 15 : 0; i < n; i++) {
      size_t p = got.find(want[i], pos);
      run.Check(p != std::string::npos, "error-lost", "queued error %zu of %zu (%s) is missing (or out of order) in the text", i, n, want[i].c_str());
      if (p != std::string::npos) pos = p + 1;
    }
    std::string again = s2a::aead_crypter::GetSSLErrors();
    run.Check(again.empty(), "repeated", "the same errors were returned twice");
    run.Nontrivial(sig);
    run.Count("errors_queued", n);
  }
  // Failing AEAD operations report their own library errors and leave none behind.
  for (ref::Aead a : kAll) {
    Box b = MakeBox(run, a, rng.Key(ref::KeySize(a)));
    if (!b.c) return;
    for (size_t r = 0; r < run.N(200, 2000) && !run.TooMany(); r++) {
      Bytes nonce = rng.Data(kNonce), aad = rng.Data(rng.Below(20)), pt = rng.Data(1 + rng.Below(60)), ct = b.r->Seal(nonce, aad, pt);
      Vec va, vp, vc;
      va.Build(aad, {aad.size()}, 0);
      vp.Build(pt, rng.Split(pt.size(), 3), 0);
      vc.Build(ct, rng.Split(ct.size(), 3), 0);
      Guard out(ct.size(), true);
      for (int dir = 0; dir < 2; dir++)
        for (long k = 1; k < 9; k++) {
          run.Begin("%s %s with SSL call %ld failing, then the queue", Name(a), dir ? "decrypt" : "encrypt", k);
          ERR_clear_error();
          wrapssl::Arm(k);
          auto s = dir ? b.c->Decrypt(nonce, va.iov, vc.iov, {out.data(), out.size()}) : b.c->Encrypt(nonce, va.iov, vp.iov, {out.data(), out.size()});
          bool fired = wrapssl::Fired() > 0;
          std::string hit = wrapssl::LastFired();
          wrapssl::Arm(0);
          if (!fired || s.GetStatus().ok()) continue;
          run.Check(ERR_peek_error() == 0, "stale-error", "%s failed; its error is still queued after the operation returned", hit.c_str());
          run.Check(s.GetStatus().message().find("error:") != absl::string_view::npos || s.GetStatus().message().find("rror") != absl::string_view::npos,
                    "error-not-reported", "%s failed; the status does not carry the library's error: %s", hit.c_str(), s.GetStatus().ToString().c_str());
          run.Nontrivial(Fmt("op%d/%d/%ld/%s", static_cast<int>(a), dir, k, hit.c_str()));
          run.Count("failing_operations");
        }
    }
    // Creation failures.
    for (long k = 1; k < 6; k++) {
      ERR_clear_error();
      run.Begin("%s create with SSL call %ld failing, then the queue", Name(a), k);
      wrapssl::Arm(k);
      absl::Status st;
      auto c = TryMake(a, b.key, &st);
      bool fired = wrapssl::Fired() > 0;
      wrapssl::Arm(0);
      if (fired && !c) run.Check(ERR_peek_error() == 0, "stale-error", "creation failed; the error is still queued");
    }
  }
  // The queue is per thread: draining one leaves the other alone.
  for (size_t r = 0; r < run.N(20, 200); r++) {
    run.Begin("per-thread queues");
    ERR_clear_error();
    ERR_put_error(ERR_LIB_EVP, 0, 101, __FILE__, __LINE__);
    std::string other;
    std::thread t([&] {
      ERR_clear_error();
      for (int i = 0; i < 3; i++) ERR_put_error(ERR_LIB_RSA, 0, 102, __FILE__, __LINE__);
      other = s2a::aead_crypter::GetSSLErrors();
    });
    t.join();
    run.Check(ERR_peek_error() != 0, "other-thread-drained", "draining on one thread emptied another thread's queue");
    run.Check(std::count(other.begin(), other.end(), '\n') == 3, "thread-errors", "3 errors queued, text <%s>", other.c_str());
    s2a::aead_crypter::GetSSLErrors();
  }
}

}  // namespace

int Workload(Run& run) {
  std::string why;
  if (!ref::Sealer::SelfTest(&why)) { fprintf(stderr, "oracle self-test: %s\n", why.c_str()); return 3; }
  const std::string& p = run.property();
  if (p == "C01") Standard(run);
  else if (p == "C02") Authentic(run);
  else if (p == "C03") Containment(run);
  else if (p == "C04") History(run);
  else if (p == "C05") Faults(run);
  else if (p == "C06") Hkdf(run);
  else if (p == "C28") ErrorQueue(run);
  else return 3;
  return 0;
}

void TapeCase(Run& run, Rng& rng) {
  const std::string& p = run.property();
  if (p == "C04") { History(run, &rng); return; }
  if (p == "C06") {
    run.Rule("a case is one HKDF-Expand compared with an independent HMAC/SHA-2, its parameters found by coverage-guided mutation");
    for (int i = 0; i < 4 && !rng.Dry(); i++) {
      bool big = rng.Chance(1, 2);
      ref::Hash rh = big ? ref::Hash::kSha384 : ref::Hash::kSha256;
      size_t d = ref::DigestSize(rh), max = 255 * d;
      Bytes prk = rng.Data(rng.Chance(1, 8) ? rng.Below(d) : d + rng.Len(200)), info = rng.Data(rng.Len(rng.Chance(1, 10) ? 70000 : 300)), prk0 = prk, info0 = info;
      size_t len = rng.Chance(1, 10) ? rng.Below(max + 300) : rng.Len(500);
      run.Begin("hkdf sha%d prk=%zu info=%zu out=%zu", big ? 384 : 256, prk.size(), info.size(), len);
      Bytes out = rng.Data(len);
      absl::Status st = s2a::hkdf::HkdfDeriveSecret(big ? s2a::hkdf::HashFunction::SHA384_hash_function : s2a::hkdf::HashFunction::SHA256_hash_function, prk, info, out);
      bool legal = prk.size() >= d && len <= max;
      run.Check(st.ok() == legal && out.size() == len && prk == prk0 && info == info0, "hkdf-status", "status %s", st.ToString().c_str());
      if (legal) run.Check(out == ref::HkdfExpand(rh, prk, info, len), "hkdf-bytes", "derived bytes differ from RFC 5869");
      run.Nontrivial(Fmt("%d/%zu/%zu/%zu", big, prk.size(), info.size(), len));
    }
    return;
  }
  run.Rule("a case is one encryption or decryption of several with one key, sizes, segmentation and alterations found by coverage-guided mutation");
  ref::Aead a = kAll[rng.Plain(3)];
  unsigned salt = static_cast<unsigned>(rng.Below(12));
  Box b = MakeBox(run, a, rng.Key(ref::KeySize(a)));
  if (!b.c) return;
  for (int i = 0; i < 8 && !rng.Dry(); i++) {
    if (p == "C03") { Malformed(run, b, rng, salt++); continue; }
    if (p == "C01" && rng.Chance(1, 5)) { Repeated(run, b, rng, salt++); continue; }
    size_t n = rng.Len(rng.Chance(1, 6) ? 70000 : 600);
    Bytes nonce = rng.Data(kNonce), aad = rng.Data(rng.Len(rng.Chance(1, 10) ? 5000 : 100)), pt = rng.Data(n), ct = b.r->Seal(nonce, aad, pt);
    auto as = rng.Split(aad.size(), 8), ps = rng.Split(n, 20), cs = rng.Split(ct.size(), 20);
    if (p == "C01") {
      if (rng.Chance(1, 2)) EncOnce(run, b, nonce, aad, as, pt, ps, rng.Below(3), salt++);
      else DecOnce(run, b, nonce, aad, as, pt, ct, cs, rng.Below(3), salt++);
    } else {
      Bytes c = ct, nn = nonce, aa = aad;
      size_t out = n + rng.Below(2) * rng.Below(300);
      switch (rng.Below(7)) {
        case 0: c[n + rng.Below(kTag)] ^= static_cast<uint8_t>(1 << rng.Below(8)); break;
        case 1: c[rng.Below(c.size())] ^= static_cast<uint8_t>(1 << rng.Below(8)); break;
        case 2: c.resize(rng.Below(c.size())); break;
        case 3: c = Bytes(c.begin() + static_cast<long>(1 + rng.Below(c.size())), c.end()); break;
        case 4: nn[rng.Below(kNonce)] ^= static_cast<uint8_t>(1 << rng.Below(8)); break;
        case 5: if (aa.empty()) aa.push_back(0); else aa[rng.Below(aa.size())] ^= static_cast<uint8_t>(1 << rng.Below(8)); break;
        default: if (n == 0) continue; out = rng.Below(n); break;
      }
      MustReject(run, b, "guided", nn, aa, c, rng.Split(c.size(), 20), out, &pt, salt++);
      if (rng.Chance(1, 4)) DecOnce(run, b, nonce, aad, as, pt, ct, cs, 0, salt++);
    }
    run.Nontrivial(Fmt("%d%s%s%s", static_cast<int>(a), Show(as).c_str(), Show(ps).c_str(), Show(cs).c_str()));
  }
}
