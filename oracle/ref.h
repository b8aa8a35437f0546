// Independent reference implementations used as oracles.  Written from FIPS-197,
// SP 800-38D, FIPS 180-4, RFC 2104, RFC 5869, RFC 8439, RFC 8446; they share no
// code with OpenSSL, BoringSSL or google/s2a-core.  run.py --selftest checks
// them against published vectors before anything is judged with them.
#ifndef VERIF_REF_H_
#define VERIF_REF_H_
#include <cstddef>
#include <cstdint>
#include <string>
#include <utility>
#include <vector>

namespace ref {
typedef std::vector<uint8_t> Bytes;

enum class Aead { kAes128Gcm, kAes256Gcm, kChachaPoly };
enum class Hash { kSha256, kSha384 };

Bytes Digest(Hash h, const Bytes& m);
Bytes Hmac(Hash h, const Bytes& key, const Bytes& m);
size_t DigestSize(Hash h);
Bytes HkdfExpand(Hash h, const Bytes& prk, const Bytes& info, size_t len);
// RFC 8446 7.1
Bytes HkdfExpandLabel(Hash h, const Bytes& secret, const std::string& label,
                      const Bytes& context, size_t len);

// A key schedule, so that one key can seal many messages cheaply.
class Sealer {
 public:
  Sealer(Aead a, const Bytes& key);
  // ciphertext || tag.  nonce must be 12 bytes.
  Bytes Seal(const Bytes& nonce, const Bytes& aad, const Bytes& pt) const;
  // False when the tag does not match.
  bool Open(const Bytes& nonce, const Bytes& aad, const Bytes& ct_and_tag,
            Bytes* pt) const;
  // The unauthenticated keystream XOR (for forging checks).
  Bytes Xor(const Bytes& nonce, const Bytes& in) const;
  static bool SelfTest(std::string* why);

 private:
  void AesBlock(const uint8_t in[16], uint8_t out[16]) const;
  Bytes GcmTag(const Bytes& nonce, const Bytes& aad, const Bytes& ct) const;
  Bytes PolyTag(const Bytes& nonce, const Bytes& aad, const Bytes& ct) const;
  Aead aead_;
  Bytes key_;
  int rounds_ = 0;
  uint32_t rk_[60];
  uint64_t mtab_hi_[16], mtab_lo_[16];
};

// The TLS 1.3 record layer in one direction (RFC 8446 5.2, 5.3, 7.2, 7.3).
class Tls13Half {
 public:
  Tls13Half(Aead a, const Bytes& secret, uint64_t seq);
  void KeyUpdate();
  // Content type, zero padding; returns the whole record.  Advances the
  // sequence number.
  Bytes Protect(uint8_t type, const Bytes& content, size_t padding = 0);
  Bytes ProtectInner(const Bytes& inner);  // arbitrary inner plaintext
  bool Unprotect(const Bytes& record, Bytes* inner);
  Bytes Nonce(uint64_t seq) const;
  uint64_t seq() const { return seq_; }
  void set_seq(uint64_t s) { seq_ = s; }
  const Bytes& key() const { return key_; }
  const Bytes& iv() const { return iv_; }
  const Bytes& secret() const { return secret_; }

 private:
  void Derive();
  Aead aead_;
  Hash hash_;
  Bytes secret_, key_, iv_;
  uint64_t seq_;
  std::vector<Sealer> sealer_;
};
inline Hash HashOf(Aead a) { return a == Aead::kAes256Gcm ? Hash::kSha384 : Hash::kSha256; }
inline size_t KeySize(Aead a) { return a == Aead::kAes128Gcm ? 16 : 32; }
}  // namespace ref
#endif
