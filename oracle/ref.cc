#include "ref.h"

#include <cstring>

namespace ref {
namespace {
// ---------------------------------------------------------------- SHA-2
const uint32_t K256[64] = {
    0x428a2f98, 0x71374491, 0xb5c0fbcf, 0xe9b5dba5, 0x3956c25b, 0x59f111f1,
    0x923f82a4, 0xab1c5ed5, 0xd807aa98, 0x12835b01, 0x243185be, 0x550c7dc3,
    0x72be5d74, 0x80deb1fe, 0x9bdc06a7, 0xc19bf174, 0xe49b69c1, 0xefbe4786,
    0x0fc19dc6, 0x240ca1cc, 0x2de92c6f, 0x4a7484aa, 0x5cb0a9dc, 0x76f988da,
    0x983e5152, 0xa831c66d, 0xb00327c8, 0xbf597fc7, 0xc6e00bf3, 0xd5a79147,
    0x06ca6351, 0x14292967, 0x27b70a85, 0x2e1b2138, 0x4d2c6dfc, 0x53380d13,
    0x650a7354, 0x766a0abb, 0x81c2c92e, 0x92722c85, 0xa2bfe8a1, 0xa81a664b,
    0xc24b8b70, 0xc76c51a3, 0xd192e819, 0xd6990624, 0xf40e3585, 0x106aa070,
    0x19a4c116, 0x1e376c08, 0x2748774c, 0x34b0bcb5, 0x391c0cb3, 0x4ed8aa4a,
    0x5b9cca4f, 0x682e6ff3, 0x748f82ee, 0x78a5636f, 0x84c87814, 0x8cc70208,
    0x90befffa, 0xa4506ceb, 0xbef9a3f7, 0xc67178f2};
// The SHA-512 constants are computed: fractional bits of cube roots of primes.
struct K512T {
  uint64_t k[80];
  K512T() {
    int n = 0;
    for (int p = 2; n < 80; p++) {
      bool prime = true;
      for (int q = 2; q * q <= p; q++) if (p % q == 0) prime = false;
      if (!prime) continue;
      // floor(cbrt(p) * 2^64) by bitwise search on a 67-bit value x with
      // x^3 <= p * 2^192.  Uses 256-bit arithmetic in 32-bit limbs.
      unsigned __int128 x = 0;
      for (int b = 66; b >= 0; b--) {
        unsigned __int128 t = x | (static_cast<unsigned __int128>(1) << b);
        if (CubeLe(t, p)) x = t;
      }
      k[n++] = static_cast<uint64_t>(x);
    }
  }
  static bool CubeLe(unsigned __int128 t, int p) {
    uint32_t a[3] = {static_cast<uint32_t>(t), static_cast<uint32_t>(t >> 32),
                     static_cast<uint32_t>(t >> 64)};
    uint32_t sq[7] = {0}, cu[11] = {0};
    Mul(a, 3, a, 3, sq);
    Mul(sq, 6, a, 3, cu);
    // Compare with p << 192, i.e. limb 6 = p.
    for (int i = 10; i > 6; i--) if (cu[i]) return false;
    if (cu[6] != static_cast<uint32_t>(p)) return cu[6] < static_cast<uint32_t>(p);
    for (int i = 5; i >= 0; i--) if (cu[i]) return false;
    return true;
  }
  static void Mul(const uint32_t* a, int na, const uint32_t* b, int nb, uint32_t* o) {
    for (int i = 0; i < na; i++) {
      uint64_t carry = 0;
      for (int j = 0; j < nb; j++) {
        uint64_t v = static_cast<uint64_t>(a[i]) * b[j] + o[i + j] + carry;
        o[i + j] = static_cast<uint32_t>(v);
        carry = v >> 32;
      }
      o[i + nb] = static_cast<uint32_t>(o[i + nb] + carry);
    }
  }
};
inline uint32_t R32(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
inline uint64_t R64(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }

Bytes Sha256(const uint8_t* m, size_t n) {
  uint32_t h[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a,
                   0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
  Bytes d(m, m + n);
  d.push_back(0x80);
  while (d.size() % 64 != 56) d.push_back(0);
  for (int i = 7; i >= 0; i--) d.push_back(static_cast<uint8_t>((static_cast<uint64_t>(n) * 8) >> (8 * i)));
  for (size_t o = 0; o < d.size(); o += 64) {
    uint32_t w[64];
    for (int i = 0; i < 16; i++)
      w[i] = (uint32_t(d[o + 4 * i]) << 24) | (uint32_t(d[o + 4 * i + 1]) << 16) |
             (uint32_t(d[o + 4 * i + 2]) << 8) | d[o + 4 * i + 3];
    for (int i = 16; i < 64; i++)
      w[i] = w[i - 16] + (R32(w[i - 15], 7) ^ R32(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 7] +
             (R32(w[i - 2], 17) ^ R32(w[i - 2], 19) ^ (w[i - 2] >> 10));
    uint32_t s[8];
    memcpy(s, h, sizeof(s));
    for (int i = 0; i < 64; i++) {
      uint32_t t1 = s[7] + (R32(s[4], 6) ^ R32(s[4], 11) ^ R32(s[4], 25)) +
                    ((s[4] & s[5]) ^ (~s[4] & s[6])) + K256[i] + w[i];
      uint32_t t2 = (R32(s[0], 2) ^ R32(s[0], 13) ^ R32(s[0], 22)) +
                    ((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]));
      for (int j = 7; j > 0; j--) s[j] = s[j - 1];
      s[4] += t1;
      s[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) h[i] += s[i];
  }
  Bytes out;
  for (int i = 0; i < 8; i++) for (int j = 3; j >= 0; j--) out.push_back(static_cast<uint8_t>(h[i] >> (8 * j)));
  return out;
}

Bytes Sha384(const uint8_t* m, size_t n) {
  static const K512T K;
  uint64_t h[8] = {0xcbbb9d5dc1059ed8ULL, 0x629a292a367cd507ULL, 0x9159015a3070dd17ULL,
                   0x152fecd8f70e5939ULL, 0x67332667ffc00b31ULL, 0x8eb44a8768581511ULL,
                   0xdb0c2e0d64f98fa7ULL, 0x47b5481dbefa4fa4ULL};
  Bytes d(m, m + n);
  d.push_back(0x80);
  while (d.size() % 128 != 112) d.push_back(0);
  for (int i = 0; i < 8; i++) d.push_back(0);
  for (int i = 7; i >= 0; i--) d.push_back(static_cast<uint8_t>((static_cast<uint64_t>(n) * 8) >> (8 * i)));
  for (size_t o = 0; o < d.size(); o += 128) {
    uint64_t w[80];
    for (int i = 0; i < 16; i++) {
      w[i] = 0;
      for (int j = 0; j < 8; j++) w[i] = (w[i] << 8) | d[o + 8 * i + j];
    }
    for (int i = 16; i < 80; i++)
      w[i] = w[i - 16] + (R64(w[i - 15], 1) ^ R64(w[i - 15], 8) ^ (w[i - 15] >> 7)) + w[i - 7] +
             (R64(w[i - 2], 19) ^ R64(w[i - 2], 61) ^ (w[i - 2] >> 6));
    uint64_t s[8];
    memcpy(s, h, sizeof(s));
    for (int i = 0; i < 80; i++) {
      uint64_t t1 = s[7] + (R64(s[4], 14) ^ R64(s[4], 18) ^ R64(s[4], 41)) +
                    ((s[4] & s[5]) ^ (~s[4] & s[6])) + K.k[i] + w[i];
      uint64_t t2 = (R64(s[0], 28) ^ R64(s[0], 34) ^ R64(s[0], 39)) +
                    ((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]));
      for (int j = 7; j > 0; j--) s[j] = s[j - 1];
      s[4] += t1;
      s[0] = t1 + t2;
    }
    for (int i = 0; i < 8; i++) h[i] += s[i];
  }
  Bytes out;
  for (int i = 0; i < 6; i++) for (int j = 7; j >= 0; j--) out.push_back(static_cast<uint8_t>(h[i] >> (8 * j)));
  return out;
}

// ---------------------------------------------------------------- AES
struct Sbox {
  uint8_t s[256];
  uint32_t t[4][256];
  Sbox() {
    // Multiplicative inverse in GF(2^8) followed by the affine map.
    uint8_t p = 1, q = 1;
    do {
      p = static_cast<uint8_t>(p ^ (p << 1) ^ ((p & 0x80) ? 0x1b : 0));
      q ^= static_cast<uint8_t>(q << 1);
      q ^= static_cast<uint8_t>(q << 2);
      q ^= static_cast<uint8_t>(q << 4);
      if (q & 0x80) q ^= 0x09;
      auto rot = [](uint8_t x, int n) { return static_cast<uint8_t>((x << n) | (x >> (8 - n))); };
      s[p] = static_cast<uint8_t>(q ^ rot(q, 1) ^ rot(q, 2) ^ rot(q, 3) ^ rot(q, 4) ^ 0x63);
    } while (p != 1);
    s[0] = 0x63;
    for (int i = 0; i < 256; i++) {
      uint8_t a = s[i];
      uint8_t a2 = static_cast<uint8_t>((a << 1) ^ ((a & 0x80) ? 0x1b : 0));
      uint8_t a3 = static_cast<uint8_t>(a2 ^ a);
      t[0][i] = (uint32_t(a2) << 24) | (uint32_t(a) << 16) | (uint32_t(a) << 8) | a3;
      for (int k = 1; k < 4; k++) t[k][i] = (t[0][i] >> (8 * k)) | (t[0][i] << (32 - 8 * k));
    }
  }
};
const Sbox& SB() { static const Sbox s; return s; }
}  // namespace

size_t DigestSize(Hash h) { return h == Hash::kSha256 ? 32 : 48; }
Bytes Digest(Hash h, const Bytes& m) {
  return h == Hash::kSha256 ? Sha256(m.data(), m.size()) : Sha384(m.data(), m.size());
}
Bytes Hmac(Hash h, const Bytes& key, const Bytes& m) {
  size_t block = h == Hash::kSha256 ? 64 : 128;
  Bytes k = key.size() > block ? Digest(h, key) : key;
  k.resize(block, 0);
  Bytes in, out;
  for (uint8_t b : k) { in.push_back(b ^ 0x36); out.push_back(b ^ 0x5c); }
  in.insert(in.end(), m.begin(), m.end());
  Bytes id = Digest(h, in);
  out.insert(out.end(), id.begin(), id.end());
  return Digest(h, out);
}
Bytes HkdfExpand(Hash h, const Bytes& prk, const Bytes& info, size_t len) {
  Bytes okm, t;
  for (int i = 1; okm.size() < len; i++) {
    Bytes m = t;
    m.insert(m.end(), info.begin(), info.end());
    m.push_back(static_cast<uint8_t>(i));
    t = Hmac(h, prk, m);
    okm.insert(okm.end(), t.begin(), t.end());
  }
  okm.resize(len);
  return okm;
}
Bytes HkdfExpandLabel(Hash h, const Bytes& secret, const std::string& label,
                      const Bytes& context, size_t len) {
  Bytes info = {static_cast<uint8_t>(len >> 8), static_cast<uint8_t>(len)};
  std::string full = "tls13 " + label;
  info.push_back(static_cast<uint8_t>(full.size()));
  info.insert(info.end(), full.begin(), full.end());
  info.push_back(static_cast<uint8_t>(context.size()));
  info.insert(info.end(), context.begin(), context.end());
  return HkdfExpand(h, secret, info, len);
}

Sealer::Sealer(Aead a, const Bytes& key) : aead_(a), key_(key) {
  if (a == Aead::kChachaPoly) return;
  int nk = static_cast<int>(key.size() / 4);
  rounds_ = nk + 6;
  const uint8_t* s = SB().s;
  auto sub = [&](uint32_t w) {
    return (uint32_t(s[w >> 24]) << 24) | (uint32_t(s[(w >> 16) & 255]) << 16) |
           (uint32_t(s[(w >> 8) & 255]) << 8) | s[w & 255];
  };
  uint8_t rcon = 1;
  for (int i = 0; i < 4 * (rounds_ + 1); i++) {
    if (i < nk) {
      rk_[i] = (uint32_t(key[4 * i]) << 24) | (uint32_t(key[4 * i + 1]) << 16) |
               (uint32_t(key[4 * i + 2]) << 8) | key[4 * i + 3];
      continue;
    }
    uint32_t t = rk_[i - 1];
    if (i % nk == 0) {
      t = sub((t << 8) | (t >> 24)) ^ (uint32_t(rcon) << 24);
      rcon = static_cast<uint8_t>((rcon << 1) ^ ((rcon & 0x80) ? 0x1b : 0));
    } else if (nk > 6 && i % nk == 4) {
      t = sub(t);
    }
    rk_[i] = rk_[i - nk] ^ t;
  }
  uint8_t z[16] = {0}, h[16];
  AesBlock(z, h);
  // Shoup 4-bit table for multiplication by H in GF(2^128), GCM bit order.
  uint64_t vh = 0, vl = 0;
  for (int i = 0; i < 8; i++) { vh = (vh << 8) | h[i]; vl = (vl << 8) | h[8 + i]; }
  mtab_hi_[0] = mtab_lo_[0] = 0;
  mtab_hi_[8] = vh; mtab_lo_[8] = vl;
  for (int i = 4; i > 0; i >>= 1) {
    uint64_t carry = vl & 1;
    vl = (vh << 63) | (vl >> 1);
    vh = (vh >> 1) ^ (carry ? 0xe100000000000000ULL : 0);
    mtab_hi_[i] = vh; mtab_lo_[i] = vl;
  }
  for (int i = 2; i <= 8; i *= 2)
    for (int j = 1; j < i; j++) {
      mtab_hi_[i + j] = mtab_hi_[i] ^ mtab_hi_[j];
      mtab_lo_[i + j] = mtab_lo_[i] ^ mtab_lo_[j];
    }
}

void Sealer::AesBlock(const uint8_t in[16], uint8_t out[16]) const {
  const Sbox& B = SB();
  uint32_t s[4], t[4];
  for (int i = 0; i < 4; i++)
    s[i] = ((uint32_t(in[4 * i]) << 24) | (uint32_t(in[4 * i + 1]) << 16) |
            (uint32_t(in[4 * i + 2]) << 8) | in[4 * i + 3]) ^ rk_[i];
  for (int r = 1; r < rounds_; r++) {
    for (int i = 0; i < 4; i++)
      t[i] = B.t[0][s[i] >> 24] ^ B.t[1][(s[(i + 1) & 3] >> 16) & 255] ^
             B.t[2][(s[(i + 2) & 3] >> 8) & 255] ^ B.t[3][s[(i + 3) & 3] & 255] ^ rk_[4 * r + i];
    memcpy(s, t, sizeof(s));
  }
  for (int i = 0; i < 4; i++) {
    uint32_t v = ((uint32_t(B.s[s[i] >> 24]) << 24) | (uint32_t(B.s[(s[(i + 1) & 3] >> 16) & 255]) << 16) |
                  (uint32_t(B.s[(s[(i + 2) & 3] >> 8) & 255]) << 8) | B.s[s[(i + 3) & 3] & 255]) ^
                 rk_[4 * rounds_ + i];
    for (int k = 0; k < 4; k++) out[4 * i + k] = static_cast<uint8_t>(v >> (24 - 8 * k));
  }
}

Bytes Sealer::GcmTag(const Bytes& nonce, const Bytes& aad, const Bytes& ct) const {
  static const uint64_t red[16] = {0x0000, 0x1c20, 0x3840, 0x2460, 0x7080, 0x6ca0, 0x48c0, 0x54e0,
                                   0xe100, 0xfd20, 0xd940, 0xc560, 0x9180, 0x8da0, 0xa9c0, 0xb5e0};
  uint8_t y[16] = {0};
  auto mul = [&]() {
    uint64_t zh, zl;
    uint8_t lo = y[15] & 0xf, hi;
    zh = mtab_hi_[lo]; zl = mtab_lo_[lo];
    for (int i = 15; i >= 0; i--) {
      lo = y[i] & 0xf; hi = y[i] >> 4;
      if (i != 15) {
        uint64_t rem = zl & 0xf;
        zl = (zh << 60) | (zl >> 4);
        zh = (zh >> 4) ^ (red[rem] << 48);
        zh ^= mtab_hi_[lo]; zl ^= mtab_lo_[lo];
      }
      uint64_t rem = zl & 0xf;
      zl = (zh << 60) | (zl >> 4);
      zh = (zh >> 4) ^ (red[rem] << 48);
      zh ^= mtab_hi_[hi]; zl ^= mtab_lo_[hi];
    }
    for (int i = 0; i < 8; i++) {
      y[i] = static_cast<uint8_t>(zh >> (56 - 8 * i));
      y[8 + i] = static_cast<uint8_t>(zl >> (56 - 8 * i));
    }
  };
  auto absorb = [&](const Bytes& d) {
    for (size_t o = 0; o < d.size(); o += 16) {
      for (size_t i = 0; i < 16 && o + i < d.size(); i++) y[i] ^= d[o + i];
      mul();
    }
  };
  absorb(aad);
  absorb(ct);
  uint64_t la = static_cast<uint64_t>(aad.size()) * 8, lc = static_cast<uint64_t>(ct.size()) * 8;
  for (int i = 0; i < 8; i++) {
    y[i] ^= static_cast<uint8_t>(la >> (56 - 8 * i));
    y[8 + i] ^= static_cast<uint8_t>(lc >> (56 - 8 * i));
  }
  mul();
  uint8_t j0[16] = {0}, e[16];
  memcpy(j0, nonce.data(), 12);
  j0[15] = 1;
  AesBlock(j0, e);
  Bytes tag(16);
  for (int i = 0; i < 16; i++) tag[i] = y[i] ^ e[i];
  return tag;
}

namespace {
inline uint32_t Rl(uint32_t x, int n) { return (x << n) | (x >> (32 - n)); }
void ChachaBlock(const uint8_t* key, const uint8_t* nonce, uint32_t ctr, uint8_t out[64]) {
  uint32_t s[16] = {0x61707865, 0x3320646e, 0x79622d32, 0x6b206574};
  for (int i = 0; i < 8; i++) s[4 + i] = key[4 * i] | (uint32_t(key[4 * i + 1]) << 8) | (uint32_t(key[4 * i + 2]) << 16) | (uint32_t(key[4 * i + 3]) << 24);
  s[12] = ctr;
  for (int i = 0; i < 3; i++) s[13 + i] = nonce[4 * i] | (uint32_t(nonce[4 * i + 1]) << 8) | (uint32_t(nonce[4 * i + 2]) << 16) | (uint32_t(nonce[4 * i + 3]) << 24);
  uint32_t w[16];
  memcpy(w, s, sizeof(w));
  auto qr = [&](int a, int b, int c, int d) {
    w[a] += w[b]; w[d] = Rl(w[d] ^ w[a], 16);
    w[c] += w[d]; w[b] = Rl(w[b] ^ w[c], 12);
    w[a] += w[b]; w[d] = Rl(w[d] ^ w[a], 8);
    w[c] += w[d]; w[b] = Rl(w[b] ^ w[c], 7);
  };
  for (int i = 0; i < 10; i++) {
    qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15);
    qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14);
  }
  for (int i = 0; i < 16; i++) {
    uint32_t v = w[i] + s[i];
    for (int k = 0; k < 4; k++) out[4 * i + k] = static_cast<uint8_t>(v >> (8 * k));
  }
}
}  // namespace

Bytes Sealer::PolyTag(const Bytes& nonce, const Bytes& aad, const Bytes& ct) const {
  uint8_t blk[64];
  ChachaBlock(key_.data(), nonce.data(), 0, blk);
  typedef unsigned __int128 u128;
  auto le64 = [](const uint8_t* p) { uint64_t v = 0; for (int i = 7; i >= 0; i--) v = (v << 8) | p[i]; return v; };
  uint64_t r0 = le64(blk) & 0x0ffffffc0fffffffULL, r1 = le64(blk + 8) & 0x0ffffffc0ffffffcULL;
  uint64_t h0 = 0, h1 = 0, h2 = 0;
  Bytes m = aad;
  while (m.size() % 16) m.push_back(0);
  m.insert(m.end(), ct.begin(), ct.end());
  while (m.size() % 16) m.push_back(0);
  for (int i = 0; i < 8; i++) m.push_back(static_cast<uint8_t>(static_cast<uint64_t>(aad.size()) >> (8 * i)));
  for (int i = 0; i < 8; i++) m.push_back(static_cast<uint8_t>(static_cast<uint64_t>(ct.size()) >> (8 * i)));
  for (size_t o = 0; o < m.size(); o += 16) {
    u128 t = static_cast<u128>(h0) + le64(&m[o]);
    h0 = static_cast<uint64_t>(t);
    t = static_cast<u128>(h1) + le64(&m[o + 8]) + static_cast<uint64_t>(t >> 64);
    h1 = static_cast<uint64_t>(t);
    h2 += static_cast<uint64_t>(t >> 64) + 1;
    // h *= r mod 2^130 - 5
    u128 d0 = static_cast<u128>(h0) * r0;
    u128 m01 = static_cast<u128>(h0) * r1, m10 = static_cast<u128>(h1) * r0;
    u128 m11 = static_cast<u128>(h1) * r1;
    uint64_t l0 = static_cast<uint64_t>(d0);
    u128 acc = (d0 >> 64) + static_cast<uint64_t>(m01) + static_cast<uint64_t>(m10);
    uint64_t l1 = static_cast<uint64_t>(acc);
    acc = (acc >> 64) + (m01 >> 64) + (m10 >> 64) + static_cast<uint64_t>(m11) + h2 * r0;
    uint64_t l2 = static_cast<uint64_t>(acc);
    uint64_t l3 = static_cast<uint64_t>((acc >> 64) + (m11 >> 64) + h2 * r1);
    h0 = l0; h1 = l1; h2 = l2 & 3;
    u128 c = (static_cast<u128>(l3) << 64) | (l2 & ~3ULL);  // = 4 * q
    u128 add = c + (c >> 2);                                 // 5 * q
    t = static_cast<u128>(h0) + static_cast<uint64_t>(add);
    h0 = static_cast<uint64_t>(t);
    t = static_cast<u128>(h1) + static_cast<uint64_t>(add >> 64) + static_cast<uint64_t>(t >> 64);
    h1 = static_cast<uint64_t>(t);
    h2 += static_cast<uint64_t>(t >> 64);
  }
  // Final reduction.
  for (int pass = 0; pass < 2; pass++) {
    u128 t = static_cast<u128>(h0) + 5;
    uint64_t g0 = static_cast<uint64_t>(t);
    t = static_cast<u128>(h1) + static_cast<uint64_t>(t >> 64);
    uint64_t g1 = static_cast<uint64_t>(t);
    uint64_t g2 = h2 + static_cast<uint64_t>(t >> 64);
    if (g2 >= 4) { h0 = g0; h1 = g1; h2 = g2 - 4; }
  }
  u128 t = static_cast<u128>(h0) + le64(blk + 16);
  uint64_t o0 = static_cast<uint64_t>(t);
  uint64_t o1 = static_cast<uint64_t>(static_cast<u128>(h1) + le64(blk + 24) + static_cast<uint64_t>(t >> 64));
  Bytes tag(16);
  for (int i = 0; i < 8; i++) { tag[i] = static_cast<uint8_t>(o0 >> (8 * i)); tag[8 + i] = static_cast<uint8_t>(o1 >> (8 * i)); }
  return tag;
}

Bytes Sealer::Xor(const Bytes& nonce, const Bytes& in) const {
  Bytes out(in.size());
  if (aead_ == Aead::kChachaPoly) {
    uint8_t blk[64];
    uint32_t ctr = 1;
    for (size_t o = 0; o < in.size(); o += 64, ctr++) {
      ChachaBlock(key_.data(), nonce.data(), ctr, blk);
      for (size_t i = 0; i < 64 && o + i < in.size(); i++) out[o + i] = in[o + i] ^ blk[i];
    }
    return out;
  }
  uint8_t ctr[16] = {0}, e[16];
  memcpy(ctr, nonce.data(), 12);
  uint32_t c = 2;
  for (size_t o = 0; o < in.size(); o += 16, c++) {
    for (int k = 0; k < 4; k++) ctr[12 + k] = static_cast<uint8_t>(c >> (24 - 8 * k));
    AesBlock(ctr, e);
    for (size_t i = 0; i < 16 && o + i < in.size(); i++) out[o + i] = in[o + i] ^ e[i];
  }
  return out;
}
Bytes Sealer::Seal(const Bytes& nonce, const Bytes& aad, const Bytes& pt) const {
  Bytes ct = Xor(nonce, pt);
  Bytes tag = aead_ == Aead::kChachaPoly ? PolyTag(nonce, aad, ct) : GcmTag(nonce, aad, ct);
  ct.insert(ct.end(), tag.begin(), tag.end());
  return ct;
}
bool Sealer::Open(const Bytes& nonce, const Bytes& aad, const Bytes& ct_and_tag, Bytes* pt) const {
  if (ct_and_tag.size() < 16) return false;
  Bytes ct(ct_and_tag.begin(), ct_and_tag.end() - 16);
  Bytes tag = aead_ == Aead::kChachaPoly ? PolyTag(nonce, aad, ct) : GcmTag(nonce, aad, ct);
  if (!std::equal(tag.begin(), tag.end(), ct_and_tag.end() - 16)) return false;
  *pt = Xor(nonce, ct);
  return true;
}

Tls13Half::Tls13Half(Aead a, const Bytes& secret, uint64_t seq)
    : aead_(a), hash_(HashOf(a)), secret_(secret), seq_(seq) { Derive(); }
void Tls13Half::Derive() {
  key_ = HkdfExpandLabel(hash_, secret_, "key", {}, KeySize(aead_));
  iv_ = HkdfExpandLabel(hash_, secret_, "iv", {}, 12);
  sealer_.clear();
  sealer_.push_back(Sealer(aead_, key_));
}
void Tls13Half::KeyUpdate() {
  secret_ = HkdfExpandLabel(hash_, secret_, "traffic upd", {}, DigestSize(hash_));
  seq_ = 0;
  Derive();
}
Bytes Tls13Half::Nonce(uint64_t seq) const {
  Bytes n = iv_;
  for (int i = 0; i < 8; i++) n[4 + i] ^= static_cast<uint8_t>(seq >> (56 - 8 * i));
  return n;
}
Bytes Tls13Half::ProtectInner(const Bytes& inner) {
  size_t n = inner.size() + 16;
  Bytes rec = {0x17, 0x03, 0x03, static_cast<uint8_t>(n >> 8), static_cast<uint8_t>(n)};
  Bytes ct = sealer_[0].Seal(Nonce(seq_++), rec, inner);
  rec.insert(rec.end(), ct.begin(), ct.end());
  return rec;
}
Bytes Tls13Half::Protect(uint8_t type, const Bytes& content, size_t padding) {
  Bytes inner = content;
  inner.push_back(type);
  inner.resize(inner.size() + padding, 0);
  return ProtectInner(inner);
}
bool Tls13Half::Unprotect(const Bytes& record, Bytes* inner) {
  if (record.size() < 5 + 17) return false;
  Bytes hdr(record.begin(), record.begin() + 5), body(record.begin() + 5, record.end());
  return sealer_[0].Open(Nonce(seq_++), hdr, body, inner);
}

// ---------------------------------------------------------------- self test
namespace {
Bytes Hex(const std::string& s) {
  Bytes o;
  for (size_t i = 0; i + 1 < s.size(); i += 2) o.push_back(static_cast<uint8_t>(std::stoi(s.substr(i, 2), nullptr, 16)));
  return o;
}
Bytes Str(const std::string& s) { return Bytes(s.begin(), s.end()); }
}  // namespace
bool Sealer::SelfTest(std::string* why) {
  auto expect = [&](const Bytes& a, const std::string& hex, const char* name) {
    if (a == Hex(hex)) return true;
    *why = name;
    return false;
  };
  bool ok = true;
  ok &= expect(Digest(Hash::kSha256, Str("abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad", "sha256");
  ok &= expect(Digest(Hash::kSha384, Str("abc")), "cb00753f45a35e8bb5a03d699ac65007272c32ab0eded1631a8b605a43ff5bed8086072ba1e7cc2358baeca134c825a7", "sha384");
  ok &= expect(Hmac(Hash::kSha256, Bytes(131, 0xaa), Str("Test Using Larger Than Block-Size Key - Hash Key First")), "60e431591ee0b67f0d8a26aacbf5b77f8e0bc6213728c5140546040f0ee37f54", "hmac256");
  ok &= expect(Hmac(Hash::kSha384, Bytes(20, 0x0b), Str("Hi There")), "afd03944d84895626b0825f4ab46907f15f9dadbe4101ec682aa034c7cebc59cfaea9ea9076ede7f4af152e8b2fa9cb6", "hmac384");
  ok &= expect(HkdfExpand(Hash::kSha256, Hex("077709362c2e32df0ddc3f0dc47bba6390b6c73bb50f9c3122ec844ad7c2b3e5"), Hex("f0f1f2f3f4f5f6f7f8f9"), 42), "3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865", "hkdf256");
  {
    Sealer s(Aead::kAes128Gcm, Hex("feffe9928665731c6d6a8f9467308308"));
    ok &= expect(s.Seal(Hex("cafebabefacedbaddecaf888"), Hex("feedfacedeadbeeffeedfacedeadbeefabaddad2"),
                        Hex("d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39")),
                 "42831ec2217774244b7221b784d0d49ce3aa212f2c02a4e035c17e2329aca12e21d514b25466931c7d8f6a5aac84aa051ba30b396a0aac973d58e0915bc94fbc3221a5db94fae95ae7121a47", "aes128gcm");
  }
  {
    Sealer s(Aead::kAes256Gcm, Hex("feffe9928665731c6d6a8f9467308308feffe9928665731c6d6a8f9467308308"));
    ok &= expect(s.Seal(Hex("cafebabefacedbaddecaf888"), Hex("feedfacedeadbeeffeedfacedeadbeefabaddad2"),
                        Hex("d9313225f88406e5a55909c5aff5269a86a7a9531534f7da2e4c303d8a318a721c3c0c95956809532fcf0e2449a6b525b16aedf5aa0de657ba637b39")),
                 "522dc1f099567d07f47f37a32a84427d643a8cdcbfe5c0c97598a2bd2555d1aa8cb08e48590dbb3da7b08b1056828838c5f61e6393ba7a0abcc9f66276fc6ece0f4e1768cddf8853bb2d551b", "aes256gcm");
  }
  {
    Bytes key(32), nonce = Hex("070000004041424344454647");
    for (int i = 0; i < 32; i++) key[i] = static_cast<uint8_t>(0x80 + i);
    Sealer s(Aead::kChachaPoly, key);
    ok &= expect(s.Seal(nonce, Hex("50515253c0c1c2c3c4c5c6c7"),
                        Str("Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.")),
                 "d31a8d34648e60db7b86afbc53ef7ec2a4aded51296e08fea9e2b5a736ee62d63dbea45e8ca9671282fafb69da92728b1a71de0a9e060b2905d6a5b67ecd3b3692ddbd7f2d778b8c9803aee328091b58fab324e4fad675945585808b4831d7bc3ff4def08e4b7a9de576d26586cec64b6116" "1ae10b594f09e26a7e902ecbd0600691", "chachapoly");
  }
  return ok;
}
}  // namespace ref
