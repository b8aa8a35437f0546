#include "wrap_ssl.h"

#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#ifdef OPENSSL_IS_BORINGSSL
#include <openssl/aead.h>
#endif
#include <sched.h>
#include <string.h>
#include <atomic>
#include <map>
#include <mutex>
#include <set>
#include <string>

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
extern "C" void __tsan_write_range(void*, unsigned long);
#define TOUCH(c) do { if (const void* touched = (c)) __tsan_write_range(const_cast<void*>(touched), 1); } while (0)
#endif
#endif
#ifndef TOUCH
// Under ThreadSanitizer the (uninstrumented) library's use of a context is
// announced as a write to it.
#define TOUCH(c) (void)(c)
#endif

namespace wrapssl {
namespace {
std::atomic<long> g_calls{0}, g_fired{0}, g_k{0};
std::atomic<int> g_mode{0};
std::atomic<bool> g_delay{false}, g_rec{false};
const char* g_last = "";
std::mutex& Mu() { static auto* m = new std::mutex; return *m; }
struct Ctx { std::string key, nonce; bool counted; };
std::map<const void*, Ctx>& Ctxs() { static auto* m = new std::map<const void*, Ctx>; return *m; }
std::set<std::pair<std::string, std::string>>& Seen() { static auto* m = new std::set<std::pair<std::string, std::string>>; return *m; }
std::atomic<long> g_seen{0}, g_reuse{0};
std::string g_reuse_desc;

// 0: go on; 1: fail; 2: do it and then fail.
int Fail(const char* name) {
  if (g_delay.load(std::memory_order_relaxed)) {
    static thread_local unsigned r = 12345u + static_cast<unsigned>(reinterpret_cast<uintptr_t>(&r) >> 4);
    r = r * 1664525u + 1013904223u;
    if (((r >> 16) & 15) == 0) sched_yield();
  }
  // Relaxed: this counter must not order the threads for ThreadSanitizer.
  long n = g_calls.fetch_add(1, std::memory_order_relaxed) + 1;
  long k = g_k.load(std::memory_order_relaxed);
  if (k != 0 && (n == k || (g_mode.load(std::memory_order_relaxed) == 1 && n > k))) {
    g_fired++;
    g_last = name;
    // Leave an entry on the error queue, as a failing library call does.
#ifdef OPENSSL_IS_BORINGSSL
    ERR_put_error(ERR_LIB_EVP, 0, 3, __FILE__, __LINE__);
#else
    ERR_put_error(ERR_LIB_EVP, 0, ERR_R_INTERNAL_ERROR, __FILE__, __LINE__);
#endif
    return g_mode.load(std::memory_order_relaxed) == 2 ? 2 : 1;
  }
  return 0;
}
std::string Hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string o;
  for (unsigned char c : s) { o.push_back(d[c >> 4]); o.push_back(d[c & 15]); }
  return o;
}
void Use(const std::string& key, const std::string& nonce) {
  g_seen++;
  if (!Seen().insert({key, nonce}).second) {
    g_reuse++;
    g_reuse_desc = "key " + Hex(key) + " nonce " + Hex(nonce);
  }
}
void NoteInit(const void* ctx, const unsigned char* key, size_t klen, const unsigned char* iv, bool enc) {
  if (!g_rec.load(std::memory_order_relaxed)) return;
  std::lock_guard<std::mutex> l(Mu());
  Ctx& c = Ctxs()[ctx];
  if (key) c.key.assign(reinterpret_cast<const char*>(key), klen);
  if (iv && enc) { c.nonce.assign(reinterpret_cast<const char*>(iv), 12); c.counted = false; }
  if (iv && !enc) c.nonce.clear();
}
void NoteUpdate(const void* ctx, bool out) {
  if (!g_rec.load(std::memory_order_relaxed) || !out) return;
  std::lock_guard<std::mutex> l(Mu());
  Ctx& c = Ctxs()[ctx];
  if (c.nonce.empty() || c.counted) return;
  c.counted = true;
  Use(c.key, c.nonce);
}
}  // namespace
void Arm(long k, int mode) { g_calls = 0; g_fired = 0; g_mode = mode; g_k = k; g_last = ""; }
long Calls() { return g_calls; }
long Fired() { return g_fired; }
const char* LastFired() { return g_last; }
void SetDelay(bool on) { g_delay = on; }
void RecordNonces(bool on) { g_rec = on; }
long NoncesSeen() { return g_seen; }
long NonceReuse() { return g_reuse; }
std::string LastReuse() { return g_reuse_desc; }
void ResetNonces() {
  std::lock_guard<std::mutex> l(Mu());
  Ctxs().clear(); Seen().clear(); g_seen = 0; g_reuse = 0;
}
}  // namespace wrapssl

using wrapssl::Fail;
extern "C" {
#define W(ret, name, params, args, failval, ctx) \
  ret __real_##name params;                      \
  ret __wrap_##name params {                     \
    TOUCH(ctx);                                  \
    int failing = Fail(#name);                   \
    if (failing == 1) return failval;            \
    ret result = __real_##name args;             \
    return failing == 2 ? failval : result;      \
  }
// (Nothing to hand over: doing the work first would only leak it.)
EVP_CIPHER_CTX* __real_EVP_CIPHER_CTX_new(void);
EVP_CIPHER_CTX* __wrap_EVP_CIPHER_CTX_new(void) { return Fail("EVP_CIPHER_CTX_new") ? nullptr : __real_EVP_CIPHER_CTX_new(); }
HMAC_CTX* __real_HMAC_CTX_new(void);
HMAC_CTX* __wrap_HMAC_CTX_new(void) { return Fail("HMAC_CTX_new") ? nullptr : __real_HMAC_CTX_new(); }
W(int, EVP_CIPHER_CTX_ctrl, (EVP_CIPHER_CTX * c, int t, int a, void* p), (c, t, a, p), 0, c)
W(int, EVP_EncryptFinal_ex, (EVP_CIPHER_CTX * c, unsigned char* o, int* l), (c, o, l), 0, c)
W(int, EVP_DecryptFinal_ex, (EVP_CIPHER_CTX * c, unsigned char* o, int* l), (c, o, l), 0, c)
W(int, EVP_CipherFinal_ex, (EVP_CIPHER_CTX * c, unsigned char* o, int* l), (c, o, l), 0, c)
W(int, EVP_DecryptUpdate, (EVP_CIPHER_CTX * c, unsigned char* o, int* l, const unsigned char* i, int n), (c, o, l, i, n), 0, c)
W(int, HMAC_Init_ex, (HMAC_CTX * c, const void* k, HLEN n, const EVP_MD* m, ENGINE* e), (c, k, n, m, e), 0, c)
W(int, HMAC_Update, (HMAC_CTX * c, const unsigned char* d, size_t n), (c, d, n), 0, c)
W(int, HMAC_Final, (HMAC_CTX * c, unsigned char* d, unsigned int* n), (c, d, n), 0, c)

int __real_EVP_EncryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* iv);
int __wrap_EVP_EncryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* iv) {
  TOUCH(c);
  int failing = Fail("EVP_EncryptInit_ex");
  if (failing == 1) return 0;
  wrapssl::NoteInit(c, k, k && t ? static_cast<size_t>(EVP_CIPHER_key_length(t)) : 0, iv, true);
  int result = __real_EVP_EncryptInit_ex(c, t, e, k, iv);
  return failing == 2 ? 0 : result;
}
int __real_EVP_DecryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* iv);
int __wrap_EVP_DecryptInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* iv) {
  TOUCH(c);
  int failing = Fail("EVP_DecryptInit_ex");
  if (failing == 1) return 0;
  wrapssl::NoteInit(c, k, k && t ? static_cast<size_t>(EVP_CIPHER_key_length(t)) : 0, iv, false);
  int result = __real_EVP_DecryptInit_ex(c, t, e, k, iv);
  return failing == 2 ? 0 : result;
}
int __real_EVP_CipherInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* iv, int enc);
int __wrap_EVP_CipherInit_ex(EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* iv, int enc) {
  TOUCH(c);
  int failing = Fail("EVP_CipherInit_ex");
  if (failing == 1) return 0;
  wrapssl::NoteInit(c, k, k && t ? static_cast<size_t>(EVP_CIPHER_key_length(t)) : 0, iv, enc == 1);
  int result = __real_EVP_CipherInit_ex(c, t, e, k, iv, enc);
  return failing == 2 ? 0 : result;
}
int __real_EVP_EncryptUpdate(EVP_CIPHER_CTX* c, unsigned char* o, int* l, const unsigned char* i, int n);
int __wrap_EVP_EncryptUpdate(EVP_CIPHER_CTX* c, unsigned char* o, int* l, const unsigned char* i, int n) {
  TOUCH(c);
  int failing = Fail("EVP_EncryptUpdate");
  if (failing == 1) return 0;
  wrapssl::NoteUpdate(c, o != nullptr);
  int result = __real_EVP_EncryptUpdate(c, o, l, i, n);
  return failing == 2 ? 0 : result;
}
int __real_EVP_CipherUpdate(EVP_CIPHER_CTX* c, unsigned char* o, int* l, const unsigned char* i, int n);
int __wrap_EVP_CipherUpdate(EVP_CIPHER_CTX* c, unsigned char* o, int* l, const unsigned char* i, int n) {
  TOUCH(c);
  int failing = Fail("EVP_CipherUpdate");
  if (failing == 1) return 0;
  wrapssl::NoteUpdate(c, o != nullptr);
  int result = __real_EVP_CipherUpdate(c, o, l, i, n);
  return failing == 2 ? 0 : result;
}
#ifdef OPENSSL_IS_BORINGSSL
EVP_AEAD_CTX* __real_EVP_AEAD_CTX_new(const EVP_AEAD* a, const uint8_t* k, size_t n, size_t t);
EVP_AEAD_CTX* __wrap_EVP_AEAD_CTX_new(const EVP_AEAD* a, const uint8_t* k, size_t n, size_t t) {
  if (Fail("EVP_AEAD_CTX_new")) return nullptr;
  EVP_AEAD_CTX* c = __real_EVP_AEAD_CTX_new(a, k, n, t);
  wrapssl::NoteInit(c, k, n, nullptr, true);
  return c;
}
int __real_EVP_AEAD_CTX_seal(const EVP_AEAD_CTX* c, uint8_t* o, size_t* ol, size_t m, const uint8_t* nn, size_t nl, const uint8_t* i, size_t il, const uint8_t* a, size_t al);
int __wrap_EVP_AEAD_CTX_seal(const EVP_AEAD_CTX* c, uint8_t* o, size_t* ol, size_t m, const uint8_t* nn, size_t nl, const uint8_t* i, size_t il, const uint8_t* a, size_t al) {
  int failing = Fail("EVP_AEAD_CTX_seal");
  if (failing == 1) return 0;
  wrapssl::NoteInit(c, nullptr, 0, nn, true);
  wrapssl::NoteUpdate(c, true);
  int result = __real_EVP_AEAD_CTX_seal(c, o, ol, m, nn, nl, i, il, a, al);
  return failing == 2 ? 0 : result;
}
// (A failing open clears its output: doing the work first would be no
// failure that the library can produce.)
int __real_EVP_AEAD_CTX_open(const EVP_AEAD_CTX* c, uint8_t* o, size_t* ol, size_t m, const uint8_t* nn, size_t nl, const uint8_t* i, size_t il, const uint8_t* a, size_t al);
int __wrap_EVP_AEAD_CTX_open(const EVP_AEAD_CTX* c, uint8_t* o, size_t* ol, size_t m, const uint8_t* nn, size_t nl, const uint8_t* i, size_t il, const uint8_t* a, size_t al) {
  return Fail("EVP_AEAD_CTX_open") ? 0 : __real_EVP_AEAD_CTX_open(c, o, ol, m, nn, nl, i, il, a, al);
}
#endif
}
