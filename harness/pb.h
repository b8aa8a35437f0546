// A small protobuf wire-format reader and writer, independent of upb and of
// the stand-in in shim/.
#ifndef VERIF_PB_H_
#define VERIF_PB_H_
#include <cstdint>
#include <string>
#include <vector>
namespace pb {
inline void Varint(std::string* o, uint64_t v) {
  while (v >= 0x80) { o->push_back(static_cast<char>(v | 0x80)); v >>= 7; }
  o->push_back(static_cast<char>(v));
}
struct W {
  std::string s;
  W& V(int field, uint64_t v) { Varint(&s, static_cast<uint64_t>(field) << 3); Varint(&s, v); return *this; }
  W& B(int field, const std::string& b) { Varint(&s, static_cast<uint64_t>(field) << 3 | 2); Varint(&s, b.size()); s += b; return *this; }
  W& M(int field, const W& m) { return B(field, m.s); }
};
struct F { int field; int wt; uint64_t v; std::string b; };
// A parsed message: its fields in wire order.
struct R {
  std::vector<F> f;
  bool ok = false;
  R() {}
  explicit R(const std::string& s) { ok = Parse(s); }
  bool Parse(const std::string& s) {
    size_t i = 0;
    auto var = [&](uint64_t* v) {
      *v = 0;
      for (int sh = 0; sh < 70; sh += 7) {
        if (i >= s.size()) return false;
        uint8_t c = static_cast<uint8_t>(s[i++]);
        if (sh < 64) *v |= static_cast<uint64_t>(c & 0x7f) << sh;
        if (!(c & 0x80)) return true;
      }
      return false;
    };
    while (i < s.size()) {
      uint64_t t;
      if (!var(&t)) return false;
      F x;
      x.field = static_cast<int>(t >> 3);
      x.wt = static_cast<int>(t & 7);
      x.v = 0;
      if (x.field == 0) return false;
      if (x.wt == 0) { if (!var(&x.v)) return false; }
      else if (x.wt == 2) { uint64_t n; if (!var(&n) || n > s.size() - i) return false; x.b = s.substr(i, n); i += n; }
      else if (x.wt == 1 || x.wt == 5) { size_t n = x.wt == 1 ? 8 : 4; if (s.size() - i < n) return false; x.b = s.substr(i, n); i += n; }
      else return false;
      f.push_back(x);
    }
    return true;
  }
  int Count(int field) const { int n = 0; for (auto& x : f) n += x.field == field; return n; }
  bool Has(int field) const { return Count(field) > 0; }
  uint64_t U(int field) const { uint64_t r = 0; for (auto& x : f) if (x.field == field) r = x.v; return r; }
  std::string S(int field) const { std::string r; for (auto& x : f) if (x.field == field) r = x.b; return r; }
  std::vector<std::string> All(int field) const { std::vector<std::string> r; for (auto& x : f) if (x.field == field) r.push_back(x.b); return r; }
  // A repeated number, packed or not.
  std::vector<uint64_t> Nums(int field) const {
    std::vector<uint64_t> r;
    for (auto& x : f) {
      if (x.field != field) continue;
      if (x.wt == 0) { r.push_back(x.v); continue; }
      size_t i = 0;
      while (i < x.b.size()) {
        uint64_t v = 0;
        for (int sh = 0; i < x.b.size(); sh += 7) { uint8_t c = static_cast<uint8_t>(x.b[i++]); if (sh < 64) v |= static_cast<uint64_t>(c & 0x7f) << sh; if (!(c & 0x80)) break; }
        r.push_back(v);
      }
    }
    return r;
  }
  // No field numbers outside the list.
  bool Only(std::initializer_list<int> l) const {
    for (auto& x : f) { bool in = false; for (int k : l) in |= k == x.field; if (!in) return false; }
    return true;
  }
};
}  // namespace pb
#endif
