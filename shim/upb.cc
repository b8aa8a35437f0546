// Implementation of the upb stand-in; see upb/msg.h.
#include <stdlib.h>
#include <string>
#include <vector>
#include "upb/decode.h"
#include "upb/encode.h"
#include "upb/msg.h"

struct upb_arena {
  std::vector<void*> blocks;
};

namespace {
typedef upb_msglayout Layout;
typedef upb_msglayout_field Field;

struct MapEntry {  // Also what the generated entry accessors are handed.
  upb_strview key;
  upb_strview val;
};
struct Map {
  MapEntry** entries;
  size_t len, cap;
};

enum { kDouble = 1, kFloat = 2, kInt64 = 3, kUint64 = 4, kInt32 = 5, kFixed64 = 6,
       kFixed32 = 7, kBool = 8, kString = 9, kGroup = 10, kMessage = 11, kBytes = 12,
       kUint32 = 13, kEnum = 14, kSfixed32 = 15, kSfixed64 = 16, kSint32 = 17,
       kSint64 = 18 };

int Lg2(int type) {
  switch (type) {
    case kBool: return 0;
    case kFloat: case kInt32: case kFixed32: case kUint32: case kEnum:
    case kSfixed32: case kSint32: return 2;
    case kString: case kBytes: return 4;
    default: return 3;
  }
}
int WireType(int type) {
  switch (type) {
    case kDouble: case kFixed64: case kSfixed64: return 1;
    case kFloat: case kFixed32: case kSfixed32: return 5;
    case kString: case kBytes: case kMessage: return 2;
    case kGroup: return 3;
    default: return 0;
  }
}
template <class T> T* At(const void* msg, size_t ofs) {
  return reinterpret_cast<T*>(static_cast<char*>(const_cast<void*>(msg)) + ofs);
}
bool ValidUtf8(const char* d, size_t n) {
  const unsigned char* s = reinterpret_cast<const unsigned char*>(d);
  for (size_t i = 0; i < n;) {
    unsigned char c = s[i];
    if (c < 0x80) { i++; continue; }
    size_t len; uint32_t cp;
    if (c >= 0xC2 && c <= 0xDF) { len = 2; cp = c & 0x1F; }
    else if (c >= 0xE0 && c <= 0xEF) { len = 3; cp = c & 0x0F; }
    else if (c >= 0xF0 && c <= 0xF4) { len = 4; cp = c & 0x07; }
    else return false;
    if (i + len > n) return false;
    for (size_t k = 1; k < len; k++) {
      if ((s[i + k] & 0xC0) != 0x80) return false;
      cp = (cp << 6) | (s[i + k] & 0x3F);
    }
    if (len == 3 && (cp < 0x800 || (cp >= 0xD800 && cp <= 0xDFFF))) return false;
    if (len == 4 && (cp < 0x10000 || cp > 0x10FFFF)) return false;
    i += len;
  }
  return true;
}
}  // namespace

extern "C" {
upb_arena* upb_arena_new(void) { return new upb_arena; }
void upb_arena_free(upb_arena* a) {
  for (void* p : a->blocks) free(p);
  delete a;
}
void* upb_arena_malloc(upb_arena* a, size_t size) {
  void* p = malloc(size ? size : 1);
  a->blocks.push_back(p);
  return p;
}
void* upb_arena_realloc(upb_arena* a, void* ptr, size_t oldsize, size_t size) {
  void* p = upb_arena_malloc(a, size);
  if (oldsize) memcpy(p, ptr, oldsize < size ? oldsize : size);
  return p;
}
upb_msg* _upb_msg_new(const Layout* l, upb_arena* a) {
  void* p = upb_arena_malloc(a, l->size);
  memset(p, 0, l->size ? l->size : 1);
  return p;
}
const void* _upb_array_accessor(const void* msg, size_t ofs, size_t* size) {
  const upb_array* arr = *At<upb_array*>(msg, ofs);
  if (size) *size = arr ? arr->len : 0;
  return arr ? arr->data : nullptr;
}
void* _upb_array_mutable_accessor(void* msg, size_t ofs, size_t* size) {
  return const_cast<void*>(_upb_array_accessor(msg, ofs, size));
}
void* _upb_array_resize_accessor2(void* msg, size_t ofs, size_t size, int lg2,
                                  upb_arena* arena) {
  upb_array** slot = At<upb_array*>(msg, ofs);
  if (*slot == nullptr) {
    *slot = static_cast<upb_array*>(upb_arena_malloc(arena, sizeof(upb_array)));
    memset(*slot, 0, sizeof(upb_array));
    (*slot)->lg2 = static_cast<uint8_t>(lg2);
    // upb gives a new array room for four elements, whatever the size asked.
    (*slot)->data = upb_arena_malloc(arena, size_t{4} << lg2);
    (*slot)->size = 4;
  }
  upb_array* arr = *slot;
  if (size > arr->size) {
    arr->data = upb_arena_realloc(arena, arr->data, arr->len << lg2, size << lg2);
    arr->size = size;
  }
  arr->len = size;
  return arr->data;
}
bool _upb_array_append_accessor2(void* msg, size_t ofs, int lg2,
                                 const void* value, upb_arena* arena) {
  upb_array* arr = *At<upb_array*>(msg, ofs);
  size_t i = arr ? arr->len : 0;
  if (!arr || arr->len == arr->size) {
    _upb_array_resize_accessor2(msg, ofs, i < 4 ? 4 : 2 * i, lg2, arena);
    arr = *At<upb_array*>(msg, ofs);
  }
  arr->len = i + 1;
  memcpy(static_cast<char*>(arr->data) + (i << lg2), value, size_t{1} << lg2);
  return true;
}
size_t _upb_msg_map_size(const upb_msg* msg, size_t ofs) {
  Map* m = *At<Map*>(msg, ofs);
  return m ? m->len : 0;
}
static MapEntry* MapFind(const upb_msg* msg, size_t ofs, const void* key, size_t* at) {
  Map* m = *At<Map*>(msg, ofs);
  for (size_t i = 0; m && i < m->len; i++) {
    if (upb_strview_eql(m->entries[i]->key, *static_cast<const upb_strview*>(key))) {
      if (at) *at = i;
      return m->entries[i];
    }
  }
  return nullptr;
}
bool _upb_msg_map_get(const upb_msg* msg, size_t ofs, const void* key, size_t,
                      void* val, size_t) {
  MapEntry* e = MapFind(msg, ofs, key, nullptr);
  if (e && val) *static_cast<upb_strview*>(val) = e->val;
  return e != nullptr;
}
void* _upb_msg_map_next(const upb_msg* msg, size_t ofs, size_t* iter) {
  // In upb an unstarted iterator is (size_t)-1 (UPB_MAP_BEGIN).
  Map* m = *At<Map*>(msg, ofs);
  ++*iter;
  if (!m || *iter >= m->len) return nullptr;
  return m->entries[*iter];
}
bool _upb_msg_map_set(upb_msg* msg, size_t ofs, const void* key, size_t,
                      void* val, size_t, upb_arena* arena) {
  MapEntry* e = MapFind(msg, ofs, key, nullptr);
  if (e == nullptr) {
    Map** slot = At<Map*>(msg, ofs);
    if (*slot == nullptr) {
      *slot = static_cast<Map*>(upb_arena_malloc(arena, sizeof(Map)));
      memset(*slot, 0, sizeof(Map));
    }
    Map* m = *slot;
    if (m->len == m->cap) {
      m->cap = m->cap ? 2 * m->cap : 4;
      m->entries = static_cast<MapEntry**>(upb_arena_realloc(
          arena, m->entries, m->len * sizeof(MapEntry*), m->cap * sizeof(MapEntry*)));
    }
    e = static_cast<MapEntry*>(upb_arena_malloc(arena, sizeof(MapEntry)));
    e->key = *static_cast<const upb_strview*>(key);
    m->entries[m->len++] = e;
  }
  e->val = *static_cast<upb_strview*>(val);
  return true;
}
bool _upb_msg_map_delete(upb_msg* msg, size_t ofs, const void* key, size_t) {
  size_t at;
  if (!MapFind(msg, ofs, key, &at)) return false;
  Map* m = *At<Map*>(msg, ofs);
  m->entries[at] = m->entries[--m->len];
  return true;
}
void _upb_msg_map_clear(upb_msg* msg, size_t ofs) {
  Map* m = *At<Map*>(msg, ofs);
  if (m) m->len = 0;
}
void _upb_msg_map_key(const void* msg, void* key, size_t) {
  *static_cast<upb_strview*>(key) = static_cast<const MapEntry*>(msg)->key;
}
void _upb_msg_map_value(const void* msg, void* val, size_t) {
  *static_cast<upb_strview*>(val) = static_cast<const MapEntry*>(msg)->val;
}
void _upb_msg_map_set_value(void* msg, const void* val, size_t) {
  static_cast<MapEntry*>(msg)->val = *static_cast<const upb_strview*>(val);
}
}  // extern "C"

namespace {
struct Dec {
  const unsigned char* p;
  const unsigned char* end;
  upb_arena* arena;
  bool Varint(uint64_t* v) {
    *v = 0;
    for (int shift = 0; shift < 70; shift += 7) {
      if (p == end) return false;
      unsigned char b = *p++;
      if (shift < 64) *v |= static_cast<uint64_t>(b & 0x7f) << shift;
      if (!(b & 0x80)) return true;
    }
    return false;
  }
};

bool Decode(Dec* d, upb_msg* msg, const Layout* l, int depth, uint32_t group);

bool Skip(Dec* d, uint32_t num, int wt, int depth) {
  uint64_t v;
  switch (wt) {
    case 0: return d->Varint(&v);
    case 1: if (d->end - d->p < 8) return false; d->p += 8; return true;
    case 5: if (d->end - d->p < 4) return false; d->p += 4; return true;
    case 2:
      if (!d->Varint(&v) || v > static_cast<uint64_t>(d->end - d->p)) return false;
      d->p += v; return true;
    case 3: return depth > 0 && Decode(d, nullptr, nullptr, depth - 1, num);
    default: return false;
  }
}

bool Scalar(Dec* d, int type, void* out) {
  uint64_t v = 0; uint32_t v32; 
  switch (WireType(type)) {
    case 0:
      if (!d->Varint(&v)) return false;
      if (type == kSint32) { v32 = static_cast<uint32_t>(v); v32 = (v32 >> 1) ^ (~(v32 & 1) + 1); memcpy(out, &v32, 4); return true; }
      if (type == kSint64) v = (v >> 1) ^ (~(v & 1) + 1);
      if (type == kBool) { bool b = v != 0; memcpy(out, &b, 1); return true; }
      if (Lg2(type) == 2) { v32 = static_cast<uint32_t>(v); memcpy(out, &v32, 4); }
      else memcpy(out, &v, 8);
      return true;
    case 1: if (d->end - d->p < 8) return false; memcpy(out, d->p, 8); d->p += 8; return true;
    case 5: if (d->end - d->p < 4) return false; memcpy(out, d->p, 4); d->p += 4; return true;
    default: return false;
  }
}

bool Decode(Dec* d, upb_msg* msg, const Layout* l, int depth, uint32_t group) {
  while (d->p < d->end) {
    uint64_t tag;
    if (!d->Varint(&tag) || tag > 0xffffffffu) return false;
    uint32_t num = static_cast<uint32_t>(tag >> 3);
    int wt = tag & 7;
    if (num == 0) return false;
    if (wt == 4) return group == num;
    const Field* f = nullptr;
    for (int i = 0; l && i < l->field_count; i++) {
      if (l->fields[i].number == num) f = &l->fields[i];
    }
    bool repeated = f && f->label != VERIF_UPB_LABEL_OPTIONAL;
    bool packed_in = f && repeated && wt == 2 && WireType(f->descriptortype) != 2;
    if (!f || (wt != WireType(f->descriptortype) && !packed_in)) {
      if (!Skip(d, num, wt, depth)) return false;
      continue;
    }
    int type = f->descriptortype;
    union { char scalar[8]; upb_strview sv; upb_msg* sub; } val;
    memset(&val, 0, sizeof(val));
    if (wt == 2) {
      uint64_t n;
      if (!d->Varint(&n) || n > static_cast<uint64_t>(d->end - d->p)) return false;
      const unsigned char* data = d->p;
      d->p += n;
      if (packed_in) {
        Dec s = {data, data + n, d->arena};
        while (s.p < s.end) {
          if (!Scalar(&s, type, &val)) return false;
          _upb_array_append_accessor2(msg, f->offset, Lg2(type), &val, d->arena);
        }
        continue;
      }
      if (type == kString || type == kBytes) {
        if (type == kString && !ValidUtf8(reinterpret_cast<const char*>(data), n)) return false;
        char* copy = static_cast<char*>(upb_arena_malloc(d->arena, n));
        if (n) memcpy(copy, data, n);
        val.sv = upb_strview_make(copy, n);
      } else {
        const Layout* sub = l->submsgs[f->submsg_index];
        if (depth == 0) return false;
        Dec s = {data, data + n, d->arena};
        if (f->label == _UPB_LABEL_MAP) {
          void* entry = _upb_msg_new(sub, d->arena);
          if (!Decode(&s, entry, sub, depth - 1, 0)) return false;
          upb_strview k = *At<upb_strview>(entry, sub->fields[0].offset);
          upb_strview v = *At<upb_strview>(entry, sub->fields[1].offset);
          _upb_msg_map_set(msg, f->offset, &k, 0, &v, 0, d->arena);
          continue;
        }
        // A repeated occurrence of a singular message merges into the first.
        bool set = false;
        if (!repeated) {
          if (f->presence > 0) set = _upb_hasbit(msg, f->presence);
          else if (f->presence < 0) set = _upb_getoneofcase(msg, ~f->presence) == num;
          else set = _upb_has_submsg_nohasbit(msg, f->offset);
        }
        val.sub = set ? *At<upb_msg*>(msg, f->offset) : _upb_msg_new(sub, d->arena);
        if (!Decode(&s, val.sub, sub, depth - 1, 0)) return false;
      }
    } else {
      if (!Scalar(d, type, &val)) return false;
    }
    if (repeated) {
      _upb_array_append_accessor2(msg, f->offset, Lg2(type), &val, d->arena);
    } else {
      if (f->presence > 0) _upb_sethas(msg, f->presence);
      if (f->presence < 0) *At<uint32_t>(msg, ~f->presence) = num;
      memcpy(At<char>(msg, f->offset), &val, size_t{1} << Lg2(type));
    }
  }
  return group == 0;
}

void PutVarint(std::string* o, uint64_t v) {
  while (v >= 0x80) { o->push_back(static_cast<char>(v | 0x80)); v >>= 7; }
  o->push_back(static_cast<char>(v));
}
void PutScalar(std::string* o, int type, const void* p) {
  uint64_t v = 0; uint32_t v32 = 0; int32_t i32;
  switch (WireType(type)) {
    case 1: o->append(static_cast<const char*>(p), 8); return;
    case 5: o->append(static_cast<const char*>(p), 4); return;
  }
  if (Lg2(type) == 0) { bool b; memcpy(&b, p, 1); v = b; }
  else if (Lg2(type) == 2) {
    memcpy(&v32, p, 4); memcpy(&i32, p, 4);
    if (type == kUint32) v = v32;
    else if (type == kSint32) v = (v32 << 1) ^ static_cast<uint32_t>(i32 >> 31);
    else v = static_cast<uint64_t>(static_cast<int64_t>(i32));
  } else {
    memcpy(&v, p, 8);
    if (type == kSint64) { int64_t s; memcpy(&s, p, 8); v = (v << 1) ^ static_cast<uint64_t>(s >> 63); }
  }
  PutVarint(o, v);
}
void Encode(std::string* o, const void* msg, const Layout* l) {
  for (int i = 0; i < l->field_count; i++) {
    const Field& f = l->fields[i];
    int type = f.descriptortype, wt = WireType(type);
    const char* at = At<char>(msg, f.offset);
    auto tag = [&](int w) { PutVarint(o, (static_cast<uint64_t>(f.number) << 3) | w); };
    auto put = [&](const char* p) {
      if (type == kMessage) {  // like upb: a null submessage is not emitted
        const void* sub; memcpy(&sub, p, sizeof(sub));
        if (sub == nullptr) return;
      }
      tag(wt);
      if (type == kString || type == kBytes) {
        upb_strview s; memcpy(&s, p, sizeof(s));
        PutVarint(o, s.size);
        if (s.size) o->append(s.data, s.size);
      } else if (type == kMessage) {
        const void* sub; memcpy(&sub, p, sizeof(sub));
        std::string s;
        Encode(&s, sub, l->submsgs[f.submsg_index]);
        PutVarint(o, s.size());
        o->append(s);
      } else {
        PutScalar(o, type, p);
      }
    };
    if (f.label == _UPB_LABEL_MAP) {
      const Map* m = *At<Map*>(msg, f.offset);
      for (size_t k = 0; m && k < m->len; k++) {
        std::string e;
        PutVarint(&e, (1 << 3) | 2); PutVarint(&e, m->entries[k]->key.size);
        e.append(m->entries[k]->key.data, m->entries[k]->key.size);
        PutVarint(&e, (2 << 3) | 2); PutVarint(&e, m->entries[k]->val.size);
        e.append(m->entries[k]->val.data, m->entries[k]->val.size);
        tag(2); PutVarint(o, e.size()); o->append(e);
      }
    } else if (f.label != VERIF_UPB_LABEL_OPTIONAL) {
      const upb_array* a = *At<upb_array*>(msg, f.offset);
      if (!a || a->len == 0) continue;
      const char* p = static_cast<const char*>(a->data);
      if (f.label == _UPB_LABEL_PACKED) {
        std::string s;
        for (size_t k = 0; k < a->len; k++) PutScalar(&s, type, p + (k << Lg2(type)));
        tag(2); PutVarint(o, s.size()); o->append(s);
      } else {
        for (size_t k = 0; k < a->len; k++) put(p + (k << Lg2(type)));
      }
    } else if (f.presence > 0) {
      if (_upb_hasbit(msg, f.presence)) put(at);
    } else if (f.presence < 0) {
      if (_upb_getoneofcase(msg, ~f.presence) == f.number) put(at);
    } else {  // proto3 implicit presence
      static const char zero[16] = {0};
      bool empty;
      if (type == kString || type == kBytes) { upb_strview s; memcpy(&s, at, sizeof(s)); empty = s.size == 0; }
      else empty = memcmp(at, zero, size_t{1} << Lg2(type)) == 0;
      if (!empty) put(at);
    }
  }
}
}  // namespace

extern "C" bool _upb_decode(const char* buf, size_t size, upb_msg* msg,
                            const Layout* l, upb_arena* arena, int) {
  Dec d = {reinterpret_cast<const unsigned char*>(buf),
           reinterpret_cast<const unsigned char*>(buf) + size, arena};
  return size == 0 || Decode(&d, msg, l, 64, 0);
}
extern "C" char* upb_encode_ex(const void* msg, const Layout* l, int,
                               upb_arena* arena, size_t* size) {
  std::string o;
  Encode(&o, msg, l);
  *size = o.size();
  if (o.empty()) return static_cast<char*>(upb_arena_malloc(arena, 1));
  char* p = static_cast<char*>(upb_arena_malloc(arena, o.size()));
  memcpy(p, o.data(), o.size());
  return p;
}
