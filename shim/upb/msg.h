/* Stand-in for the part of upb (https://github.com/protocolbuffers/upb, early
 * 2021) that google/s2a-core's generated code and sources use.  third_party/upb
 * is an empty submodule in this sandbox, so without it nothing that includes a
 * *.upb.h can be compiled.  It keeps upb's message layout contract (offsets,
 * hasbits, oneof cases from the generated tables) and its wire format; it is
 * validated by running the project's own upb-dependent tests against it
 * (/verif/run.py --selftest).  Every arena object is its own malloc block, so
 * AddressSanitizer sees overruns and uses after the arena is gone. */
#ifndef VERIF_UPB_MSG_H_
#define VERIF_UPB_MSG_H_
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>

#ifdef __cplusplus
extern "C" {
#endif

typedef void upb_msg;
typedef struct upb_arena upb_arena;
typedef struct upb_alloc upb_alloc;

upb_arena *upb_arena_new(void);
void upb_arena_free(upb_arena *a);
void *upb_arena_malloc(upb_arena *a, size_t size);
void *upb_arena_realloc(upb_arena *a, void *ptr, size_t oldsize, size_t size);

typedef struct {
  const char *data;
  size_t size;
} upb_strview;
/* The name newer upb releases use. */
typedef upb_strview upb_StringView;

static inline upb_strview upb_strview_make(const char *data, size_t size) {
  upb_strview ret;
  ret.data = data;
  ret.size = size;
  return ret;
}
static inline upb_strview upb_strview_makez(const char *data) {
  return upb_strview_make(data, strlen(data));
}
static inline bool upb_strview_eql(upb_strview a, upb_strview b) {
  return a.size == b.size && (a.size == 0 || memcmp(a.data, b.data, a.size) == 0);
}
#define UPB_STRVIEW_INIT(ptr, len) {ptr, len}
#define UPB_STRVIEW_FORMAT "%.*s"
#define UPB_STRVIEW_ARGS(view) (int)(view).size, (view).data

typedef struct {
  uint32_t number;
  uint16_t offset;
  int16_t presence; /* >0: hasbit index; <0: ~offset of the oneof case */
  uint16_t submsg_index;
  uint8_t descriptortype;
  uint8_t label;
} upb_msglayout_field;

typedef struct upb_msglayout {
  const struct upb_msglayout *const *submsgs;
  const upb_msglayout_field *fields;
  uint16_t size;
  uint16_t field_count;
  bool extendable;
  uint8_t table_mask;
} upb_msglayout;

enum {
  VERIF_UPB_LABEL_OPTIONAL = 1,
  VERIF_UPB_LABEL_REPEATED = 3,
  _UPB_LABEL_MAP = 4,
  _UPB_LABEL_PACKED = 7
};

upb_msg *_upb_msg_new(const upb_msglayout *l, upb_arena *a);

static inline bool _upb_hasbit(const upb_msg *msg, size_t idx) {
  return (*((const char *)msg + (idx / 8)) & (1 << (idx % 8))) != 0;
}
static inline bool _upb_sethas(const upb_msg *msg, size_t idx) {
  char *p = (char *)msg + (idx / 8);
  *p = (char)(*p | (1 << (idx % 8)));
  return true;
}
static inline bool _upb_clearhas(const upb_msg *msg, size_t idx) {
  char *p = (char *)msg + (idx / 8);
  *p = (char)(*p & ~(1 << (idx % 8)));
  return true;
}
static inline uint32_t _upb_getoneofcase(const upb_msg *msg, size_t case_ofs) {
  uint32_t v;
  memcpy(&v, (const char *)msg + case_ofs, sizeof(v));
  return v;
}
static inline bool _upb_has_submsg_nohasbit(const upb_msg *msg, size_t ofs) {
  const void *p;
  memcpy(&p, (const char *)msg + ofs, sizeof(p));
  return p != NULL;
}

typedef struct {
  void *data;
  size_t len;  /* in elements */
  size_t size; /* allocated elements */
  uint8_t lg2;
} upb_array;

const void *_upb_array_accessor(const void *msg, size_t ofs, size_t *size);
void *_upb_array_mutable_accessor(void *msg, size_t ofs, size_t *size);
void *_upb_array_resize_accessor2(void *msg, size_t ofs, size_t size,
                                  int elem_size_lg2, upb_arena *arena);
bool _upb_array_append_accessor2(void *msg, size_t ofs, int elem_size_lg2,
                                 const void *value, upb_arena *arena);

/* Maps: only map<string, string> occurs (key size and value size 0). */
size_t _upb_msg_map_size(const upb_msg *msg, size_t ofs);
bool _upb_msg_map_get(const upb_msg *msg, size_t ofs, const void *key,
                      size_t key_size, void *val, size_t val_size);
void *_upb_msg_map_next(const upb_msg *msg, size_t ofs, size_t *iter);
bool _upb_msg_map_set(upb_msg *msg, size_t ofs, const void *key,
                      size_t key_size, void *val, size_t val_size,
                      upb_arena *arena);
bool _upb_msg_map_delete(upb_msg *msg, size_t ofs, const void *key,
                         size_t key_size);
void _upb_msg_map_clear(upb_msg *msg, size_t ofs);
void _upb_msg_map_key(const void *msg, void *key, size_t size);
void _upb_msg_map_value(const void *msg, void *val, size_t size);
void _upb_msg_map_set_value(void *msg, const void *val, size_t size);

#ifdef __cplusplus
}
#endif
#endif
