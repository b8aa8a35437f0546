#ifndef VERIF_UPB_ENCODE_H_
#define VERIF_UPB_ENCODE_H_
#include "upb/msg.h"
#ifdef __cplusplus
extern "C" {
#endif
enum { UPB_ENCODE_DETERMINISTIC = 1, UPB_ENCODE_SKIPUNKNOWN = 2 };
char *upb_encode_ex(const void *msg, const upb_msglayout *l, int options,
                    upb_arena *arena, size_t *size);
static inline char *upb_encode(const void *msg, const upb_msglayout *l,
                               upb_arena *arena, size_t *size) {
  return upb_encode_ex(msg, l, 0, arena, size);
}
#ifdef __cplusplus
}
#endif
#endif
