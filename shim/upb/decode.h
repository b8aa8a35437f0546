#ifndef VERIF_UPB_DECODE_H_
#define VERIF_UPB_DECODE_H_
#include "upb/msg.h"
#ifdef __cplusplus
extern "C" {
#endif
enum { UPB_DECODE_ALIAS = 1 };
bool _upb_decode(const char *buf, size_t size, upb_msg *msg,
                 const upb_msglayout *l, upb_arena *arena, int options);
static inline bool upb_decode(const char *buf, size_t size, upb_msg *msg,
                              const upb_msglayout *l, upb_arena *arena) {
  return _upb_decode(buf, size, msg, l, arena, 0);
}
#ifdef __cplusplus
}
#endif
#endif
