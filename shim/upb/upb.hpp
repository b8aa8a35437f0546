#ifndef VERIF_UPB_HPP_
#define VERIF_UPB_HPP_
#include <memory>
#include "upb/upb.h"
namespace upb {
class Arena {
 public:
  Arena() : ptr_(upb_arena_new(), upb_arena_free) {}
  upb_arena* ptr() const { return ptr_.get(); }
 private:
  std::unique_ptr<upb_arena, decltype(&upb_arena_free)> ptr_;
};
}  // namespace upb
#endif
