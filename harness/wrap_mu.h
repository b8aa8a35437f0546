#ifndef VERIF_WRAP_MU_H_
#define VERIF_WRAP_MU_H_
#include <cstdint>
namespace wrapmu {
void SetDelay(bool on);          // random delays around lock operations
void SeedThread(uint64_t seed);  // makes this thread's delays repeatable
long ThreadLocks();              // absl::Mutex acquisitions of this thread
void Delay();
}  // namespace wrapmu
#endif
