// Link-time interposition (--wrap) on the SSL library calls made by the code
// under test: counts them, makes the k-th one fail, records nonces, and can
// inject scheduling delays.
#ifndef VERIF_WRAP_SSL_H_
#define VERIF_WRAP_SSL_H_
#include <cstdint>
#include <string>
#include <vector>
namespace wrapssl {
// From now on the k-th interposed call (1-based) fails; 0: none.
// mode 0: once, without doing anything; 1: from then on; 2: once, after the
// work has been done.
void Arm(long k, int mode = 0);
long Calls();            // calls since Arm
long Fired();            // faults delivered since Arm
const char* LastFired(); // name of the call the last fault hit
void SetDelay(bool on);  // random yields inside interposed calls
// Every (key, nonce) pair with which data was encrypted, as seen at the SSL
// boundary; Reuse() counts pairs that were started twice.
void RecordNonces(bool on);
long NoncesSeen();
long NonceReuse();
std::string LastReuse();
void ResetNonces();
}  // namespace wrapssl
#endif
