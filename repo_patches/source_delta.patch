From f9e143e08c1b3c985be02517e2b2d7c04456a8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:03 +0000
Subject: [PATCH 01/21] fix: reject a null ciphertext component that lies
 within the tag

Decrypt checked |ciphertext_and_tag| for null components only while it was
decrypting; a null component with nonzero length among the buffers that hold
the tag was passed to memcpy.
---
 src/crypto/aes_gcm_crypter.cc             | 10 ++++++++++
 src/crypto/chacha_poly_crypter_openssl.cc | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/crypto/aes_gcm_crypter.cc b/src/crypto/aes_gcm_crypter.cc
index 367df50..0301074 100644
--- a/src/crypto/aes_gcm_crypter.cc
+++ b/src/crypto/aes_gcm_crypter.cc
@@ -384,6 +384,16 @@ class AesGcmS2AAeadCrypter : public S2AAeadCrypter {
     for (; i < ciphertext_and_tag.size(); i++) {
       ciphertext_ptr = static_cast<uint8_t*>(ciphertext_and_tag[i].iov_base);
       current_ciphertext_length = ciphertext_and_tag[i].iov_len;
+      if (current_ciphertext_length == 0) {
+        continue;
+      }
+      if (ciphertext_ptr == nullptr) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
+        return CrypterStatus(
+            Status(StatusCode::kInvalidArgument,
+                   "|ciphertext_and_tag| has an invalid component."),
+            /*bytes_written=*/0);
+      }
       memcpy(tag_tmp, ciphertext_ptr, current_ciphertext_length);
       tag_tmp += current_ciphertext_length;
       total_ciphertext_and_tag_length -= current_ciphertext_length;
diff --git a/src/crypto/chacha_poly_crypter_openssl.cc b/src/crypto/chacha_poly_crypter_openssl.cc
index 5d06c20..51d6d28 100644
--- a/src/crypto/chacha_poly_crypter_openssl.cc
+++ b/src/crypto/chacha_poly_crypter_openssl.cc
@@ -390,6 +390,16 @@ class ChachaPolyS2AAeadCrypterOpenSSL : public S2AAeadCrypter {
     for (; i < ciphertext_and_tag.size(); i++) {
       ciphertext_ptr = static_cast<uint8_t*>(ciphertext_and_tag[i].iov_base);
       current_ciphertext_length = ciphertext_and_tag[i].iov_len;
+      if (current_ciphertext_length == 0) {
+        continue;
+      }
+      if (ciphertext_ptr == nullptr) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
+        return CrypterStatus(
+            absl::InvalidArgumentError(
+                "|ciphertext_and_tag| has an invalid component."),
+            /*bytes_written=*/0);
+      }
       memcpy(tag_tmp, ciphertext_ptr, current_ciphertext_length);
       tag_tmp += current_ciphertext_length;
       total_ciphertext_and_tag_length -= current_ciphertext_length;
-- 
2.43.0


From 87cc9225a3bd9d9fac87e38dc533d7ac9c05e529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:03 +0000
Subject: [PATCH 02/21] fix: wipe the plaintext when Decrypt runs out of output
 space

Every other failure after the first decrypted component clears |plaintext|;
this one returned with unauthenticated plaintext in the caller's buffer.
---
 src/crypto/aes_gcm_crypter.cc             | 1 +
 src/crypto/chacha_poly_crypter_openssl.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/crypto/aes_gcm_crypter.cc b/src/crypto/aes_gcm_crypter.cc
index 0301074..1cca7f8 100644
--- a/src/crypto/aes_gcm_crypter.cc
+++ b/src/crypto/aes_gcm_crypter.cc
@@ -335,6 +335,7 @@ class AesGcmS2AAeadCrypter : public S2AAeadCrypter {
         bytes_to_write = total_ciphertext_and_tag_length - kAesGcmTagSize;
       }
       if (remaining_plaintext_length < bytes_to_write) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
         return CrypterStatus(
             Status(
                 StatusCode::kInvalidArgument,
diff --git a/src/crypto/chacha_poly_crypter_openssl.cc b/src/crypto/chacha_poly_crypter_openssl.cc
index 51d6d28..aef5eef 100644
--- a/src/crypto/chacha_poly_crypter_openssl.cc
+++ b/src/crypto/chacha_poly_crypter_openssl.cc
@@ -342,6 +342,7 @@ class ChachaPolyS2AAeadCrypterOpenSSL : public S2AAeadCrypter {
         bytes_to_write = total_ciphertext_and_tag_length - kChachaPolyTagSize;
       }
       if (remaining_plaintext_length < bytes_to_write) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
         return CrypterStatus(
             absl::InvalidArgumentError(
                 "|plaintext| is too small to hold the decrypted ciphertext."),
-- 
2.43.0


From 82eac0f9b1bec72ad0d3d4f2e3294991552a915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:03 +0000
Subject: [PATCH 03/21] fix: check the result of EVP_CIPHER_CTX_new

The crypter factories dereferenced a null cipher context when the SSL library
could not allocate one; return an error status instead.
---
 src/crypto/aes_gcm_crypter.cc             | 5 +++++
 src/crypto/chacha_poly_crypter_openssl.cc | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/crypto/aes_gcm_crypter.cc b/src/crypto/aes_gcm_crypter.cc
index 1cca7f8..51f9565 100644
--- a/src/crypto/aes_gcm_crypter.cc
+++ b/src/crypto/aes_gcm_crypter.cc
@@ -431,6 +431,11 @@ absl::variant<Status, std::unique_ptr<S2AAeadCrypter>> CreateAesGcmAeadCrypter(
   // Create and initialize the cipher context.
   std::unique_ptr<EVP_CIPHER_CTX, void (*)(EVP_CIPHER_CTX*)> ctx(
       EVP_CIPHER_CTX_new(), EVP_CIPHER_CTX_free);
+  if (ctx == nullptr) {
+    return Status(StatusCode::kInternal,
+                  absl::StrCat("Creation of |EVP_CIPHER_CTX| failed: ",
+                               GetSSLErrors()));
+  }
   if (!EVP_DecryptInit_ex(ctx.get(), cipher, /*impl=*/nullptr, key.data(),
                           /*iv=*/nullptr) ||
       !EVP_CIPHER_CTX_ctrl(ctx.get(), EVP_CTRL_GCM_SET_IVLEN,
diff --git a/src/crypto/chacha_poly_crypter_openssl.cc b/src/crypto/chacha_poly_crypter_openssl.cc
index aef5eef..6f63454 100644
--- a/src/crypto/chacha_poly_crypter_openssl.cc
+++ b/src/crypto/chacha_poly_crypter_openssl.cc
@@ -435,6 +435,10 @@ CreateChachaPolyAeadCrypter(const std::vector<uint8_t>& key) {
   // Create and initialize the cipher context.
   std::unique_ptr<EVP_CIPHER_CTX, void (*)(EVP_CIPHER_CTX*)> ctx(
       EVP_CIPHER_CTX_new(), EVP_CIPHER_CTX_free);
+  if (ctx == nullptr) {
+    return absl::InternalError(absl::StrCat(
+        "Creation of |EVP_CIPHER_CTX| failed: ", GetSSLErrors()));
+  }
   if (!EVP_DecryptInit_ex(ctx.get(), cipher, /*impl=*/nullptr, key.data(),
                           /*iv=*/nullptr) ||
       !EVP_CIPHER_CTX_ctrl(ctx.get(), EVP_CTRL_GCM_SET_IVLEN,
-- 
2.43.0


From 830252aeaa922abbc8022b257ebdfbb43a1fa10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:39 +0000
Subject: [PATCH 04/21] fix: do not silently truncate plaintext components
 above INT_MAX bytes

Encrypt narrowed the component length to an int for the SSL library: a
component of 4 GiB + n bytes was encrypted as n bytes and reported as success.
---
 src/crypto/aes_gcm_crypter.cc             | 8 ++++++++
 src/crypto/chacha_poly_crypter_openssl.cc | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/crypto/aes_gcm_crypter.cc b/src/crypto/aes_gcm_crypter.cc
index 51f9565..8343cc6 100644
--- a/src/crypto/aes_gcm_crypter.cc
+++ b/src/crypto/aes_gcm_crypter.cc
@@ -21,6 +21,7 @@
 #include <openssl/err.h>
 #include <openssl/evp.h>
 #include <openssl/hmac.h>
+#include <limits>
 #include <memory>
 
 #include "absl/memory/memory.h"
@@ -199,6 +200,13 @@ class AesGcmS2AAeadCrypter : public S2AAeadCrypter {
                              /*bytes_written=*/0);
       }
 
+      // The SSL library takes the length of |vec| as an int.
+      if (vec.iov_len > static_cast<size_t>(std::numeric_limits<int>::max())) {
+        return CrypterStatus(Status(StatusCode::kInvalidArgument,
+                                    "|plaintext| has an oversized component."),
+                             /*bytes_written=*/0);
+      }
+
       // Check that there is sufficient space remaining in |ciphertext_and_tag|.
       // If there is, write the ciphertext to |ciphertext_ptr|.
       if (remaining_ciphertext_length < vec.iov_len) {
diff --git a/src/crypto/chacha_poly_crypter_openssl.cc b/src/crypto/chacha_poly_crypter_openssl.cc
index 6f63454..45e8031 100644
--- a/src/crypto/chacha_poly_crypter_openssl.cc
+++ b/src/crypto/chacha_poly_crypter_openssl.cc
@@ -23,6 +23,7 @@
 #include <openssl/err.h>
 #include <openssl/evp.h>
 
+#include <limits>
 #include <vector>
 
 #include "absl/memory/memory.h"
@@ -210,6 +211,13 @@ class ChachaPolyS2AAeadCrypterOpenSSL : public S2AAeadCrypter {
             /*bytes_written=*/0);
       }
 
+      // The SSL library takes the length of |vec| as an int.
+      if (vec.iov_len > static_cast<size_t>(std::numeric_limits<int>::max())) {
+        return CrypterStatus(absl::InvalidArgumentError(
+                                 "|plaintext| has an oversized component."),
+                             /*bytes_written=*/0);
+      }
+
       // Check that there is sufficient space remaining in |ciphertext_and_tag|.
       // If there is, write the ciphertext to |ciphertext_ptr|.
       if (remaining_ciphertext_length < vec.iov_len) {
-- 
2.43.0


From bae3c1a58d16c7e7b9387f5162cc2afd510e13de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:47 +0000
Subject: [PATCH 05/21] fix: reject handshake messages with an empty body

A header announcing zero bytes left the parser waiting for another header
while keeping the first one, so that the next message was taken as part of it
and its size was computed with a negative shift.
---
 src/record_protocol/handshake_message_handler.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/record_protocol/handshake_message_handler.cc b/src/record_protocol/handshake_message_handler.cc
index f128d56..4030319 100644
--- a/src/record_protocol/handshake_message_handler.cc
+++ b/src/record_protocol/handshake_message_handler.cc
@@ -79,9 +79,13 @@ HandshakeMessageHandler::ProcessHandshakeMessage(const uint8_t* plaintext,
           /* Update state. */
           num_header_bytes_expecting_to_read_ = kTlsHandshakeHeaderLength;
           num_data_bytes_expecting_to_read_ = GetMessageDataSizeFromHeader();
-          if (num_data_bytes_expecting_to_read_ > 0) {
-            state_ = State::READ_DATA;
+          if (num_data_bytes_expecting_to_read_ == 0) {
+            /* Neither a session ticket nor a key update has an empty body. */
+            message_fragments_->clear();
+            return absl::Status(absl::StatusCode::kInternal,
+                                "Handshake message has an empty body.");
           }
+          state_ = State::READ_DATA;
         } else {
           /* Read incomplete message header. Read all remaining bytes. */
           StoreMessageFragment(plaintext, at_byte, bytes_left_to_read);
-- 
2.43.0


From ea0c5dd50e29267c0dddcb97658e6289d4d95b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:31 +0000
Subject: [PATCH 06/21] fix: keep the handshake parser well defined after a
 rejected message

After an error the rejected message stayed buffered; bytes processed later were
appended to it, and reading the message size ran past the header into a
negative shift. Stop at the end of the header, and drop a key update that is
rejected because other bytes follow it.
---
 src/record_protocol/handshake_message_handler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/record_protocol/handshake_message_handler.cc b/src/record_protocol/handshake_message_handler.cc
index 4030319..a2cba25 100644
--- a/src/record_protocol/handshake_message_handler.cc
+++ b/src/record_protocol/handshake_message_handler.cc
@@ -127,6 +127,7 @@ HandshakeMessageHandler::ProcessHandshakeMessage(const uint8_t* plaintext,
            * nothing follows the key update message and include the key update
            * type in the returned result. */
           if (at_byte < plaintext_len) {
+            message_fragments_->clear();
             return absl::Status(
                 absl::StatusCode::kInternal,
                 "Key update should be the last message in a plaintext.");
@@ -229,7 +230,7 @@ uint32_t HandshakeMessageHandler::GetMessageDataSizeFromHeader() {
       at_byte++;
       shift_by -= 8;
       if (at_byte > kTlsHandshakeHeaderLength) {
-        break;
+        return message_data_size;
       }
     }
   }
-- 
2.43.0


From 2f45f5a7a7e654827e4e08d86a4f3f612f670c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:12 +0000
Subject: [PATCH 07/21] fix: only update the inbound key on a complete
 KeyUpdate message

A KeyUpdate may be fragmented across records (RFC 8446, section 5.1).  The
handshake message handler reports |contains_key_update| for every record that
holds a piece of one, so the inbound key was updated once per fragment and all
later records of a conforming peer failed to decrypt.
---
 src/record_protocol/s2a_crypter.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/record_protocol/s2a_crypter.cc b/src/record_protocol/s2a_crypter.cc
index bd35e14..389deb4 100644
--- a/src/record_protocol/s2a_crypter.cc
+++ b/src/record_protocol/s2a_crypter.cc
@@ -495,9 +495,10 @@ absl::Status S2ACrypter::HandleProcessHandshakeMessageResult(
       hs_message_handling_state_->expecting_to_read_more_bytes =
           result.expecting_to_read_more_bytes;
 
-      // Update the inbound key if handshake message contained a key update
-      // message.
-      if (result.contains_key_update) {
+      // Update the inbound key if handshake message contained a complete key
+      // update message. A key update message must be the last message in its
+      // record, so it is complete precisely when no more bytes are expected.
+      if (result.contains_key_update && !result.expecting_to_read_more_bytes) {
         // TODO(matthewstevenson88): If |result.key_update_type == 0x01|, then
         // the peer is expecting a key update to be sent from us. See
         // https://tools.ietf.org/html/rfc8446#section-4.6.3.
-- 
2.43.0


From 51b0ba54acdb4e3f1df983b7d9615a07f3d58e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:12 +0000
Subject: [PATCH 08/21] fix: do not lose session tickets when a sixth one is
 incomplete

When a record completed the fifth ticket and began a sixth, the tickets were
retrieved in the middle of a message: the handler refused, no ticket was ever
sent to the S2A, and the crypter forgot that more handshake bytes were due, so
application data inside the message was accepted.
---
 src/record_protocol/s2a_crypter.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/record_protocol/s2a_crypter.cc b/src/record_protocol/s2a_crypter.cc
index 389deb4..3a67b4f 100644
--- a/src/record_protocol/s2a_crypter.cc
+++ b/src/record_protocol/s2a_crypter.cc
@@ -518,11 +518,11 @@ absl::Status S2ACrypter::HandleProcessHandshakeMessageResult(
           ABSL_FALLTHROUGH_INTENDED;
         case TicketHandlingPhase::RECEIVING:
           // If the limit of number of tickets to process is reached, send all
-          // stored tickets to the S2A.
-          if (result.contains_ticket &&
+          // stored tickets to the S2A. The tickets cannot be retrieved while a
+          // further handshake message is incomplete.
+          if (result.contains_ticket && !result.expecting_to_read_more_bytes &&
               result.num_full_tickets_stored >= kMaxNumTicketsToProcess) {
             RetrieveStoredTicketsAndSendToS2A();
-            hs_message_handling_state_->expecting_to_read_more_bytes = false;
             hs_message_handling_state_->phase = TicketHandlingPhase::DONE;
             return absl::Status();
           }
-- 
2.43.0


From ead35142e7b10c586ffe0a58eb1983e189d30ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:06 +0000
Subject: [PATCH 09/21] fix: skip empty buffers when reading TLS records

An empty |Iovec| in front of or inside a record header was read out of bounds,
and one with a null base failed an assertion.
---
 src/frame_protector/s2a_frame_protector.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index d231dce..83f8303 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -101,6 +101,12 @@ absl::variant<Status, ComputeTlsRecordSizeResult> ComputeTlsRecordSize(
       return Status(StatusCode::kFailedPrecondition,
                     "|vecs| is too small to hold TLS record header.");
     }
+    if (on_iovec_index >= vecs[iovec_index].iov_len) {
+      // There is nothing (more) to read on this |Iovec|.
+      iovec_index += 1;
+      on_iovec_index = 0;
+      continue;
+    }
     ABSL_ASSERT(vecs[iovec_index].iov_base != nullptr);
     uint8_t* buffer = static_cast<uint8_t*>(vecs[iovec_index].iov_base);
     size_t buffer_length = vecs[iovec_index].iov_len;
@@ -166,6 +172,12 @@ absl::variant<Status, IsolateTlsPayloadResult> IsolateTlsPayload(
       return Status(StatusCode::kFailedPrecondition,
                     "|vecs| is too small to hold TLS record.");
     }
+    if (on_iovec_index >= vecs[iovec_index].iov_len) {
+      // There is nothing (more) to read on this |Iovec|.
+      iovec_index += 1;
+      on_iovec_index = 0;
+      continue;
+    }
     ABSL_ASSERT(vecs[iovec_index].iov_base != nullptr);
     uint8_t* buffer = static_cast<uint8_t*>(vecs[iovec_index].iov_base);
     size_t bytes_remaining_on_iovec =
-- 
2.43.0


From 862c2d9f9fcdd0c8509413dad988e315f9c1747f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:35 +0000
Subject: [PATCH 10/21] fix: do not release the output buffer twice when
 Protect fails

The overload that writes to a caller's buffer released that buffer on failure.
The overload that allocates the buffer then released it a second time, and a
caller that passed its own buffer had it released behind its back.
---
 src/frame_protector/s2a_frame_protector.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index 83f8303..31e9213 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -298,8 +298,8 @@ Status S2AFrameProtector::Protect(const std::vector<Iovec>& unprotected_bytes,
 
     // Protect the bytes in |bytes_to_protect| and write them to
     // |protected_bytes|. If a failure occurs or an unexpected number of bytes
-    // are written, then free the |protected_bytes| buffer and return an error
-    // status.
+    // are written, then return an error status; the |protected_bytes| buffer
+    // remains owned by the caller.
     S2ACrypterStatus status =
         crypter_->Protect(RecordType::APPLICATION_DATA, bytes_to_protect,
                           {static_cast<uint8_t*>(protected_bytes.iov_base) +
@@ -309,7 +309,6 @@ Status S2AFrameProtector::Protect(const std::vector<Iovec>& unprotected_bytes,
       std::string error =
           absl::StrCat("Failed to protect: ", status.GetErrorMessage());
       logger_(error);
-      destroy_(protected_bytes);
       return Status(ConvertStatusCode(status.GetCode()),
                     status.GetErrorMessage());
     }
@@ -317,7 +316,6 @@ Status S2AFrameProtector::Protect(const std::vector<Iovec>& unprotected_bytes,
         number_bytes_to_protect + crypter_->RecordOverhead()) {
       std::string error = "Protected an unexpected number of bytes.";
       logger_(error);
-      destroy_(protected_bytes);
       return Status(StatusCode::kInternal, error);
     }
 
-- 
2.43.0


From 46eb23070e2d888b6e80acbabb25e6411f2fc8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:35 +0000
Subject: [PATCH 11/21] fix: release earlier plaintext buffers when a later
 record is malformed

Unprotect leaked the buffers of the records before one with a bad or incomplete
header or payload.
---
 src/frame_protector/s2a_frame_protector.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index 31e9213..776b964 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -417,6 +417,9 @@ Result S2AFrameProtector::Unprotect(const std::vector<Iovec>& protected_bytes) {
       case 0:
         logger_(absl::StrCat("Failed to compute TLS record size: ",
                              absl::get<0>(record_size_status).message()));
+        for (auto& vec : plaintext) {
+          destroy_(vec);
+        }
         return {absl::get<0>(record_size_status), /*bytes=*/{}};
       case 1:
         break;
@@ -441,6 +444,9 @@ Result S2AFrameProtector::Unprotect(const std::vector<Iovec>& protected_bytes) {
       case 0:
         logger_(absl::StrCat("Failed to isolate TLS payload: ",
                              absl::get<0>(isolate_status).message()));
+        for (auto& vec : plaintext) {
+          destroy_(vec);
+        }
         return {absl::get<0>(isolate_status), /*bytes=*/{}};
       case 1:
         break;
-- 
2.43.0


From 9af8eb0f179f0151f4c35b47db0e526dc321815a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:35 +0000
Subject: [PATCH 12/21] fix: refuse a partial TLS record at the end of the
 input of Unprotect

The header documents that an error status is returned if the input contains a
partial TLS record, but up to 21 bytes of one after whole records were dropped
silently and the call succeeded.
---
 src/frame_protector/s2a_frame_protector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index 776b964..1831718 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -401,7 +401,7 @@ Result S2AFrameProtector::Unprotect(const std::vector<Iovec>& protected_bytes) {
 
   absl::MutexLock lock(&unprotect_mu_);
   std::vector<Iovec> plaintext;
-  while (bytes_remaining >= crypter_->RecordOverhead()) {
+  while (bytes_remaining > 0) {
     // Copy the header of the next TLS record in |protected_bytes| into
     // |header|, and update |current_iovec_index| and |on_iovec_index| so that
     // |protected_bytes[current_iovec_index].iov_base[on_iovec_index]| is the
-- 
2.43.0


From fbbb997ce9be3820b0aed7677abae5e88bb0af1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:35 +0000
Subject: [PATCH 13/21] fix: refuse more than one TLS record in the
 single-record Unprotect

The header documents that an error status is returned if the input contains
more than one TLS record, but everything after the first record was dropped
silently and the call succeeded.
---
 src/frame_protector/s2a_frame_protector.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index 1831718..f993bed 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -354,6 +354,13 @@ Status S2AFrameProtector::Unprotect(
   ComputeTlsRecordSizeResult record_size_result =
       absl::get<1>(record_size_status);
 
+  if (GetTotalIovecLength(protected_bytes) > record_size_result.record_size) {
+    unprotected_bytes.iov_len = 0;
+    std::string error = "|protected_bytes| contains more than one TLS record.";
+    logger_(error);
+    return Status(StatusCode::kFailedPrecondition, error);
+  }
+
   // Create a vector of Iovec's that consists only of the TLS payload.
   absl::variant<Status, IsolateTlsPayloadResult> isolate_status =
       IsolateTlsPayload(
-- 
2.43.0


From eebe05dad4e9801522c70f1b9f070d87fc7f4367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:38 +0000
Subject: [PATCH 14/21] fix: serialize certificate fingerprints that contain a
 zero byte

The fingerprints were passed as C strings, so GetSerializedContext cut them at
their first zero byte (about one in eight SHA-256 fingerprints has one).
---
 src/handshaker/s2a_context.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/handshaker/s2a_context.cc b/src/handshaker/s2a_context.cc
index 2ba1532..e19a374 100644
--- a/src/handshaker/s2a_context.cc
+++ b/src/handshaker/s2a_context.cc
@@ -135,9 +135,11 @@ S2AContext::GetSerializedContext() const {
 
   // Set the peer and local cert fingerprints.
   s2a_proto_S2AContext_set_peer_cert_fingerprint(
-      context, upb_strview_makez(peer_cert_fingerprint_.c_str()));
+      context, upb_strview_make(peer_cert_fingerprint_.data(),
+                                peer_cert_fingerprint_.size()));
   s2a_proto_S2AContext_set_local_cert_fingerprint(
-      context, upb_strview_makez(local_cert_fingerprint_.c_str()));
+      context, upb_strview_make(local_cert_fingerprint_.data(),
+                                local_cert_fingerprint_.size()));
 
   // Set the "is handshake resumed" flag.
   s2a_proto_S2AContext_set_is_handshake_resumed(context, is_handshake_resumed_);
-- 
2.43.0


From 92d3d4714d923ab19a9afec79c41e87b3c1626c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:37 +0000
Subject: [PATCH 15/21] fix: do not finish the handshake on an invalid session
 result

The handshake was marked finished, and the previous result dropped, before the
session result was checked, so that a refused result left a session without
(or with half of a) result, which CreateFrameProtector then dereferenced.
---
 src/handshaker/s2a_proxy.cc | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/handshaker/s2a_proxy.cc b/src/handshaker/s2a_proxy.cc
index 7418acc..9afa6a9 100644
--- a/src/handshaker/s2a_proxy.cc
+++ b/src/handshaker/s2a_proxy.cc
@@ -252,7 +252,6 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
   }
 
   if (s2a_proto_SessionResp_has_result(response)) {
-    is_handshake_finished_ = true;
     const s2a_proto_SessionResult* result =
         s2a_proto_SessionResp_result(response);
     if (result == nullptr || !s2a_proto_SessionResult_has_state(result)) {
@@ -262,7 +261,7 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
               /*buffer=*/nullptr};
     }
     const s2a_proto_SessionState* state = s2a_proto_SessionResult_state(result);
-    result_ = absl::make_unique<S2AHandshakeResult>();
+    auto new_result = absl::make_unique<S2AHandshakeResult>();
 
     // Parse and set the TLS version.
     absl::variant<Status, TlsVersion> tls_version_status =
@@ -281,7 +280,7 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
       default:  // Unexpected variant case.
         ABSL_ASSERT(0);
     }
-    result_->tls_version = absl::get<1>(tls_version_status);
+    new_result->tls_version = absl::get<1>(tls_version_status);
 
     // Parse and set the ciphersuite.
     absl::variant<Status, Ciphersuite> ciphersuite_status =
@@ -300,24 +299,26 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
       default:  // Unexpected variant case.
         ABSL_ASSERT(0);
     }
-    result_->ciphersuite = absl::get<1>(ciphersuite_status);
+    new_result->ciphersuite = absl::get<1>(ciphersuite_status);
 
     upb_strview in_traffic_secret = s2a_proto_SessionState_in_key(state);
-    result_->in_traffic_secret = std::vector<uint8_t>(in_traffic_secret.size);
-    memcpy(result_->in_traffic_secret.data(), in_traffic_secret.data,
+    new_result->in_traffic_secret =
+        std::vector<uint8_t>(in_traffic_secret.size);
+    memcpy(new_result->in_traffic_secret.data(), in_traffic_secret.data,
            in_traffic_secret.size);
 
     upb_strview out_traffic_secret = s2a_proto_SessionState_out_key(state);
-    result_->out_traffic_secret = std::vector<uint8_t>(out_traffic_secret.size);
-    memcpy(result_->out_traffic_secret.data(), out_traffic_secret.data,
+    new_result->out_traffic_secret =
+        std::vector<uint8_t>(out_traffic_secret.size);
+    memcpy(new_result->out_traffic_secret.data(), out_traffic_secret.data,
            out_traffic_secret.size);
 
     // |out_sequence| may be nonzero on server-side because, right after the
     // handshake is complete, one or more TLS records containing session tickets
     // may have been generated. This will increment |out_sequence| by the number
     // of TLS records generated.
-    result_->in_sequence = s2a_proto_SessionState_in_sequence(state);
-    result_->out_sequence = s2a_proto_SessionState_out_sequence(state);
+    new_result->in_sequence = s2a_proto_SessionState_in_sequence(state);
+    new_result->out_sequence = s2a_proto_SessionState_out_sequence(state);
 
     // TODO(matthewstevenson88): Enforce that peer identity is set.
     // TODO(matthewstevenson88) Check that peer identity appears in the list of
@@ -336,9 +337,9 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
       return {Status(StatusCode::kInternal, error),
               /*bytes_consumed=*/0, /*buffer=*/nullptr};
     }
-    result_->local_identity =
+    new_result->local_identity =
         s2a_util::ConvertFromProtoToIdentity(local_identity);
-    result_->connection_id = s2a_proto_SessionState_connection_id(state);
+    new_result->connection_id = s2a_proto_SessionState_connection_id(state);
 
     // Create the |S2AContext|.
     context_ = absl::make_unique<S2AContext>(
@@ -352,6 +353,8 @@ ProxyStatus S2AProxy::GetBytesForPeer(std::unique_ptr<Buffer> bytes_from_s2a) {
         s2a_util::ParseUpbStrview(
             s2a_proto_SessionResult_local_cert_fingerprint(result)),
         s2a_proto_SessionState_is_handshake_resumed(state));
+    result_ = std::move(new_result);
+    is_handshake_finished_ = true;
   }
 
   // Retrieve the |out_frames| to send to the peer.
-- 
2.43.0


From 58ae17a99f96a8ee5a09eb52d94eb52cbcc4e765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:56 +0000
Subject: [PATCH 16/21] fix: take the lock in S2AHalfConnection::TagLength

UpdateKey replaces and frees the AEAD crypter under the lock; TagLength, which
the receiving direction calls for the record overhead of every record, read it
without the lock and could use it after it was freed.
---
 src/record_protocol/s2a_half_connection.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/record_protocol/s2a_half_connection.cc b/src/record_protocol/s2a_half_connection.cc
index 167600e..9845906 100644
--- a/src/record_protocol/s2a_half_connection.cc
+++ b/src/record_protocol/s2a_half_connection.cc
@@ -253,7 +253,10 @@ Status S2AHalfConnection::UpdateKey() {
   return Status();
 }
 
-size_t S2AHalfConnection::TagLength() { return aead_crypter_->TagLength(); }
+size_t S2AHalfConnection::TagLength() {
+  absl::MutexLock lock(&mu_);
+  return aead_crypter_->TagLength();
+}
 
 S2AHalfConnection::S2AHalfConnection(
     Ciphersuite ciphersuite, size_t key_size, uint64_t sequence,
-- 
2.43.0


From 604e56656fdeec64267167b9840065c1a55a93f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:06 +0000
Subject: [PATCH 17/21] fix: refuse ciphertext whose total length overflows in
 AEAD decryption

---
 src/crypto/aes_gcm_crypter.cc             | 7 +++++++
 src/crypto/chacha_poly_crypter_openssl.cc | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/src/crypto/aes_gcm_crypter.cc b/src/crypto/aes_gcm_crypter.cc
index 8343cc6..79fcba8 100644
--- a/src/crypto/aes_gcm_crypter.cc
+++ b/src/crypto/aes_gcm_crypter.cc
@@ -290,6 +290,13 @@ class AesGcmS2AAeadCrypter : public S2AAeadCrypter {
     // the tag into |EVP_decrypt|.
     size_t total_ciphertext_and_tag_length = 0;
     for (const auto& vec : ciphertext_and_tag) {
+      if (vec.iov_len > std::numeric_limits<size_t>::max() -
+                            total_ciphertext_and_tag_length) {
+        return CrypterStatus(
+            Status(StatusCode::kInvalidArgument,
+                   "|ciphertext_and_tag| is too long."),
+            /*bytes_written=*/0);
+      }
       total_ciphertext_and_tag_length += vec.iov_len;
     }
     if (total_ciphertext_and_tag_length < kAesGcmTagSize) {
diff --git a/src/crypto/chacha_poly_crypter_openssl.cc b/src/crypto/chacha_poly_crypter_openssl.cc
index 45e8031..311e661 100644
--- a/src/crypto/chacha_poly_crypter_openssl.cc
+++ b/src/crypto/chacha_poly_crypter_openssl.cc
@@ -296,6 +296,12 @@ class ChachaPolyS2AAeadCrypterOpenSSL : public S2AAeadCrypter {
     // the tag into |EVP_decrypt|.
     size_t total_ciphertext_and_tag_length = 0;
     for (const auto& vec : ciphertext_and_tag) {
+      if (vec.iov_len > std::numeric_limits<size_t>::max() -
+                            total_ciphertext_and_tag_length) {
+        return CrypterStatus(
+            absl::InvalidArgumentError("|ciphertext_and_tag| is too long."),
+            /*bytes_written=*/0);
+      }
       total_ciphertext_and_tag_length += vec.iov_len;
     }
     if (total_ciphertext_and_tag_length < kChachaPolyTagSize) {
-- 
2.43.0


From 5deb37962b0277e476966f25f11267bc4aee8760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:53 +0000
Subject: [PATCH 18/21] fix: refuse oversized ciphertext components in AEAD
 decryption

The SSL library takes the length as an int; a component of more than
INT_MAX bytes was silently narrowed.
---
 src/crypto/aes_gcm_crypter.cc             | 9 +++++++++
 src/crypto/chacha_poly_crypter_openssl.cc | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/crypto/aes_gcm_crypter.cc b/src/crypto/aes_gcm_crypter.cc
index 79fcba8..fe1964d 100644
--- a/src/crypto/aes_gcm_crypter.cc
+++ b/src/crypto/aes_gcm_crypter.cc
@@ -349,6 +349,15 @@ class AesGcmS2AAeadCrypter : public S2AAeadCrypter {
       if (bytes_to_write > total_ciphertext_and_tag_length - kAesGcmTagSize) {
         bytes_to_write = total_ciphertext_and_tag_length - kAesGcmTagSize;
       }
+      // The SSL library takes the number of bytes as an int.
+      if (bytes_to_write >
+          static_cast<size_t>(std::numeric_limits<int>::max())) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
+        return CrypterStatus(
+            Status(StatusCode::kInvalidArgument,
+                   "|ciphertext_and_tag| has an oversized component."),
+            /*bytes_written=*/0);
+      }
       if (remaining_plaintext_length < bytes_to_write) {
         memset(plaintext.iov_base, 0x00, plaintext.iov_len);
         return CrypterStatus(
diff --git a/src/crypto/chacha_poly_crypter_openssl.cc b/src/crypto/chacha_poly_crypter_openssl.cc
index 311e661..a137cef 100644
--- a/src/crypto/chacha_poly_crypter_openssl.cc
+++ b/src/crypto/chacha_poly_crypter_openssl.cc
@@ -355,6 +355,15 @@ class ChachaPolyS2AAeadCrypterOpenSSL : public S2AAeadCrypter {
           total_ciphertext_and_tag_length - kChachaPolyTagSize) {
         bytes_to_write = total_ciphertext_and_tag_length - kChachaPolyTagSize;
       }
+      // The SSL library takes the number of bytes as an int.
+      if (bytes_to_write >
+          static_cast<size_t>(std::numeric_limits<int>::max())) {
+        memset(plaintext.iov_base, 0x00, plaintext.iov_len);
+        return CrypterStatus(
+            absl::InvalidArgumentError(
+                "|ciphertext_and_tag| has an oversized component."),
+            /*bytes_written=*/0);
+      }
       if (remaining_plaintext_length < bytes_to_write) {
         memset(plaintext.iov_base, 0x00, plaintext.iov_len);
         return CrypterStatus(
-- 
2.43.0


From 4731a6fef6dbdc7e24e94f5702b68219db7cdc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:02 +0000
Subject: [PATCH 19/21] fix: refuse oversized AAD components in AEAD encryption
 and decryption

The SSL library takes the length as an int; a component of more than
INT_MAX bytes was silently narrowed, and ChaCha20-Poly1305 then read out
of bounds.
---
 src/crypto/aes_gcm_crypter.cc             | 12 ++++++++++++
 src/crypto/chacha_poly_crypter_openssl.cc | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/crypto/aes_gcm_crypter.cc b/src/crypto/aes_gcm_crypter.cc
index fe1964d..aa6dc60 100644
--- a/src/crypto/aes_gcm_crypter.cc
+++ b/src/crypto/aes_gcm_crypter.cc
@@ -112,6 +112,12 @@ static Status SetAadForEncrypt(EVP_CIPHER_CTX* ctx,
                     "Non-zero aad length but aad is nullptr.");
     }
 
+    // The SSL library takes the length of |vec| as an int.
+    if (vec.iov_len > static_cast<size_t>(std::numeric_limits<int>::max())) {
+      return Status(StatusCode::kInvalidArgument,
+                    "|aad| has an oversized component.");
+    }
+
     size_t aad_bytes_read = 0;
     if (!EVP_EncryptUpdate(ctx, /*out=*/nullptr,
                            reinterpret_cast<int*>(&aad_bytes_read),
@@ -142,6 +148,12 @@ static Status SetAadForDecrypt(EVP_CIPHER_CTX* ctx,
                     "Non-zero aad length but aad is nullptr.");
     }
 
+    // The SSL library takes the length of |vec| as an int.
+    if (vec.iov_len > static_cast<size_t>(std::numeric_limits<int>::max())) {
+      return Status(StatusCode::kInvalidArgument,
+                    "|aad| has an oversized component.");
+    }
+
     size_t aad_bytes_read = 0;
     if (!EVP_DecryptUpdate(ctx, /*out=*/nullptr,
                            reinterpret_cast<int*>(&aad_bytes_read),
diff --git a/src/crypto/chacha_poly_crypter_openssl.cc b/src/crypto/chacha_poly_crypter_openssl.cc
index a137cef..97f8a6a 100644
--- a/src/crypto/chacha_poly_crypter_openssl.cc
+++ b/src/crypto/chacha_poly_crypter_openssl.cc
@@ -116,6 +116,12 @@ absl::Status SetAadForEncrypt(EVP_CIPHER_CTX* ctx,
                           "non-zero aad length but |aad| is nullptr.");
     }
 
+    // The SSL library takes the length of |vec| as an int.
+    if (vec.iov_len > static_cast<size_t>(std::numeric_limits<int>::max())) {
+      return absl::Status(absl::StatusCode::kInvalidArgument,
+                          "|aad| has an oversized component.");
+    }
+
     size_t aad_bytes_read = 0;
     if (!EVP_EncryptUpdate(ctx, /*out=*/nullptr,
                            reinterpret_cast<int*>(&aad_bytes_read),
@@ -146,6 +152,12 @@ absl::Status SetAadForDecrypt(EVP_CIPHER_CTX* ctx,
                           "non-zero aad length but |aad| is nullptr.");
     }
 
+    // The SSL library takes the length of |vec| as an int.
+    if (vec.iov_len > static_cast<size_t>(std::numeric_limits<int>::max())) {
+      return absl::Status(absl::StatusCode::kInvalidArgument,
+                          "|aad| has an oversized component.");
+    }
+
     size_t aad_bytes_read = 0;
     if (!EVP_DecryptUpdate(ctx, /*out=*/nullptr,
                            reinterpret_cast<int*>(&aad_bytes_read),
-- 
2.43.0


From dd91a0827dab25e98b0361a139cf501f356c305e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:55 +0000
Subject: [PATCH 20/21] fix: return the S2AContext on every call of
 S2AProxy::GetS2AContext

The first call moved the context out of the proxy, so that a second one
reported success with a null context, against the documented behaviour.
---
 src/handshaker/s2a_proxy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handshaker/s2a_proxy.cc b/src/handshaker/s2a_proxy.cc
index 9afa6a9..a6e9167 100644
--- a/src/handshaker/s2a_proxy.cc
+++ b/src/handshaker/s2a_proxy.cc
@@ -815,7 +815,7 @@ absl::variant<Status, std::unique_ptr<S2AContext>> S2AProxy::GetS2AContext() {
     return Status(StatusCode::kFailedPrecondition,
                   "Handshake is not finished.");
   }
-  return std::move(context_);
+  return absl::make_unique<S2AContext>(*context_);
 }
 
 }  // namespace s2a_proxy
-- 
2.43.0


From d3ae7dd1c567b37a7512002f07d6e3ef5ad0d258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:30 +0000
Subject: [PATCH 21/21] fix: take the unprotect lock in the one-record overload
 of S2AFrameProtector::Unprotect

---
 src/frame_protector/s2a_frame_protector.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/frame_protector/s2a_frame_protector.cc b/src/frame_protector/s2a_frame_protector.cc
index f993bed..6b8e013 100644
--- a/src/frame_protector/s2a_frame_protector.cc
+++ b/src/frame_protector/s2a_frame_protector.cc
@@ -379,6 +379,7 @@ Status S2AFrameProtector::Unprotect(
       ABSL_ASSERT(0);
   }
 
+  absl::MutexLock lock(&unprotect_mu_);
   S2ACrypterStatus status = crypter_->Unprotect(
       {header, kTls13RecordHeaderLength}, absl::get<1>(isolate_status).payload,
       unprotected_bytes);
-- 
2.43.0

