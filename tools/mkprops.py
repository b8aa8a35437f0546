#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (one place to edit)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})


AES, CHO, CHB = "src/crypto/aes_gcm_crypter.cc", "src/crypto/chacha_poly_crypter_openssl.cc", "src/crypto/chacha_poly_crypter_boringssl.cc"
AEADS = [AES, CHO, CHB, "src/crypto/s2a_aead_crypter.h", "src/crypto/s2a_aead_crypter.cc"]
HALF, CR, HM = "src/record_protocol/s2a_half_connection.cc", "src/record_protocol/s2a_crypter.cc", "src/record_protocol/handshake_message_handler.cc"
FP, PX, CX, UT = "src/frame_protector/s2a_frame_protector.cc", "src/handshaker/s2a_proxy.cc", "src/handshaker/s2a_context.cc", "src/handshaker/s2a_util.cc"
TS, CU = "src/record_protocol/s2a_upb_ticket_sender.cc", "src/record_protocol/s2a_crypter_util.cc"
OPT, TM, FTM = "src/options/s2a_options.cc", "src/token_manager/single_token_access_token_manager.cc", "src/token_manager/fake_access_token_manager.cc"

prop("C01", "AEAD results equal the standard for every length and segmentation",
     "For every valid key, nonce, AAD and data, encryption with AES-128-GCM, AES-256-GCM or ChaCha20-Poly1305 writes exactly the ciphertext and 16-byte tag that the standard defines, and decryption of those bytes returns exactly the original data and its length, against either SSL library. The result depends only on the concatenated contents, never on how AAD, plaintext or ciphertext-and-tag are cut into buffers (empty buffers included, the tag itself split anywhere). Input buffers are not modified and nothing past the reported length is written.",
     ["inputs", "configurations"], "every key, nonce, AAD, data, segmentation into buffers, output slack, SSL library",
     "The tests use a few published vectors in one to three buffers; a tag spread over several buffers, long AAD, or lengths off the sampled ones are never tried.",
     AEADS, [("Encrypt/Decrypt loops over the buffer list", AES), ("same, OpenSSL ChaCha", CHO), ("gather into one vector, seal/open", CHB), ("length computations", "src/crypto/s2a_aead_crypter.cc")],
     ["S2AAeadCrypter::Encrypt", "S2AAeadCrypter::Decrypt", "length getters"])
prop("C02", "AEAD decryption accepts only authentic data and leaves no plaintext behind",
     "A decryption succeeds only if key, nonce, AAD, ciphertext and full tag are exactly those of one encryption; any alteration, truncation, extension or misdelivery of them is reported as an error. Whenever a decryption fails, for whatever reason and after any number of buffers, every byte of the output buffer is either zero or what it was before: no unauthenticated plaintext is left in it.",
     ["inputs", "configurations"], "every alteration of every valid ciphertext, in every segmentation, and every failing decryption",
     "Tests flip one or two fixed bits in one buffer and never look at the output after failures in later buffers.",
     AEADS, [("tag check and wipe", AES + " DecryptCheckTagAndFinalize"), ("same", CHO), ("EVP_AEAD_CTX_open", CHB)],
     ["status of S2AAeadCrypter::Decrypt", "the plaintext buffer after failure"])
prop("C03", "AEAD calls stay inside their buffers and refuse malformed arguments",
     "No AEAD call reads or writes outside the buffers it is given, whatever their sizes. An output buffer smaller than the result, a nonce or key of the wrong length, ciphertext shorter than a tag, an input buffer with a length but no address, or a buffer too long to process is answered with an error that reports zero bytes written, never with success or a crash, and the crypter remains usable.",
     ["inputs"], "every output size below the needed one, every wrong nonce/key length, every position of an invalid buffer",
     "Tests try one undersized output and one null per cipher; out-of-bounds accesses are not observable in an uninstrumented build.",
     AEADS, [("size and null checks before each library call", AES), ("same", CHO), ("same", CHB)],
     ["status codes", "guard pages and canaries around outputs", "ASan/UBSan"])
prop("C04", "An AEAD crypter's results do not depend on what it did before",
     "Every encryption or decryption on a crypter gives the result a freshly created crypter with the same key would give, whatever sequence of encryptions, decryptions, rejected calls, forged inputs and internal failures preceded it on that crypter.",
     ["histories", "fault_sequences"], "every history of successful and failing operations on one crypter",
     "Tests run at most two operations on a crypter; state left in the cipher context by an operation that stopped half way needs a history to show.",
     AEADS, [("context re-initialised with the nonce by every operation", AES), ("same", CHO)],
     ["results of long mixed histories vs. an independent implementation"], [("ctx_", "cipher context reused across operations", AES)])
prop("C05", "A failure inside the SSL library never turns into success",
     "If any call into the SSL library fails while a crypter is created, data is encrypted or decrypted, a secret is derived, a record is protected or unprotected, or keys are updated, then the operation reports an error (or its correct result); it never crashes, never reports success with wrong output, and never leaves decrypted data in the output of a failed decryption. Once the library works again, so does the crypter for AEAD operations.",
     ["fault_sequences", "crash_points"], "every SSL library call of every operation, failing once or persistently",
     "The tests never make the SSL library fail.",
     AEADS + ["src/crypto/hkdf.cc", HALF, CR], [("return value of every library call checked", AES), ("same", CHO), ("same", CHB), ("same", "src/crypto/hkdf.cc"), ("status propagation", HALF)],
     ["interposed EVP_*/HMAC_* calls", "statuses", "output buffers"])
prop("C06", "HKDF derivation equals RFC 5869 and enforces its limits",
     "Deriving a secret fills the whole output with exactly HKDF-Expand(PRK, info, L) of RFC 5869 for SHA-256 and SHA-384, for every output length up to 255 digests, every info and every PRK at least one digest long. Longer outputs, shorter PRKs and unknown hash functions are answered with an error.",
     ["inputs", "configurations"], "every hash, PRK, info and output length",
     "Tests check the RFC vectors (three output lengths); block-count and last-block arithmetic at other lengths is not exercised.",
     ["src/crypto/hkdf.cc", "src/crypto/hkdf.h"], [("block loop and limits", "src/crypto/hkdf.cc HkdfDerivation, HkdfDeriveSecret")], ["HkdfDeriveSecret"])
prop("C07", "Protected records are exactly TLS 1.3 records",
     "Protecting any application data, alert or handshake content of 0 to 16384 bytes, in any segmentation, yields exactly the record RFC 8446 prescribes for the connection's ciphersuite, traffic secret and current sequence number: header 23 3 3 with the length, then AEAD(content, type) with the header as AAD. Content above 16384 bytes, an unknown record type or a too small record buffer is refused without consuming a sequence number, so the next record is still the one the peer expects.",
     ["inputs", "histories", "configurations"], "every content, type, segmentation, ciphersuite, starting sequence number, and preceding history",
     "Tests compare a handful of fixed records at sequence numbers 0 to 2; arbitrary lengths, segmentations, 64-bit sequence numbers and failures in between are not reached (and these tests do not build here).",
     [CR, HALF, "include/s2a_constants.h"], [("Protect", CR), ("nonce, sequence and AEAD", HALF), ("key derivation labels", HALF)],
     ["S2ACrypter::Protect output vs. independent RFC 8446 implementation"])
prop("C08", "No nonce is ever used twice with the same key",
     "In each direction the record sequence number increases by one per record from the given start, so no two records are ever encrypted with the same key and nonce, over any history of protected records, rejected calls, failures and key updates. When the 64-bit sequence number is exhausted, protecting and unprotecting fail instead of wrapping around.",
     ["histories", "inputs", "schedules"], "every history and starting sequence number, including those next to 2^64",
     "Tests stop after a few records; nonce reuse would only show on particular histories (failures, exhaustion, key updates, concurrent use).",
     [HALF, CR], [("sequence counter increment", HALF + " IncrementSequence"), ("nonce construction", HALF)],
     ["(key, nonce) pairs observed at the SSL library boundary", "records produced near exhaustion"], [("sequence_", "next record sequence number", HALF)])
prop("C09", "Key updates follow the RFC 8446 key schedule in step with the peer",
     "Each outbound key update replaces the sending key, IV and secret by those RFC 8446 section 7.2 derives and restarts the sequence at zero; each complete KeyUpdate message received does the same to the receiving direction, exactly once, after the record carrying it and never for an incomplete one. The other direction is unaffected, for any number of updates interleaved with traffic.",
     ["histories", "inputs"], "every interleaving of data, fragments of handshake messages and key updates in both directions",
     "Tests perform one or two updates on whole messages; long chains, fragmented KeyUpdates and mixed histories are not tried.",
     [HALF, CR, HM], [("UpdateKey", HALF), ("HandleProcessHandshakeMessageResult", CR), ("UpdateOutboundKey", CR)],
     ["records exchanged with an independent RFC 8446 peer that follows the schedule"], [("traffic_secret_", "current traffic secret", HALF)])
prop("C10", "Unprotect accepts only the authentic next record of the peer",
     "Unprotecting returns data only for a record that the peer's key protects at exactly the current receiving position: replayed, reordered, skipped, truncated, extended, altered or other-direction records are refused with an error and deliver no data, and a record with a malformed or inconsistent header is refused. Records refused for their header or size do not disturb the stream: the next authentic record is still accepted. Delivered data is exactly what was sent, in the order sent.",
     ["inputs", "histories", "fault_sequences"], "every modification, replay, reordering and segmentation of the record stream",
     "Tests alter one record in one way; replays, reorderings and header/payload inconsistencies over histories are not sampled.",
     [CR, HALF], [("header checks", CR + " Unprotect"), ("AEAD with sequence nonce", HALF + " Decrypt")],
     ["S2ACrypter::Unprotect status, bytes and output buffer"])
prop("C11", "Inner content is interpreted as TLS 1.3 prescribes",
     "For every authentic record: application data of any padding is delivered without type and padding; records above the size limit raise the overflow alert; all-padding records, unknown inner types and malformed alerts are invalid; close_notify ends the stream and every later unprotect reports it; other alerts are reported as alerts; handshake content delivers no bytes. Nothing but application data is ever delivered as plaintext.",
     ["inputs", "histories"], "every inner plaintext: type, content, padding length, size",
     "Tests use a few hand-encrypted records per case; padding lengths, sizes around the limit and type bytes are not enumerated.",
     [CR], [("padding strip, type dispatch", CR + " Unprotect, ProcessAlert"), ("sticky close_notify", CR)],
     ["S2ACrypter::Unprotect statuses and output for records made by an independent peer"])
prop("C12", "Handshake messages parse the same however they are fragmented",
     "Processing a stream of post-handshake messages gives the same tickets, the same key updates in the same places and the same acceptance or rejection whatever way the stream is cut into pieces (message headers included), and reports that more bytes are expected exactly when the stream so far ends inside a message. Unknown message types and messages after a KeyUpdate in the same piece are rejected; arbitrary bytes never cause undefined behaviour.",
     ["inputs", "histories"], "every message stream and every fragmentation of it",
     "Tests cut one or two messages at a few places; cuts inside headers combined with several messages are a combinatorial space.",
     [HM, "src/record_protocol/handshake_message_handler.h"], [("header/body reassembly", HM)],
     ["ProcessHandshakeMessage results, GetStoredTickets"], [("in-progress message", "bytes of the message being reassembled", HM)])
prop("C13", "Ticket collection: at most five, byte-exact, in order, handed out once",
     "The session tickets handed out are exactly the first at most five complete NewSessionTicket messages received, byte for byte and in order of arrival, whatever their sizes and fragmentation and however many arrive. They can be retrieved once and only when no ticket is partially received; further tickets are then ignored without error and without unbounded memory growth.",
     ["inputs", "histories"], "every sequence, size (up to 2^24-1 bytes) and fragmentation of tickets, and every point of retrieval",
     "Tests use small tickets and up to six of them; large sizes, counts above 255 and retrieval at arbitrary points are not tried.",
     [HM], [("ticket storage and limit", HM)], ["GetStoredTickets", "num_full_tickets_stored"])
prop("C14", "A crypter forwards the connection's tickets exactly once",
     "Over any record stream the crypter calls the ticket sender at most once: by the time application data is delivered after at least one complete ticket, or when five tickets are complete at a message boundary, and never with more than five. The call carries the connection id, local identity, S2A address and channel factory given at creation and the tickets byte for byte in order; the wait function it returns is called exactly once, at destruction. Application data arriving inside an unfinished handshake message is rejected.",
     ["histories", "inputs", "configurations"], "every interleaving of tickets (fragmented over records), key updates and application data",
     "Tests send one or a few whole tickets per record in fixed order.",
     [CR, HM, "src/record_protocol/s2a_ticket_sender.h"], [("ticket phase and forwarding", CR + " ProcessHandshakeMessage, CheckForTickets/MaybeSendTickets"), ("wait on destruction", CR)],
     ["calls of the ticket sender callback"])
prop("C15", "The resumption request carries the tickets, connection and identity unchanged",
     "The session request built for ticket resumption, once serialized, contains exactly the given tickets (fragments concatenated, in order), connection id and local identity, for any bytes, sizes and counts. Missing tickets or an identity of unknown kind are refused.",
     ["inputs"], "every list of tickets (any bytes and fragmentation), connection id and identity",
     "Tests build one request with two short text tickets.",
     [TS], [("PrepareResumptionTicketReq", TS)], ["serialized SessionReq decoded by an independent protobuf decoder"])
prop("C16", "Frame protector: what goes in comes out, and sizes match the formulas",
     "Protecting any byte sequence in any segmentation and unprotecting the result, in any number of calls and any segmentation of the protected stream at record ends, returns exactly the original bytes in order. The protected form is a sequence of valid records of at most the maximum record size, its total size is exactly what NumberBytesToProtect predicts, and NumberBytesToUnprotect always suffices for the unprotected data.",
     ["inputs", "histories"], "every data length, segmentation, call sequence and ciphersuite",
     "Tests cover a few sizes up to two records; every residue modulo the record size, long multi-call streams and odd segmentations are not.",
     [FP], [("record splitting", FP + " Protect"), ("record reassembly", FP + " Unprotect"), ("size functions", FP)],
     ["Protect/Unprotect/NumberBytesToProtect/NumberBytesToUnprotect vs. an independent peer"])
prop("C17", "Frame protector buffers are released exactly once",
     "Every buffer the frame protector obtains from the caller's allocator is either returned to the caller in a result or released exactly once through the caller's deallocator, and buffers owned by the caller are never released, kept, or written outside their length. This holds on success and on every failure: bad input, library failure, an allocator that fails, close_notify and alerts.",
     ["inputs", "fault_sequences", "histories"], "every call, input, and point of failure",
     "Tests use a plain allocator without accounting and almost no failing paths.",
     [FP], [("allocator and deallocator callbacks", FP)], ["recorded allocator/deallocator call log balanced per call", "ASan"])
prop("C18", "Frame protector answers partial or malformed input with an error",
     "Input that is not a whole number of well-formed records (cut anywhere, with trailing bytes, with a bad header, with an inconsistent length, or more than one record for the single-record call) never yields success with missing, extra or altered data, and never crashes. Empty buffers anywhere in the list are ignored.",
     ["inputs"], "every truncation, extension, alteration and segmentation of a protected stream",
     "Tests pass whole records, one truncated header and one oversized record.",
     [FP], [("record length parsing", FP + " ComputeTlsRecordSize, IsolateTlsPayload")], ["Unprotect results"])
prop("C19", "Sending and receiving may run concurrently on one connection",
     "One thread protecting (and updating outbound keys) while another unprotects on the same connection, with key updates arriving meanwhile and sizes queried, is free of data races and use-after-free, and both byte streams are delivered exactly as if run one after the other. Concurrent protect calls produce records with distinct, gapless sequence numbers, and all records of one call of the frame protector come in one piece. Concurrent unprotect calls on one frame protector take effect one at a time: a record offered by several threads at once is delivered to exactly one. A proxy can be polled for completion while another thread drives its handshake, and calls that drive it from several threads take effect one at a time, each getting the answer to its own bytes.",
     ["schedules", "histories"], "every interleaving of concurrent protect, unprotect, key-update and size-query calls",
     "Tests are single-threaded.",
     [CR, HALF, FP], [("mutex per direction", HALF), ("mutex", CR)], ["ThreadSanitizer with annotated locks", "received streams"], [("mu_", "guards sequence, keys and AEAD crypter", HALF)])
prop("C20", "The first message to the S2A states exactly the configured options",
     "The first bytes for the S2A encode exactly the configured application protocol, TLS version bounds, ciphersuites in order, target name, target identities and local identities, for the client and the server role, as one session request; nothing is added or lost for any option values (text without zero bytes). The peer's first bytes are forwarded verbatim in the server role. A client given peer bytes first or more than one local identity, and an unknown ciphersuite, are refused.",
     ["configurations", "inputs"], "every combination of option values and role",
     "Tests compare one or two fixed configurations.",
     [PX, UT, OPT], [("PrepareClientStart/ServerStart message", PX), ("identity and ciphersuite conversion", UT)],
     ["GetBytesForS2A output decoded by an independent protobuf decoder"])
prop("C21", "The proxy forwards handshake bytes verbatim, once and in order",
     "Peer bytes given to the proxy reach the S2A unchanged in exactly one request each, and the S2A's outgoing frames and consumed-byte count reach the caller unchanged, for any contents and any number of rounds (a request on its way to the S2A reports nothing consumed). The first S2A request is a start request and every later one a next request; a next request without peer bytes is refused without disturbing the session. A response whose status is missing or not OK yields an error, no frames and no consumed bytes.",
     ["histories", "inputs"], "every sequence of calls and message contents up to completion",
     "Tests walk one or two scripted handshakes.",
     [PX], [("message state", PX + " GetBytesForS2A, GetBytesForPeer")], ["bytes in and out of the proxy, decoded independently"])
prop("C22", "A handshake finishes only on a valid result; hostile S2A bytes are harmless",
     "The handshake is reported finished only after a response with OK status and a result that has a session state, a known TLS version and ciphersuite, and a local identity; anything else is answered with an error (no frames, no bytes consumed) or leaves the handshake unfinished, and a later bad response does not alter an established session. No byte sequence from the S2A crashes the proxy. Before completion, or with secrets of the wrong size or a TLS version other than 1.3, no frame protector is produced.",
     ["inputs", "histories"], "every byte sequence returned as an S2A response, at every point of the session",
     "Tests use a few well-formed responses and one error response.",
     [PX, CX], [("response parsing and result checks", PX), ("context creation", CX)], ["IsHandshakeFinished, CreateFrameProtector, GetS2AContext under ASan/UBSan, libFuzzer"])
prop("C23", "The finished session uses exactly the negotiated parameters",
     "After a successful handshake the frame protector encrypts and decrypts with exactly the negotiated ciphersuite, traffic secrets and sequence numbers in the right directions, so that traffic interoperates with an independent TLS 1.3 peer holding the same secrets. The context reports exactly the negotiated application protocol, TLS version, ciphersuite, peer and local identity, both certificate fingerprints and whether the session was resumed, each time it is asked for. Should the S2A give a result more than once, the last one counts for both.",
     ["inputs", "configurations"], "every session result: ciphersuites, secrets, sequence numbers, identities",
     "Tests use one result and only check that objects are created.",
     [PX, CX, FP], [("CreateFrameProtector", PX), ("GetS2AContext, S2AContext::Create", CX)], ["records of the created frame protector", "S2AContext getters"])
prop("C24", "Tokens are sent only for the identity they belong to",
     "Each authentication token in a request to the S2A is the one the token manager supplies for exactly the identity it is attached to: one per configured local identity that has a token, or the default token without an identity if none is configured, and, once the S2A has chosen an identity with a token, only that one. Identities without a token get none, and no token of one identity is ever attached to another.",
     ["configurations", "histories"], "every set of local identities, token manager behaviour and role",
     "Tests use a fixed fake manager with one or two identities.",
     [PX, TM], [("PopulateTokenCache and auth mechanisms", PX)], ["AuthenticationMechanism entries in GetBytesForS2A output"])
prop("C25", "A serialized context deserializes to the same context",
     "For every context, serializing and deserializing gives a context equal in every field (application protocol, TLS version, ciphersuite, peer and local identity, both certificate fingerprints as arbitrary bytes, resumption flag), and the serialized form is the protocol message any reader expects. Arbitrary or truncated input is either rejected or yields a usable context, without crash.",
     ["inputs"], "every context value and every byte string given to deserialization",
     "Tests round-trip one fixed context with text fields.",
     [CX], [("GetSerializedContext", CX), ("S2AContext::Create from bytes", CX)], ["getters before and after", "independent protobuf decoder"])
prop("C26", "Options and identities are faithful values",
     "Options report exactly what was last set, every ciphersuite added in order with repetitions, and exactly the set of identities added to each list; copying yields an equal and fully independent object, and later changes to either, or destroying either, never affect the other. Identities keep kind and text exactly (any bytes); they are equal exactly when both are, and equal ones hash equally.",
     ["histories", "inputs"], "every sequence of setters, adders and copies",
     "Tests call each setter once.",
     [OPT, "include/s2a_options.h"], [("Copy", OPT), ("Identity equality/hash", "include/s2a_options.h")], ["getters after random operation sequences vs. a value model"])
prop("C27", "The token manager returns the token captured at creation, from any thread",
     "The single-token manager returns precisely the value the access-token variable S2A_ACCESS_TOKEN had when the manager was created, for the default identity and for every identity, whatever happens to the environment later and however many threads ask or build managers at once. If the variable was unset at creation, every request gives a not-found error.",
     ["histories", "schedules", "inputs"], "every token value, later environment change and concurrent use",
     "Tests read one token once on one thread.",
     [TM, FTM], [("token captured by value", TM)], ["GetDefaultToken/GetToken results, ThreadSanitizer"])
prop("C28", "SSL errors are drained completely into the reported message",
     "Retrieving the SSL errors returns the text of every queued error of the calling thread, in order, and leaves that thread's queue empty without touching other threads; on an empty queue it returns nothing. A failed AEAD operation leaves no stale library error queued behind it.",
     ["histories", "inputs"], "every content of the error queue and every failing operation",
     "The test queues one error.",
     ["src/crypto/s2a_aead_crypter_util.cc"] + AEADS[:3], [("GetSSLErrors", "src/crypto/s2a_aead_crypter_util.cc")], ["ERR_peek_error after the call", "returned text"])
prop("C29", "Distinct connections are independent under concurrency",
     "Different crypters, frame protectors and proxies used from different threads at the same time never influence each other: results equal those of running alone, and there is no data race on any shared state.",
     ["schedules"], "every interleaving of operations on distinct objects",
     "Tests are single-threaded.",
     AEADS[:3] + [CR, HM, FP, PX], [("no shared mutable state", "whole library")], ["ThreadSanitizer", "results vs. reference"])
prop("C30", "Identity, version and ciphersuite conversions are exact inverses",
     "Converting identities, TLS versions and ciphersuites between the library's own types and protocol values maps each defined value to its counterpart and back to itself, and answers every undefined value, unknown identity kind or missing field with an error or the documented null rather than with another valid value.",
     ["inputs"], "every value of each type, defined or not",
     "Tests convert a few of the defined values.",
     [UT, CX, CU, "include/s2a_constants.h"], [("conversion functions", UT), ("S2AContext getters", CX), ("handshake-layer conversion", CU)], ["conversion results over whole value ranges"])

prop("C31", "No secret ever appears in logs, error texts or console output",
     "Nothing the library passes to the logger, returns as an error text or debug name, or writes to stdout or stderr contains (verbatim, in hex, base64 or as numbers) any part of a traffic secret, key, IV, access token, session ticket or application plaintext, whatever succeeds or fails: creation with bad parameters, refused or failing protect and unprotect calls, rejected handshake content, SSL library failures, unparseable or erroneous S2A responses.",
     ["inputs", "histories", "fault_sequences"], "every operation and failure on every object of the library",
     "Tests discard or never inspect log output, and only a particular failure path would print a secret.",
     [CR, HALF, HM, FP, PX, CX, UT, TM, "src/crypto/hkdf.cc"] + AEADS[:3], [("logger_ calls and error statuses", CR), ("same", PX), ("same", FP), ("error details", "src/crypto/s2a_aead_crypter_util.cc"), ("DebugName", TM)],
     ["every logger call", "every returned status text", "stdout and stderr"])
prop("C32", "Connections exist only with valid parameters, and then they work",
     "A crypter, half connection or frame protector is created exactly when the TLS version is 1.3, the ciphersuite is a known one, both traffic secrets have that ciphersuite's digest length, the S2A address is not empty and the required callbacks (logger, ticket sender, allocator, deallocator) are present; an AEAD crypter exactly for keys of 16 or 32 (AES-GCM) or 32 (ChaCha20-Poly1305) bytes; a proxy exactly when it has a logger and options. Anything else is answered with an error (a null proxy), never with an object or a crash. A created connection interoperates in both directions with a TLS 1.3 peer that has the same parameters.",
     ["configurations", "inputs"], "every combination of version, ciphersuite, secret lengths, key lengths and presence of callbacks",
     "Tests try a handful of invalid parameters one at a time, and never use the created object for each valid one.",
     [CR, HALF, FP, PX, CU] + AEADS[:3], [("input checks", CR + " Create"), ("secret length and ciphersuite checks", HALF + " Create"), ("input checks", FP + " Create"), ("input checks", PX + " Create"), ("key length checks", AES)],
     ["result of each Create call", "traffic with an independent peer"])
prop("C33", "The memory a connection holds does not grow with its traffic",
     "However long a connection, crypter, frame protector or handshake lives, the memory it holds stays bounded: application data, session tickets beyond the collected ones, key updates in either direction, alerts other than close_notify, forged or malformed records, refused calls, failed allocations, and handshake rounds with any S2A answers leave no more memory allocated after thousands of operations than after a few; and destroying an object in any state frees everything it held.",
     ["histories", "inputs"], "every long history of operations that does not end the connection",
     "Tests perform a few operations; memory that is retained but still reachable is reported by no leak checker.",
     [CR, HM, HALF, FP, PX] + AEADS[:3], [("fragment and ticket buffers", HM), ("token cache and results", PX), ("cipher contexts", AES)],
     ["bytes allocated, from the sanitizer's allocator, at the same point of repeated periods", "LeakSanitizer"])
prop("C34", "Tickets of a session reach the S2A under that session's own identity",
     "On a session set up by the proxy, the resumption tickets the peer sends are handed to the ticket sender once, when the first application data after them is delivered, complete and in order, together with exactly the connection id and local identity the S2A reported for that session, the configured S2A address, and the channel factory and options given to the proxy; also when the proxy is gone, several sessions are alive at once, and tickets are long or arrive in pieces. Tickets arriving later are not sent, and the sender is waited for exactly once, when the session is destroyed.",
     ["histories", "inputs", "configurations"], "every set of sessions, session results, and order of tickets, key updates and data on them",
     "The proxy's tests stop at the handshake; the crypter's tests pass fixed parameters; nothing follows a ticket through a whole session.",
     [PX, FP, CR, "src/record_protocol/s2a_ticket_sender.h"], [("CreateFrameProtector passes the result on", PX), ("Create passes the options on", FP), ("RetrieveStoredTicketsAndSendToS2A", CR)],
     ["arguments of s2a_ticket_sender::SendTicketsToS2A (interposed)", "the returned wait function"])

prop("C35", "The work of a call is proportional to its input, whatever came before",
     "Every call of the AEAD crypters, HKDF, the record layer, the handshake message handler, the frame protector, the proxy and the protobuf conversions takes work (branches, bytes copied, bytes allocated) at most proportional to the size of its arguments, of what is held back of a partial message or record, and of the configured options: not to the square of them, however they are cut into buffers, records or messages. It does not grow with the number of records, key updates, handshakes or tickets that the object has already handled, nor with numbers (sequence numbers, lengths announced but not delivered) in the input.",
     ["inputs", "histories"], "every call, size and segmentation of its input, and history of the object before it",
     "The tests handle a few short inputs per object; quadratic loops and forgotten accumulations pass every functional assertion.",
     AEADS + [CR, HM, FP, PX, CX], [("loops over buffers", AES), ("reassembly of partial messages", HM), ("records in a stream", FP), ("GetBytesForPeer reads frames", PX)],
     ["branches taken in the library (coverage instrumentation)", "bytes through memcpy/memmove/memset/memcmp", "bytes through operator new"])
prop("C36", "Nothing depends on memory that was never written",
     "No decision, address, length or output of the library, on any input, history or fault of the SSL library or allocator, depends on uninitialised memory, and nothing handed to the SSL library, the S2A, the peer or the caller as valid bytes contains any; accesses which the SSL library makes on the library's behalf stay within the objects they are given.",
     ["inputs", "histories", "configurations"], "every input, history and fault of the other properties' workloads",
     "Uninitialised fields and buffers usually hold zero in a short test process, so that unit tests pass; only some callers, allocators or histories give other values.",
     AEADS + [HALF, CR, CU, HM, FP, PX, CX, UT, TS, OPT], [("CrypterStatus and field initialisers", "src/crypto/s2a_aead_crypter.h"), ("counters of S2ACrypter", CR), ("buffers on the stack for tags and secrets", AES), ("result fields filled conditionally", HM)],
     ["branches, addresses and system calls under Valgrind memcheck", "every output buffer"])
prop("C37", "Control flow and messages do not depend on secrets or opaque contents",
     "Which branches the library takes, which addresses it accesses, what it returns other than the data itself, and what it logs or says in a status does not depend on the value of a key, traffic secret, application data byte, ticket body, handshake bytes or certificate fingerprint: secrets and data of any value are treated alike. The only things revealed are what the protocol makes public: whether a tag verified, the content type and padding of an authentic record, headers of handshake messages, alerts. A forged record is refused without any dependence on its decryption.",
     ["inputs", "histories"], "every value of the secrets and contents, over all calls that handle them",
     "A test runs one value of a key or payload; that any other is treated alike is a statement about pairs of executions.",
     AEADS + [HALF, CR, CU, HM, FP, PX, CX, TS, "src/crypto/hkdf.cc"], [("keys passed to the SSL library", AES), ("derivation of keys", CU), ("decrypted content", CR), ("opaque handshake bytes and secrets", PX)],
     ["conditional jumps and addresses on tainted values (Valgrind memcheck)", "status and log texts", "output buffers"])

prop("C38", "What is lent is used only during the call; what is handed out stays",
     "Keys, secrets, addresses, identities, option structures, buffers, buffer lists, serialized bytes and handshake fragments given to a call or a creation may be overwritten and freed as soon as it returns, without any effect on later results. Results (records, plaintexts, protobuf bytes, statuses, contexts, tickets, frame protectors) belong to the caller: each is handed out once, is not touched again and stays valid and unchanged through later calls and after the object it came from is gone. The identity lent to a ticket sender stays until its wait function was called. Callbacks run only during a call on (or the destruction of) an object they were given to, on the calling thread. What callbacks capture, channel factories and options and token managers are released exactly once, no later than with the last object that may use them, also when a creation is refused.",
     ["inputs", "histories"], "every order of calls, destructions and reuse of the caller's memory, over all objects of the API",
     "The tests keep every argument alive until the end of the test and look at a result once, right after the call.",
     [FP, PX, CX, HALF, CR, HM, TS, OPT] + AEADS + ["include/s2a_frame_protector.h", "include/s2a_proxy.h", "src/record_protocol/s2a_crypter.h"],
     [("references in the frame protector's options", "include/s2a_frame_protector.h S2AFrameProtectorOptions"), ("members kept by value", "src/record_protocol/s2a_crypter.h"), ("allocator, logger and factory passed on", PX + " CreateFrameProtector"), ("tickets, factory and identity given to the sender", CR + " RetrieveStoredTicketsAndSendToS2A")],
     ["ASan on memory returned to its owner", "results kept past their makers", "tokens captured by callbacks", "counts of factories, options and managers"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
