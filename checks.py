"""Which workloads decide which property."""


def both(harness, prefix="", **kw):
    """The workload against OpenSSL and against BoringSSL, and a build with
    assertions compiled out, all under ASan+UBSan."""
    return [dict(name=prefix + "ossl-asan", harness=harness, lib="ossl", san="asan", **kw),
            dict(name=prefix + "bssl-asan", harness=harness, lib="bssl", san="asan", **kw),
            dict(name=prefix + "release", harness=harness, lib="ossl", san="rel", **kw)]


def guided(harness, *libs):
    """A coverage-guided workload: libFuzzer mutates the choices of one case, the monitors judge it."""
    return [dict(name=lib + "-guided", harness=harness, lib=lib, san="fuzz") for lib in libs or ("ossl",)]


HARNESSES = {
    "h_crypto": {"srcs": ["harness/h_crypto.cc"]},
    "h_record": {"srcs": ["harness/h_record.cc", "harness/conn.cc"]},
    "h_frame": {"srcs": ["harness/h_frame.cc", "harness/conn.cc"]},
    "h_proxy": {"srcs": ["harness/h_proxy.cc", "harness/conn.cc"], "wrap_ssl": False,
                "wraps": ["_ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE"]},
    "h_opts": {"srcs": ["harness/h_opts.cc"], "wrap_ssl": False},
    "h_fake": {"srcs": ["harness/h_opts.cc"], "wrap_ssl": False, "cflags": ["-DFAKE"], "exclude": "single_token_access_token_manager"},
    "h_conc": {"srcs": ["harness/h_conc.cc", "harness/conn.cc"], "wrap_mu": True},
    "h_misc": {"srcs": ["harness/h_misc.cc", "harness/conn.cc"]},
    "h_work": {"srcs": ["harness/h_work.cc", "harness/conn.cc"], "wrap_ssl": False, "wraps": ["memcpy", "memmove", "memset", "memcmp"]},
    "h_taint": {"srcs": ["harness/h_taint.cc", "harness/conn.cc"], "wrap_ssl": False,
                "wraps": ["_ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE", "EVP_EncryptInit_ex", "EVP_DecryptInit_ex", "EVP_EncryptUpdate",
                          "EVP_DecryptUpdate", "EVP_EncryptFinal_ex", "EVP_DecryptFinal_ex", "EVP_CIPHER_CTX_ctrl", "HMAC_Final"],
                "wraps_bssl": ["EVP_AEAD_CTX_new", "EVP_AEAD_CTX_seal", "EVP_AEAD_CTX_open"]},
    "h_life": {"srcs": ["harness/h_life.cc", "harness/conn.cc"], "wrap_ssl": False,
               "wraps": ["_ZN3s2a17s2a_ticket_sender16SendTicketsToS2AERNS0_19TicketSenderOptionsE"]},
    "h_hsmsg": {"srcs": ["harness/h_hsmsg.cc"], "wrap_ssl": False},
}
SSL = "the installed OpenSSL 3.0.13 and Android BoringSSL libraries implement the primitives they claim (they are run, not instrumented)"
RT = ("held on the executions generated (counts in the evidence), judged by an oracle independent of the code; says nothing about "
      "inputs not generated")
CHECKS = {}


def claim(pid, technique, jobs, level="exploration", note=RT, assumptions=()):
    CHECKS[pid] = dict(technique=technique, jobs=jobs, level=level, note=note, assumptions=list(assumptions))


def asan(harness, lib="ossl", **kw):
    return [dict(name=lib + "-asan", harness=harness, lib=lib, san="asan", **kw),
            dict(name="release", harness=harness, lib=lib, san="rel", **kw)]


claim("C01", "ASan/UBSan + guard pages, differential monitor against an independent AEAD", both("h_crypto") + guided("h_crypto"), assumptions=[SSL])
claim("C02", "ASan/UBSan, tamper workload with reject-and-wipe monitor", both("h_crypto") + guided("h_crypto"), assumptions=[SSL])
claim("C03", "ASan/UBSan, guard pages and canaries under malformed-argument workload", both("h_crypto") + guided("h_crypto"), assumptions=[SSL])
claim("C04", "history monitor against an independent AEAD, faults interleaved, ASan/UBSan", both("h_crypto") + guided("h_crypto"), assumptions=[SSL])
claim("C05", "fault injection at every SSL library call, fail-closed monitor, ASan/UBSan", both("h_crypto") + both("h_record", "record-"), level="fault_enumeration",
      note="every SSL call of every generated operation shape was made to fail, once and persistently; shapes are sampled", assumptions=[SSL])
claim("C06", "differential monitor against an independent HKDF, ASan/UBSan", both("h_crypto") + guided("h_crypto"), assumptions=[SSL])
claim("C07", "differential monitor against an independent RFC 8446 record layer, ASan/UBSan", both("h_record") + guided("h_record"), assumptions=[SSL])
claim("C08", "nonce monitor at the SSL boundary + sequence-exhaustion and long-history monitors", both("h_record") + guided("h_record"), assumptions=[SSL])
claim("C09", "history monitor against an independent RFC 8446 peer, ASan/UBSan", both("h_record") + guided("h_record"), assumptions=[SSL])
claim("C10", "adversarial-delivery monitor (authentic, in order, at most once), ASan/UBSan", both("h_record") + guided("h_record"), assumptions=[SSL])
claim("C11", "content-interpretation monitor over generated inner plaintexts, ASan/UBSan", both("h_record") + guided("h_record"), assumptions=[SSL])
claim("C14", "model-based trace monitor of ticket-sender calls, ASan/UBSan", both("h_record") + guided("h_record"), assumptions=[SSL])
claim("C12", "model-based trace monitor over all/random fragmentations, ASan/UBSan", asan("h_hsmsg") + guided("h_hsmsg"))
claim("C13", "model-based history monitor of ticket collection, heap-growth monitor, ASan/UBSan", asan("h_hsmsg") + guided("h_hsmsg"))
claim("C16", "round-trip monitor against an independent TLS 1.3 peer and a second instance, guard pages, ASan/UBSan", both("h_frame") + guided("h_frame"), assumptions=[SSL])
claim("C17", "allocator-log monitor under injected SSL and allocation faults, guard pages, ASan/UBSan", both("h_frame") + guided("h_frame"), level="fault_enumeration", assumptions=[SSL],
      note="every SSL call and every allocation of each generated operation was made to fail; operation shapes are sampled")
claim("C18", "accept/refuse monitor over cut, extended and altered record streams, guard pages, ASan/UBSan", both("h_frame") + guided("h_frame"), assumptions=[SSL])
claim("C28", "error-queue state monitor with injected library errors, ASan/UBSan", both("h_crypto"), assumptions=[SSL])
UPB = ("the vendored protobuf runtime (upb) is not installed here: the generated *.upb.c tables and the library run on a small stand-in "
       "(shim/), validated by the repository's own handshaker tests and by an independent wire reader")
claim("C15", "differential monitor with an independent protobuf reader, ASan/UBSan", asan("h_proxy") + guided("h_proxy"), assumptions=[UPB])
claim("C20", "differential monitor with an independent protobuf reader, ASan/UBSan", asan("h_proxy") + guided("h_proxy"), assumptions=[UPB])
claim("C21", "history monitor of bytes in and out of the proxy, ASan/UBSan", asan("h_proxy") + guided("h_proxy"), assumptions=[UPB])
claim("C22", "hostile-response workload with verdict monitor, ASan/UBSan", asan("h_proxy") + guided("h_proxy"), assumptions=[UPB])
claim("C23", "interoperation monitor against an independent TLS 1.3 peer, ASan/UBSan", asan("h_proxy") + guided("h_proxy"), assumptions=[UPB, SSL])
claim("C24", "token provenance monitor over request histories, ASan/UBSan", asan("h_proxy") + guided("h_proxy"), assumptions=[UPB])
claim("C25", "round-trip monitor with an independent protobuf reader, ASan/UBSan", asan("h_proxy") + guided("h_proxy"), assumptions=[UPB])
claim("C34", "model-based trace monitor of the interposed ticket sender over whole sessions, ASan/UBSan", asan("h_proxy") + guided("h_proxy"), assumptions=[UPB, SSL])
claim("C30", "conversion monitor over whole value ranges, UBSan/ASan", asan("h_proxy"), assumptions=[UPB])
claim("C26", "value-model history monitor over all live objects, ASan/UBSan", asan("h_opts") + guided("h_opts"))
claim("C27", "history monitor over environment changes, concurrent requests under ThreadSanitizer and ASan/UBSan",
      asan("h_opts") + [dict(name="tsan", harness="h_opts", lib="ossl", san="tsan", args=["--part=threads"]),
                        dict(name="fake-asan", harness="h_fake", lib="ossl", san="asan")])


def conc():
    return both("h_conc") + [dict(name=lib + "-tsan", harness="h_conc", lib=lib, san="tsan") for lib in ("ossl", "bssl")]


claim("C19", "ThreadSanitizer with announced locks and library calls, injected delays, stream monitors; ASan/UBSan", conc(), assumptions=[SSL, UPB])
claim("C29", "ThreadSanitizer with announced locks and library calls, injected delays, results vs. independent implementations; ASan/UBSan", conc(), assumptions=[SSL, UPB])
claim("C31", "scan of all log, status and console output for secrets under failing and succeeding workloads, ASan/UBSan", both("h_misc"), assumptions=[SSL, UPB])
claim("C32", "accept/refuse monitor over creation parameters, created objects exercised against an independent peer, ASan/UBSan", both("h_misc"), assumptions=[SSL, UPB])
claim("C33", "live-heap monitor (sanitizer allocator statistics) over long histories, ASan/LSan/UBSan", both("h_misc"), assumptions=[SSL, UPB])
claim("C35", "work monitor: every branch, byte copied and byte allocated of a call counted by instrumentation",
      [dict(name=lib + "-work", harness="h_work", lib=lib, san="work") for lib in ("ossl", "bssl")], assumptions=[SSL, UPB])


def memcheck():
    """Workloads of the other properties, smaller, under Valgrind; the slowest first."""
    work = [("h_frame", "C16", 100), ("h_crypto", "C03", 60), ("h_frame", "C18", 60), ("h_crypto", "C02", 60), ("h_crypto", "C06", 60), ("h_hsmsg", "C12", 40),
            ("h_proxy", "C22", 40), ("h_frame", "C17", 40), ("h_record", "C05", 40), ("h_hsmsg", "C13", 40), ("h_record", "C10", 30), ("h_record", "C11", 40),
            ("h_record", "C14", 30), ("h_record", "C08", 40), ("h_opts", "C26", 40), ("h_crypto", "C01", 20), ("h_record", "C07", 30), ("h_misc", "C31", 40),
            ("h_misc", "C33", 40), ("h_record", "C09", 20), ("h_misc", "C32", 40), ("h_proxy", "C30", 60), ("h_proxy", "C34", 15), ("h_proxy", "C23", 10),
            ("h_crypto", "C28", 40), ("h_proxy", "C21", 20), ("h_proxy", "C24", 20), ("h_proxy", "C25", 20), ("h_opts", "C27", 40), ("h_proxy", "C20", 10),
            ("h_proxy", "C15", 10), ("h_crypto", "C04", 5), ("h_crypto", "C05", 10)]
    bssl = [("h_crypto", "C03", 100), ("h_crypto", "C02", 100), ("h_record", "C10", 40), ("h_frame", "C17", 60), ("h_crypto", "C01", 20), ("h_crypto", "C04", 5), ("h_crypto", "C05", 10)]
    return [dict(name="%s-%s-%s" % (lib, h[2:], p), harness=h, lib=lib, san="mem", **{"as": p}, args=["--scale=%d" % n], timeout=500)
            for lib, l in (("ossl", work), ("bssl", bssl)) for h, p, n in l]


claim("C36", "Valgrind memcheck (uninitialised values, accesses by the SSL library too) under the other properties' workloads, with faults injected", memcheck(), assumptions=[SSL, UPB])
claim("C37", "dynamic taint tracking (Valgrind memcheck with key material and contents marked undefined; declassified at the SSL library)",
      [dict(name=lib + "-taint", harness="h_taint", lib=lib, san="taint", timeout=500, keys=["secret-in-text", "forgery-left"]) for lib in ("ossl", "bssl")], assumptions=[SSL, UPB])

claim("C38", "lifetime monitor: lent arguments overwritten and freed after each call, results kept past their makers, callbacks and ownership counted; ASan/LSan/UBSan",
      [dict(name=lib + "-asan", harness="h_life", lib=lib, san="asan") for lib in ("ossl", "bssl")] + guided("h_life"), assumptions=[SSL, UPB])

# How often each workload is repeated, with other seeds.
ROUNDS = {p: {"quick": q} for p, q in dict(C01=2, C02=4, C03=2, C04=12, C05=8, C06=3, C07=12, C08=2, C09=6, C10=6, C11=6, C14=6, C15=6, C16=6, C17=12, C18=6,
                                           C20=8, C21=10, C22=3, C23=6, C24=6, C25=8, C28=8, C30=3, C31=2, C32=6, C33=1, C34=4, C37=6, C38=3).items()}
