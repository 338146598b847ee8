"""What each property's check is: level, technique, counting rule, assumptions.

`PROPERTIES[id]` drives run.py (evidence) and gen_manifest.py (MANIFEST.json).
"""

BASE = [
    "the primitive crates (k256, aes-gcm, chacha20poly1305, flate2, brotli, serde_json, tokio) are trusted as linked",
    "sampled inputs: absence of a violation outside what was executed is not shown",
]


def prop(technique, rule, note, level="exploration", assumptions=(), ready=False, **extra):
    return dict(technique=technique, rule=rule, level_note=note, level=level,
                assumptions=list(BASE) + list(assumptions), ready=ready, **extra)


PROPERTIES = {
    "C01": prop(
        "runtime monitoring: byte-exact round-trip monitor over generated contents, encodings, levels and wire carriers",
        "seeded random and boundary-size contents x 9 encodings x 3 levels x 4 wire carriers; non-trivial: distinct (encoding, level, content, carrier)",
        "Every executed message is read back and compared byte for byte; complete over encodings x levels x 26 boundary sizes, sampled over contents and keys.",
        ready=True),
    "C02": prop(
        "runtime monitoring: authenticity oracle over systematically tampered, spliced and forged messages",
        "genuine messages altered by bit flips, truncation, extension, splicing, re-encoding and wrong keys; non-trivial: distinct altered message that differs from the genuine one",
        "The oracle knows every byte string each key signed; any read that returns other bytes, a decryption under a wrong key, or plaintext visible on the wire is reported.",
        ready=True),
    "C03": prop(
        "runtime monitoring: differential monitor against an independent implementation of standard v1",
        "generated values of every wire artefact in both directions; non-trivial: distinct artefact compared",
        "Emitted artefacts are parsed by, and artefacts fed in are produced by, an independent implementation (harness/src/refimpl.rs) that shares only primitive crates.",
        assumptions=["the reference implementation embodies the standard as documented in the repository at the pinned commit"],
        ready=True),
    "C04": prop(
        "runtime monitoring: signature, capsule, key and shared-secret oracles over generated and mutated inputs",
        "generated keys, messages and salts with mutations of signatures and capsules; non-trivial: distinct input on which an oracle decided",
        "Acceptance is compared with what was really signed (and with an independent ECDSA/HKDF implementation) on every executed case.",
        ready=True),
    "C05": prop(
        "runtime monitoring: inverse-law monitors for codecs and ciphers, with mutated ciphertexts",
        "generated and boundary contents x algorithms x levels x keys, mutated ciphertexts, generated names; non-trivial: distinct input",
        "Each execution is checked for exact inversion or refusal; sampled over contents.",
        ready=True),
    "C06": prop(
        "runtime monitoring: serialisation round-trip and injectivity monitor over generated values of every wire type",
        "generated values of every wire type through to_json/text/from_json and serde; non-trivial: distinct serialised text",
        "Every generated value is compared after the round trip; a shared table detects two values with one text.",
        ready=True),
    "C07": prop(
        "runtime monitoring: panic/overflow monitor and liveness probes under generated hostile input",
        "structure-aware mutations of valid inputs plus random bytes at every parser, validator and HTTP endpoint; non-trivial: distinct hostile input",
        "Built with overflow checks and a panic hook; after each batch of hostile requests a probe checks the server still answers correctly.",
        ready=True),
    "C08": prop(
        "runtime monitoring: acceptance oracle and state-snapshot monitor at every signed endpoint",
        "genuine requests and forgeries of their proof at each endpoint in generated server states; non-trivial: distinct (endpoint, forgery class, request)",
        "An independent oracle decides whether the request is proven; the reply must agree and rejected requests must leave the storage snapshot identical.",
        ready=True),
    "C09": prop(
        "runtime monitoring: certificate oracle over all combinations of parties, with server-state monitor",
        "combinations of requester, signer, certified, receiving and announced server plus alterations; non-trivial: distinct combination",
        "An independent oracle decides which certificate is valid; replies, lists and the storage must agree.",
        ready=True),
    "C10": prop(
        "runtime monitoring: man-in-the-middle workload with a response-authenticity oracle on every client operation",
        "client operations against replayed, transplanted, altered, impersonated and error responses; non-trivial: distinct (operation, tampering, response)",
        "A transport stand-in alters real responses; any operation that reports success although the oracle says the response is not proven is reported.",
        ready=True),
    "C11": prop(
        "runtime monitoring: online reference model of the registrations, compared after every step of generated histories",
        "seeded histories of connect/announce/disconnect/lookup/list/restart; non-trivial: distinct (model state, query) compared",
        "Lists and lookups are compared with an abstract model after every operation; sampled over histories.",
        ready=True),
    "C12": prop(
        "runtime monitoring: newest-certificate oracle over orders, mixes and concurrent delivery of registrations",
        "permutations and concurrent deliveries of registrations with different dates; non-trivial: distinct delivery order",
        "After every delivery the returned registration must carry the newest accepted certificate; all orders of small sets are enumerated.",
        ready=True),
    "C13": prop(
        "runtime monitoring: offline per-key register checker over recorded concurrent histories, with injected file-system delays",
        "seeded concurrent workloads on one routing table with delay injection at system calls; non-trivial: distinct history of overlapping events",
        "Recorded call/return events are checked against per-record register semantics; interleavings are sampled, diversified by injected delays.",
        builds=["hv", "shim"],
        ready=True),
    "C14": prop(
        "runtime monitoring: crash and I/O-fault enumeration at the system-call boundary, recovery checked against acknowledged operations",
        "scripts x every file-system call of each run (crash before/after/inside, each error); non-trivial: distinct (script, call index, fault) that fired",
        "Every file-system call of each script is enumerated as a crash point and as a fault point; the reopened state is compared with the acknowledged history. Process crashes, not power loss.",
        level="fault_enumeration", builds=["hv", "shim"],
        assumptions=["process death keeps what the kernel accepted (no power-loss model)", "file-system calls go through libc, where the shim intercepts them"],
        ready=True),
    "C15": prop(
        "runtime monitoring: online reference queue compared on every step of generated histories",
        "seeded histories of sends, polls and reopenings over several receivers and channels; non-trivial: distinct (queue length, limit, position) history",
        "Each poll result and remaining count is compared with a reference FIFO; sampled over histories.",
        ready=True),
    "C16": prop(
        "runtime monitoring: linearizability checker over recorded concurrent histories, with injected file-system delays",
        "seeded concurrent sends and polls, small histories checked for linearizability and large ones for conservation and order; non-trivial: distinct overlapping history",
        "A Wing-Gong checker decides every small history exactly; large ones are checked for exactly-once, order and counts. Interleavings are sampled.",
        builds=["hv", "shim"],
        ready=True),
    "C17": prop(
        "runtime monitoring: crash and I/O-fault enumeration at the system-call boundary, delivery checked against acknowledged operations",
        "scripts x every file-system call of each run (crash before/after/inside, each error); non-trivial: distinct (script, call index, fault) that fired",
        "Every file-system call of each script is enumerated as a crash point and as a fault point; what is delivered after reopening is compared with the acknowledged history. Process crashes, not power loss.",
        level="fault_enumeration", builds=["hv", "shim"],
        assumptions=["process death keeps what the kernel accepted (no power-loss model)", "file-system calls go through libc, where the shim intercepts them"],
        ready=True),
    "C18": prop(
        "runtime monitoring: isolation oracle per queue plus file-system snapshot monitor under hostile channel names",
        "hostile and confusable channel names in histories over several receivers; non-trivial: distinct (name set, operation) case",
        "Every poll is compared with a reference queue per exact (receiver, name), and the surrounding directory tree is compared byte for byte.",
        ready=True),
    "C19": prop(
        "runtime monitoring: request-trace monitor over generated hint graphs with faulty servers",
        "generated hint graphs with fault assignments; non-trivial: distinct (graph, faults, target)",
        "The recorded requests and the result are compared with graph reachability computed by the oracle.",
        ready=True),
    "C20": prop(
        "runtime monitoring: request-trace and table monitor over generated server graphs with faulty servers",
        "generated server graphs with fault assignments; non-trivial: distinct (graph, faults)",
        "The recorded requests and the resulting table are compared with graph reachability computed by the oracle; a request bound decides termination.",
        ready=True),
    "C21": prop(
        "runtime monitoring: simulated gateway with reference table, failures injected at every call",
        "histories of open/close/discard with gateway failures; non-trivial: distinct (history, failures)",
        "The real forwarder runs over a stand-in of the easy-upnp crate; gateway state and results are compared with a reference after every operation.",
        assumptions=["the stand-in has the laziness and error behaviour of easy-upnp 0.2"],
        ready=True),
    "C22": prop(
        "runtime monitoring: reference parser and resolution oracle over generated address strings",
        "generated address strings and registration states; non-trivial: distinct string",
        "Every parse is compared with an independent parser of the documented table, every resolution with the model's registration.",
        ready=True),
    "C23": prop(
        "runtime monitoring: taint scan of network bodies, files, errors and trace output for secret keys in all encodings",
        "full client/server sessions with tracing at every level; non-trivial: distinct artefact scanned",
        "Every observable byte of each session is searched for every secret and shared secret in nine encodings.",
        ready=True),
    "C24": prop(
        "runtime monitoring: statistical and uniqueness monitors over generated seeds and keys, across threads and processes",
        "seeds and keys generated sequentially, concurrently and in several processes; non-trivial: distinct seed or key",
        "Bits, uniqueness and pairwise structure are tested at significance levels that a correct generator fails with probability below 1e-9.",
        builds=["hv", "frozen"],
        assumptions=["unpredictability is judged statistically"],
        ready=True),
    "C25": prop(
        "runtime monitoring: exactly-once and order checker over recorded end-to-end traffic on real HTTP",
        "concurrent client sessions over several real servers; non-trivial: distinct delivered message",
        "All acknowledged sends and all polled messages are reconciled by an offline checker; interleavings are sampled.",
        ready=True),
    "C26": prop(
        "runtime monitoring: request/handler/reply reconciliation over real HTTP with hostile clients",
        "generated JSON values, route tables, concurrent requests and aborted connections; non-trivial: distinct JSON value carried",
        "Every handler invocation and reply is matched with the request that caused it.",
        ready=True),
    "C27": prop(
        "sanitizers: Miri, AddressSanitizer and ThreadSanitizer over the library's own workloads",
        "workload cases executed under Miri, ASan and TSan; non-trivial: distinct case executed under a sanitizer",
        "Undefined behaviour and data races on executed paths are reported by the sanitizers.",
        special="sanitizers", builds=["asan", "tsan", "miri", "shim", "frozen"], ready=True),
    "C28": prop(
        "runtime monitoring: recording HTTP transport with an oracle over every client operation",
        "generated client operations, arguments and server answers; non-trivial: distinct operation and arguments",
        "Each operation's requests, effects and results are compared with what its arguments prescribe.",
        ready=True),
    "C29": prop(
        "runtime monitoring: marker scan of the storage after every step of generated histories, growth and handle monitors",
        "seeded histories and concurrent workloads whose every message and record carries unique strings; non-trivial: distinct step after which something had to be gone",
        "After every step the whole storage is searched for every string that had to go; growth, open files and tasks are compared between the first and the last round.",
        assumptions=["data kept in another form than the clear one is only seen by the growth monitor"],
        ready=True),
}
