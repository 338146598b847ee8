#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the readable source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": ["src/" + f for f in files],
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "A message reaches its receiver byte for byte",
  "A message created by any sender for any receiver, with any content bytes (empty, incompressible, large), any supported encoding/encryption/compression combination and any compression level, and carried through its JSON wire form, is read by the receiver as exactly the original bytes.",
  ["inputs", "configurations"], "All key pairs, contents of every length and distribution, 9 encoding combinations, 3 compression levels, with or without a trip through JSON text.",
  "The tests read back only the 13 bytes 'Hello, World!' at the default level; size- and content-dependent paths of compression, encryption and signing are never reached.",
  ["rest_api/types/message.rs", "rest_api/types/message_encoding.rs", "crypto/compression/mod.rs", "crypto/encryption/mod.rs", "crypto/asymmetric/secret_key.rs"],
  [("Message::create / Message::read", "src/rest_api/types/message.rs"), ("MessageEncoding::forward / backward", "src/rest_api/types/message_encoding.rs")],
  observe=["return value of create, JSON text, return value of read"])

p("C02", "Reading a message never yields bytes its claimed sender did not sign",
  "Reading a message under a claimed sender key either fails with an error or returns exactly bytes which that key signed: altering content, signature or encoding, swapping parts between messages, or claiming another sender never produces different content and never crashes. When the encoding includes encryption, neither the wire form nor any key other than the sender's and the receiver's reveals the content, and any alteration of the encrypted content is rejected.",
  ["inputs"], "All messages and all alterations of them: bit flips, truncation, extension, splicing, re-encoding under another format, wrong sender or receiver keys.",
  "No test reads a message that was altered, forged or addressed to someone else.",
  ["rest_api/types/message.rs", "rest_api/types/message_encoding.rs", "crypto/asymmetric/public_key.rs", "crypto/encryption/aes256_gcm.rs", "crypto/encryption/chacha20_poly1305.rs"],
  [("signature verification in Message::read", "src/rest_api/types/message.rs"), ("AEAD decryption", "src/crypto/encryption/")],
  observe=["return value of read on forged inputs", "wire JSON of encrypted messages"])

p("C03", "Wire artefacts follow standard version 1 exactly",
  "Everything the library emits or stores in protocol form (shared secrets, encrypted and compressed messages, signatures, connection tokens and certificates, encapsulated signatures, request and response headers and bodies) has the layout fixed by standard version 1, so that an independent implementation accepts it and reads the same values out of it. Conversely, artefacts made by an independent implementation of that standard are accepted by the library with the same meaning, and headers of any other standard version are refused.",
  ["inputs", "configurations"], "All values of every protocol artefact, in both directions between the library and an independent implementation.",
  "Tests are self round trips: both directions changing together (a nonce, a field name, byte order, an alphabet, a status code) passes all of them while breaking every deployed peer.",
  ["rest_api/types/connection_token.rs", "rest_api/types/message_encoding.rs", "rest_api/request.rs", "rest_api/response.rs", "rest_api/status.rs", "crypto/asymmetric/mod.rs", "crypto/encryption/aes256_gcm.rs", "crypto/encryption/chacha20_poly1305.rs", "crypto/encoding/base64.rs", "crypto/compression/mod.rs", "rest_api/requests/mod.rs"],
  [("HKDF_INFO, NONCE constants", "src/crypto/"), ("to_json / from_json of every protocol type", "src/rest_api/"), ("ConnectionToken::to_bytes", "src/rest_api/types/connection_token.rs")],
  observe=["bytes and JSON emitted", "values parsed from reference-made bytes and JSON"])

p("C04", "Signatures, capsules, keys and shared secrets behave as such",
  "A signature verifies under a public key exactly when the matching secret key signed exactly that message: a different message, key or altered signature is never accepted. Encapsulated signatures return the signed message or nothing, both parties derive the same shared secret for every salt while another pair, or another salt (trailing zero bytes aside, as HKDF defines), derives a different one, and keys survive their byte and base64 forms unchanged.",
  ["inputs"], "All secret keys, messages of every length, alterations of signatures and capsules, salts (none, empty, any length).",
  "Tests use one fixed message and never a wrong key, an altered signature, or a salt.",
  ["crypto/asymmetric/public_key.rs", "crypto/asymmetric/secret_key.rs", "crypto/asymmetric/mod.rs"],
  [("create_signature / verify_signature", "src/crypto/asymmetric/"), ("create_shared_secret", "src/crypto/asymmetric/secret_key.rs"), ("decode_encapsulated_signature", "src/crypto/asymmetric/public_key.rs")],
  observe=["return values"])

p("C05", "Compression, encryption and text encoding are exact inverses",
  "For every input, decompressing what was compressed (each algorithm, each level), decrypting what was encrypted under the same key, and decoding what was encoded gives back exactly the input; encoded text uses only the URL-safe alphabet. Decryption under a different key or of an altered, truncated or extended ciphertext fails with an error, and every algorithm and format name parses back to the value that printed it while unknown names are refused.",
  ["inputs", "configurations"], "All byte strings up to megabytes (empty, constant, random, structured, block-boundary sizes), all algorithms, levels and keys, all mutations of ciphertexts.",
  "Tests transform only 'Hello, World!' and the fixed names.",
  ["crypto/compression/mod.rs", "crypto/compression/deflate.rs", "crypto/compression/brotli.rs", "crypto/encryption/mod.rs", "crypto/encryption/aes256_gcm.rs", "crypto/encryption/chacha20_poly1305.rs", "crypto/encoding/mod.rs", "crypto/encoding/base64.rs", "rest_api/types/message_encoding.rs"],
  [("Compression, Encryption, Encoding", "src/crypto/"), ("MessageEncoding::from_str / Display", "src/rest_api/types/message_encoding.rs")],
  observe=["return values"])

p("C06", "Every protocol value survives serialisation unchanged",
  "Serialising any protocol value (each request, response, record, message, certificate, key and the primitive types the wire format supports) to its JSON form and parsing the text back gives an equal value, and so does the serde form when that feature is enabled; a value the format cannot represent is refused when serialising instead of being altered. Distinct values never share a serialised form.",
  ["inputs"], "All values of all wire types, including extreme integers, empty and huge collections, optional fields present or absent, and arbitrary Unicode strings.",
  "Tests round-trip one benign value per type (never extremes, Unicode, every status, or the serde form).",
  ["rest_api/mod.rs", "rest_api/request.rs", "rest_api/response.rs", "rest_api/status.rs", "rest_api/types/mod.rs", "rest_api/requests/mod.rs", "crypto/asymmetric/secret_key.rs", "crypto/asymmetric/public_key.rs"],
  [("AsJson implementations", "src/rest_api/"), ("serde implementations", "src/crypto/asymmetric/secret_key.rs")],
  observe=["JSON text", "parsed values"])

p("C07", "Hostile input is refused with an error, never a crash",
  "Whatever bytes, text or JSON reach a public parser, decoder or validator, or arrive as the body of an HTTP request to a server, the library returns a value or an error: it never panics, overflows or aborts. A server answers every well-formed HTTP request, whatever its body, and keeps serving other clients correctly afterwards.",
  ["inputs"], "All byte strings, strings and JSON documents, in particular truncated, oversized, mistyped and mutated versions of valid ones; at every parser and at every HTTP endpoint.",
  "Tests feed parsers only well-formed input; a missing length check (for example on a short token) is invisible to them.",
  ["rest_api/types/connection_token.rs", "crypto/asymmetric/public_key.rs", "rest_api/request.rs", "rest_api/response.rs", "rest_api/types/message.rs", "http/server.rs", "rest_api/middleware/server.rs", "address.rs", "crypto/encoding/base64.rs"],
  [("from_json / from_bytes / from_str / decode / validate functions", "src/"), ("error replies of the HTTP server", "src/http/server.rs")],
  observe=["panic hook", "HTTP replies", "liveness probe after each hostile request"])

p("C08", "A server acts only on requests proven by the claimed key",
  "A server endpoint that takes a signed request answers with success, and changes or reveals routing or inbox state, only if the request's proof is a valid signature by the claimed public key over its proof seed and the seed has its top bit set; otherwise it answers with an error and leaves all server state untouched. A correctly proven and certified request is accepted, and a successful answer carries the server's own valid proof for that request's seed.",
  ["inputs", "histories"], "All requests to each of the six signed endpoints, with every kind of proof forgery (altered, swapped, transplanted from another request or key, low seeds, malformed), in any server state.",
  "Header validation is tested on one unit value; no test sends a forged request to any endpoint or looks at the server state afterwards.",
  ["rest_api/middleware/server.rs", "rest_api/request.rs", "rest_api/response.rs", "rest_api/requests/connect/mod.rs", "rest_api/requests/disconnect/mod.rs", "rest_api/requests/announce/mod.rs", "rest_api/requests/lookup/mod.rs", "rest_api/requests/send/mod.rs", "rest_api/requests/poll/mod.rs"],
  [("Request::validate and the endpoint handlers", "src/rest_api/middleware/server.rs")],
  state=[("routing table and inbox files", "server state that must not change", "storage folders")],
  observe=["HTTP replies", "snapshot of the server's storage before and after"])

p("C09", "Registering a client needs its certificate for exactly that server",
  "A connection request is accepted only with a connection certificate signed by the requesting client for the receiving server, and an announcement of a client is accepted only with a certificate signed by the announced client for the announced server; a certificate for another server, by another key, or altered in its date or signature never registers anything. Validating a certificate answers true exactly for the signing client and the addressed server.",
  ["inputs", "histories"], "All combinations of requester, certificate signer, certified server, receiving server and announced server, and all alterations of certificates.",
  "Certificate validation is only exercised in one doc example with a correct certificate.",
  ["rest_api/types/connection_certificate.rs", "rest_api/types/connection_token.rs", "rest_api/requests/connect/mod.rs", "rest_api/requests/announce/mod.rs", "rest_api/middleware/server.rs"],
  [("ConnectionCertificate::validate", "src/rest_api/types/connection_certificate.rs"), ("ConnectRequest::validate, AnnounceRequest::validate", "src/rest_api/requests/")],
  observe=["HTTP replies", "client lists and lookups afterwards"])

p("C10", "A client trusts only responses proven for its own request",
  "A client operation (other than the two list queries, whose answers carry no proof) reports success only if the server's response carries a valid signature over the proof seed of that very request, by the key the response names; and where the client knows which server it talks to (connecting to an expected key, disconnecting from or polling the connected server) that key must be the expected one. Replayed, transplanted, altered or impersonated responses and error statuses always surface as an error (for a lookup: as a server to be skipped), never as a result.",
  ["inputs", "histories"], "All client operations against servers that answer with replayed, re-signed, altered, truncated, impersonated or error responses.",
  "No test runs the client middleware at all.",
  ["rest_api/middleware/client.rs", "rest_api/response.rs", "rest_api/requests/info/response.rs"],
  [("Response::validate, InfoResponse::validate", "src/rest_api/"), ("client operations", "src/rest_api/middleware/client.rs")],
  observe=["result of each client operation against a scripted server"])

p("C11", "Lookups and lists reflect exactly the registrations made",
  "After any history of connects, announcements, disconnects and server restarts, looking up a client by key (and optional type) returns that client's current registration - local, or remote with its server - if one of the requested type exists, and otherwise the list of known servers as hint, regardless of who asks. The client list is exactly the locally connected clients, the server list exactly the announced servers, each with its latest accepted data; a disconnect removes precisely the requester's records.",
  ["histories"], "All interleaved histories of connect, announce, disconnect, lookup, list and restart by any number of clients of every type against one server.",
  "Tests index and look up directly in the routing table, with one record kind at a time; the lookup endpoint and disconnect are never run.",
  ["rest_api/middleware/server.rs", "drivers/server/router/mod.rs", "drivers/server/router/global_table.rs", "rest_api/requests/lookup/response.rs"],
  [("endpoint handlers", "src/rest_api/middleware/server.rs"), ("Router and GlobalTableRouter", "src/drivers/server/router/")],
  state=[("local / remote / servers tables", "registrations by public key", "storage folder of the routing table")],
  observe=["HTTP replies compared with a reference model"])

p("C12", "Among several registrations of a client the newest certificate wins",
  "When a server receives several registrations of one client, in whatever order and through whatever mix of connects, announcements and replays, the registration with the newest connection certificate is the one kept and returned: an older certificate never replaces or hides a newer one, whether in the same table or between a local and a remote record.",
  ["histories", "schedules"], "All orders and interleavings of connects and announcements of one client with different certificate dates and servers, including replayed old requests and concurrent delivery.",
  "No test registers a client twice.",
  ["drivers/server/router/global_table.rs", "rest_api/middleware/server.rs", "rest_api/types/connection_token.rs", "rest_api/requests/connect/mod.rs"],
  [("certificate date comparison when indexing", "src/drivers/server/router/global_table.rs"), ("choice between local and remote record", "src/rest_api/middleware/server.rs")],
  observe=["lookup and list replies"])

p("C13", "Routing table reads are undisturbed by concurrent changes",
  "While any number of tasks register, re-register and disconnect clients and servers concurrently, every list and lookup succeeds, returns every record that is not itself being changed, and returns only complete records that were current at some moment during the read: never a torn, partial, stale or mixed one. A registration or removal that was acknowledged is visible to every later read.",
  ["schedules"], "All interleavings of concurrent registrations, removals, lists and lookups on one routing table.",
  "The only routing table test is sequential.",
  ["drivers/server/router/global_table.rs", "drivers/server/router/mod.rs"],
  [("record writing, removal and listing", "src/drivers/server/router/global_table.rs")],
  state=[("record files", "one per key and table", "storage folder")],
  observe=["call and return events of every routing table operation"])

p("C14", "The routing table survives crashes and I/O errors",
  "If the process dies at any point, or any file system operation fails, then after reopening the routing table on the same folder every list and lookup works and every acknowledged registration and removal is in effect; an operation interrupted by the crash or reported as failed is, for each record it concerns, either fully in effect or not at all, and never damages other records.",
  ["crash_points", "fault_sequences"], "Every point between file system operations (and inside writes) of every operation, and an error at any of them, for scripts of registrations and removals.",
  "Tests never crash, reopen the table or inject a fault.",
  ["drivers/server/router/global_table.rs"],
  [("record writing", "src/drivers/server/router/global_table.rs")],
  observe=["state read after reopening, compared with the acknowledged operations"])

p("C15", "The inbox is an exact first-in first-out queue per receiver and channel",
  "For any sequence of sends and polls, a poll returns the oldest undelivered messages of that receiver and channel in sending order, at most the limit (all when absent), each once and unaltered with its sender, channel and time of receipt, and removes exactly those; the remaining count it reports is the number still queued. Other receivers and channels are unaffected, and reopening the inbox changes nothing.",
  ["histories"], "All sequences of sends, polls with every limit, and restarts, over many receivers and channels and queues of any length.",
  "One test sends five messages to one channel and polls with limits 1, 2 and none.",
  ["drivers/server/messages_inbox/stored_queue.rs", "rest_api/middleware/server.rs"],
  [("index file and message files", "src/drivers/server/messages_inbox/stored_queue.rs")],
  state=[("index file", "queue order of message ids", "per receiver and channel folder")],
  observe=["poll results compared with a reference queue"])

p("C16", "Concurrent sends and polls lose, duplicate and reorder nothing",
  "However sends and polls to the same or different receivers and channels overlap, each acknowledged message is returned by exactly one poll, and every history of one queue is linearizable: it equals some sequential order of the operations consistent with their real-time order, including the remaining counts and empty polls.",
  ["schedules"], "All interleavings of concurrent sends and polls on one inbox, from any number of tasks and threads, directly and through a server.",
  "The only inbox test is sequential.",
  ["drivers/server/messages_inbox/stored_queue.rs", "rest_api/middleware/server.rs"],
  [("serialisation of index updates", "src/drivers/server/messages_inbox/stored_queue.rs")],
  observe=["call and return events of sends and polls"])

p("C17", "Acknowledged messages survive crashes and I/O errors",
  "If the process dies at any point, or any file system operation fails, then after reopening the inbox every acknowledged message not yet taken by a poll is still delivered, once and in order; a poll that was interrupted or failed may lose only messages it was itself returning, a failed poll that changed nothing loses none, and no message is ever delivered by two completed polls.",
  ["crash_points", "fault_sequences"], "Every point between file system operations (and inside writes) of sends and polls, and an error at any of them.",
  "Tests never crash, reopen the inbox or inject a fault.",
  ["drivers/server/messages_inbox/stored_queue.rs"],
  [("order of message file, index and removal", "src/drivers/server/messages_inbox/stored_queue.rs")],
  observe=["messages delivered after reopening, compared with the acknowledged operations"])

p("C18", "Inboxes are isolated whatever the channel name",
  "Whatever string a sender or poller gives as channel name, sends and polls affect only the queue of exactly that receiver and exactly that name: distinct names or receivers never share messages, no name gives access to another client's messages, and a poll returns only messages addressed to the polling key. No operation creates, reads, changes or removes any file outside the inbox's own folder, and an unusable name is refused with an error.",
  ["inputs", "histories"], "All channel names (path separators, parent references, absolute paths, reserved names, aliases, control and Unicode characters, long names) in all histories over several receivers.",
  "Tests use the channel names 'default channel' and 'random channel'.",
  ["drivers/server/messages_inbox/stored_queue.rs", "rest_api/middleware/server.rs"],
  [("mapping of receiver and channel to a folder", "src/drivers/server/messages_inbox/stored_queue.rs")],
  observe=["poll results per queue", "full snapshot of the surrounding scratch directory"])

p("C19", "A client lookup follows hints to the client and always ends",
  "Looking up a client starts at the connected server and follows hinted servers until one returns the client, asking no server twice, so it ends on every finite network however hints repeat or loop. It finds the client whenever a server reachable through valid hints knows it, even if other servers on the way are unreachable, malformed, answer with errors or cannot prove their identity; otherwise it reports that the client was not found.",
  ["inputs", "fault_sequences"], "All finite hint graphs (cycles, duplicates, self references, fan-out) and all assignments of faults to the hinted servers.",
  "No test runs a client lookup.",
  ["rest_api/middleware/client.rs"],
  [("hint queue and used servers set", "src/rest_api/middleware/client.rs")],
  observe=["requests made, result returned"])

p("C20", "Network traversal ends and finds every reachable server",
  "Updating the network map from the known servers ends on every finite network, however the servers' lists repeat, loop or name each other, and asks no server more than once. Afterwards every server reachable through the lists of responding servers is in the routing table with its address, whether or not it responded itself, and nothing else was added.",
  ["inputs", "fault_sequences"], "All finite server graphs (cycles, self references, duplicates) with any subset of servers unreachable or answering garbage.",
  "No test runs a traversal; a two-server cycle makes a naive one run forever.",
  ["drivers/server/traversal/bfs_recursion.rs", "drivers/server/router/mod.rs", "rest_api/middleware/client.rs"],
  [("BfsRecursionTraversal::traverse", "src/drivers/server/traversal/bfs_recursion.rs")],
  observe=["requests made (bounded count)", "routing table afterwards"])

p("C21", "Port forwards are opened, closed and discarded exactly",
  "Opening a port for a protocol (or both) asks the gateway for exactly that mapping with the requested duration; closing it removes exactly what was opened, for one or both protocols; and discarding removes every mapping made and not yet closed, attempting all of them even when some fail. An operation reports success only if the gateway confirmed it, and a mapping whose removal failed stays known and can be removed later.",
  ["histories", "fault_sequences"], "All histories of open, close and discard over ports and protocols, with gateway failures at any call.",
  "The port forwarder has no tests at all.",
  ["port_forward/upnp.rs", "port_forward/mod.rs"],
  [("UpnpPortForwarder", "src/port_forward/upnp.rs")],
  state=[("forwarded table", "mappings made and not yet closed", "src/port_forward/upnp.rs")],
  observe=["calls reaching a stand-in gateway, results returned"])

p("C22", "Addresses parse to what they say and resolve to the right server",
  "Every documented address form parses to the client key and type, or HTTP(S) address, it names; an invalid key is refused, and any other text is kept whole as a raw address. Resolving an address gives the HTTP URL of the server where that client (of that type) is registered, or the given HTTP address unchanged, or a not-found error.",
  ["inputs"], "All strings: each scheme and prefix with valid and invalid keys, schemes in other cases, nested '://', arbitrary Unicode; resolution against any registration state.",
  "One test parses well-formed examples; resolution is not tested.",
  ["address.rs"],
  [("Address::from_str", "src/address.rs"), ("Address::resolve", "src/address.rs")],
  observe=["parsed value, resolved string"])

p("C23", "Secret keys never leave the process",
  "No secret key, nor any shared secret derived from it, appears in any encoding in what the library sends over the network, stores on disk, returns in errors, or emits as logs and traces at any level, whatever operations are performed.",
  ["histories", "configurations"], "All client and server operations, successful and failing, with tracing enabled at every level.",
  "Tests do not look at network traffic, files or traces.",
  ["rest_api/middleware/client.rs", "rest_api/middleware/server.rs", "drivers/server/messages_inbox/stored_queue.rs", "drivers/server/router/global_table.rs", "http/client.rs", "crypto/asymmetric/secret_key.rs"],
  [("tracing instrumentation", "src/rest_api/middleware/"), ("request construction", "src/rest_api/")],
  observe=["all HTTP bodies, all files written, all tracing spans and events, error texts"])

p("C24", "Proof seeds and keys are fresh and full-range",
  "Every generated request and server info uses a new unpredictable proof seed with its top bit set and the other 63 bits uniformly random, and every generated key is new: no seed or key repeats across requests, threads or processes.",
  ["histories", "schedules"], "All sequences of generation, in any number of threads and processes.",
  "A doc test checks the range of a single value.",
  ["crypto/utils.rs", "rest_api/request.rs", "rest_api/requests/info/response.rs", "crypto/asymmetric/secret_key.rs"],
  [("safe_random_u64_long", "src/crypto/utils.rs"), ("SecretKey::random", "src/crypto/asymmetric/secret_key.rs")],
  observe=["generated seeds and keys"])

p("C25", "Clients on different servers exchange messages exactly once over HTTP",
  "Over real HTTP, when clients connect to servers, announce themselves and send each other messages addressed by key, URI or server address while others poll, disconnect and reconnect concurrently, every acknowledged message is polled exactly once, by its addressee only, on the addressed server and channel, in order per sender, readable and attributed to its true sender.",
  ["histories", "schedules"], "All conversations among clients of several servers, with concurrent traffic and lookups across servers.",
  "No test starts a server or a client.",
  ["rest_api/middleware/server.rs", "rest_api/middleware/client.rs", "http/client.rs", "http/server.rs", "address.rs", "drivers/server/server.rs"],
  [("client and server middleware", "src/rest_api/middleware/"), ("HTTP client and server", "src/http/")],
  observe=["results of every client operation"])

p("C26", "The HTTP layer delivers each JSON value intact to the right handler",
  "A JSON value posted through the HTTP client reaches, once and unchanged, the handler registered for exactly that method and path, together with the caller's address, and the handler's response value reaches exactly that caller unchanged, however many requests run concurrently. Requests for unknown paths, wrong methods or with invalid bodies never run a handler, and they, aborted connections and failing handlers do not affect other requests.",
  ["inputs", "schedules", "fault_sequences"], "All JSON values (as serde_json reads them back from its own text; nested up to its limit; up to the server's 2 MB of body) and route tables, concurrent requests, aborted and malformed requests.",
  "The HTTP code is only compiled by the tests, never run.",
  ["http/client.rs", "http/server.rs"],
  [("AxumHttpServer", "src/http/server.rs"), ("ReqwestHttpClient", "src/http/client.rs"), ("get_request / post_request", "src/http/client.rs")],
  observe=["handler invocations and replies"])

p("C27", "No undefined behaviour and no data races",
  "No sequence of calls to the library's safe interface, on any input and from any number of threads, causes undefined behaviour: no invalid memory access, no data race, no uninitialised read, no violated unchecked assumption.",
  ["inputs", "schedules"], "All inputs to the cryptographic and parsing code and all interleavings of routing table and inbox operations.",
  "Tests run without sanitizers, single-threaded per object, and the one unsafe block is reached with one input.",
  ["crypto/asymmetric/secret_key.rs", "crypto/asymmetric/public_key.rs", "rest_api/types/connection_token.rs", "drivers/server/messages_inbox/stored_queue.rs", "drivers/server/router/global_table.rs", "port_forward/upnp.rs"],
  [("unchecked unwrap in key derivation", "src/crypto/asymmetric/secret_key.rs"), ("shared state", "src/drivers/server/")],
  observe=["Miri, AddressSanitizer and ThreadSanitizer reports"])

p("C28", "A connected client acts as itself, towards the right server",
  "After connecting, a client's record, certificate and connected server are exactly those of the accepted connection, and each of its operations sends one request of the right kind to the right server's endpoint, in the client's own name and with the given receiver, channel, message, filter and limit. Results handed back are exactly those in the server's response, and a failed operation has no such effect.",
  ["inputs", "histories"], "All client operations with all arguments, addresses and server answers.",
  "No test runs the client middleware.",
  ["rest_api/middleware/client.rs", "drivers/client/mod.rs", "drivers/server/server.rs", "address.rs"],
  [("client operations", "src/rest_api/middleware/client.rs")],
  observe=["requests recorded at a scripted HTTP transport, results returned"])

p("C29", "The server keeps nothing it no longer needs",
  "While storage works and the server is not interrupted, no file in the server's storage contains anymore: the content, signature or sender record of a message that a poll delivered, the data of a registration or announcement that a newer one of its kind replaced or outranked or that a disconnect removed, or anything of a refused request; and requests that only read leave the storage as it was. A server that has delivered everything to the same parties, registered again and again, holds no more files, bytes, open files or running tasks than after the first round.",
  ["histories", "schedules"], "All histories of requests, and all interleavings of concurrent ones, including requests whose caller went away.",
  "Tests never look at what is left on the disk, and run each operation a handful of times.",
  ["drivers/server/messages_inbox/stored_queue.rs", "drivers/server/router/global_table.rs", "rest_api/middleware/server.rs"],
  [("poll_messages", "src/drivers/server/messages_inbox/stored_queue.rs"), ("store_record, disconnect", "src/drivers/server/router/global_table.rs")],
  state=[("storage folders", "what survives a request", "storage_folder of the inbox and the routing table")],
  observe=["files of the storage folders", "open files and tasks of the process"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
