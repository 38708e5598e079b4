T = "property-based testing: choice-sequence generators with coverage-guided mutation and shrinking; oracle: "
N = "Search over generated cases, not a proof; every case runs under ASan/UBSan with recorded, replayable choices. "
RULES = {
 "C06": dict(technique=T + "independent AES-CTR/GCM implementation, round trip, tamper rejection",
   rule="each case encrypts a generated key/plaintext/AAD or tampers one component of a genuine result; non-trivial unless the plaintext is empty or the tampering left the value unchanged", note=N + "The reference AES is written in this repository and shares no code with OpenSSL."),
 "C07": dict(technique=T + "independent ECDSA verifier over the curve equation, round trips through raw/serialized/exported forms",
   rule="a case signs generated data and verifies it in every form, or presents a mismatching or malformed signature/key; non-trivial when the mismatch really differs", note=N + "The reference verifier uses OpenSSL big-number and point arithmetic, not its ECDSA."),
 "C08": dict(technique=T + "independent ECDH/HKDF/AES, curve-equation check on imported points",
   rule="a case runs an agreement, imports genuine/mutated/foreign key bytes, or enciphers and deciphers with one parameter changed; non-trivial when the parameter really differs", note=N),
 "C09": dict(technique=T + "independent SHA-2, HMAC and HKDF written in this repository",
   rule="a case evaluates one primitive on generated inputs and compares with the reference; non-trivial when the input is longer than one byte or a real mismatch was presented", note=N),
}
RULES["C10"] = dict(technique=T + "independent PBKDF/HKDF computation, export/import round trip with passphrase and byte tampering",
   rule="a case exports under a generated passphrase and imports with it, another passphrase or altered bytes, or repeats a derivation from its metadata; non-trivial when the alternative passphrase or the altered bytes really differ", note=N + "Most cases use a fast scrypt/bcrypt stand-in behind the same interface (the repository's own are absent submodules); a few use the real cost.")
RULES["C22"] = dict(technique=T + "byte-level reference model of buffers; model-based histories of array operations with live-item accounting and failing copies",
   rule="a case performs one buffer operation with generated (also overflowing) arguments or a history of array operations and compares every result with the model; non-trivial when more than one byte or item is involved or a refusal was required", note=N)
RULES["C24"] = dict(technique=T + "independent encoders and decoders, round trip, exact-size heap inputs",
   rule="a case encodes and decodes generated bytes or decodes generated text with and without terminator; non-trivial when more than one byte or any decoder text is involved", note=N)
RULES["C25"] = dict(technique=T + "independent SHA-512 and text encoders over the documented concatenation, swapped-party metamorphic relation",
   rule="a case computes fingerprints of generated keys/identifiers or combines generated fingerprint data and compares with the reference; every case is non-trivial", note=N)
RULES["C28"] = dict(technique=T + "independent SHA-2/AES-GCM derivation, cross-device and cross-store decryption matrix",
   rule="a case derives device ids or storage keys, or provisions two devices from the same roots and tries every store on every context; every case is non-trivial", note=N)

RULES["C01"] = dict(technique=T + "round trip over generated networks of parties and conversations with key rotation, independent decoder of the documented packet format",
   rule="a case builds contexts, nodes and a payload, encodes to a generated recipient list in version 2-4 and decodes at every recipient (or runs a conversation with rotation, late delivery and context restore, or one packet to a crowd of up to several hundred devices); non-trivial when something was delivered", note=N + "Message and signing keys come mostly from a fixed pool of 24 P-521 pairs (including scalars 1, 2 and order-7) plus fresh ones for packet exchange keys.")
RULES["C02"] = dict(technique=T + "one-dimension-wrong decode attempts (13 kinds: device, key, identity, sender, version, exchange, spliced messages, re-signed forwarding) a full device x key decode matrix, and the same one-thing-wrong attempts on the exchange functions with optional pre-shared key against an independent derivation",
   rule="a case encodes one packet and attempts to decode it with one thing wrong, then with everything right; non-trivial when the wrong thing really differs from the right one", note=N + "Which wrong identities must be refused follows the binding of each packet version, as documented in protocol.c and the white paper.")
RULES["C03"] = dict(technique=T + "structured and byte-level mutation of packets, splicing, re-signing, misattribution; independent ECDSA verification, packets assembled by hand around arbitrary validly signed contents, and the set of contents genuinely signed",
   rule="a case alters, splices, re-signs or misattributes a serialized packet and processes it; non-trivial when the bytes or the claimed sender differ from the genuine ones", note=N + "Malleability that leaves the content unchanged (unused meta bits, signature padding) is accepted by the oracle as long as the decoded payload is the original.")
RULES["C04"] = dict(technique=T + "model-based histories of changes to recipients with an independent verdict on every signature; independent unwrapping of each key exchange",
   rule="a case encodes to recipients some of which had a signature, key or identity changed (before or after verification was cached); non-trivial when at least one recipient was bad or changed after a verification", note=N)
RULES["C05"] = dict(technique=T + "model-based histories of creation, copy, serialization, mutation, replacement, rotation and verification against independent ECDSA verification of the current fields",
   rule="a case runs a history over a population of chains and nodes and compares every verification with the truth; non-trivial when an object was changed after a verification", note=N)
RULES["C12"] = dict(technique=T + "independent writer of every documented wire format, field-by-field comparison after the round trip, byte-exact re-serialization",
   rule="a case generates an object (all fields, absent optionals, extreme values), compares its serialized bytes with the reference writer's and its parse with the original; or parses damaged bytes and round-trips what was accepted; or strips one field from a serialized object and requires refusal or an object that serializes to just that; or builds a value at or beyond a format limit, or compares a new object with the values it was created from; non-trivial when an object was round-tripped, the bytes really changed, or a limit or constructor was tried", note=N)
RULES["C14"] = dict(technique=T + "memory-safety instrumentation, reference verdicts on accepted objects, accounting of live heap blocks",
   rule="a case feeds raw, damaged, truncated, spliced or grammar-generated bytes (also below genuine signatures and encryption) to one parser, then uses, copies, serializes and destroys what was accepted and counts surviving heap blocks; non-trivial when more than one byte was presented", note=N + "Every parser of the public headers is driven; leaks count only if they repeat three times on the same input.")

RULES["C17"] = dict(technique=T + "histories of two monitored endpoints over faithful and adversarial schedulers with in-order-subsequence oracle; an independent implementation of the handshake and data protocol as the peer",
   rule="a case runs two transports (or one transport against the reference peer; some for tens of thousands of packets, some with buffers beyond a megabyte) through a generated schedule of sends, deliveries, approvals and network attacks; non-trivial when data was sent and (for the adversary) at least one attack was applied and data was delivered", note=N + "Data packets whose forged sequence number lies more than 2^16 evolutions ahead are left out (they make the receiver step its key once per skipped evolution, a finding recorded under C14).")
RULES["C18"] = dict(technique=T + "impostor peers built on an independent implementation of the protocol (13 families of forged, swapped, replayed, tampered identities and messages), authenticity recomputed independently for every endpoint that turns active",
   rule="a case runs a transport against an honest, forged or tampering peer with a generated pinning and approval policy; non-trivial when the peer is not the honest, approved one or the approval was deferred", note=N)
RULES["C19"] = dict(technique=T + "random histories of all transport calls on monitored endpoints (also from inside callbacks) against a state-machine model",
   rule="a case applies a generated sequence of start, send, receive (genuine, stale, garbage), answer and query calls and checks every reported state, error and emission against the model; non-trivial when a call was made in a state that does not allow it or an error was reached", note=N)

RULES["C15"] = dict(technique=T + "model-based histories over populations of encoders and decoders with an independent key-evolution and AES-GCM model, injected engine failures, forgeries and copies",
   rule="a case drives encoders and decoders of one stream key (and a foreign stream) through encode, decode, replay, reorder, tamper, renumber, failing-engine, copy and reference operations and compares position and key with the model after every step; non-trivial when packets were delivered and at least one attempt had to be refused", note=N + "One operation skips at most 1200 evolutions.")
RULES["C16"] = dict(technique=T + "independent HMAC-SHA-512 key schedule and IV derivation, pairwise distinctness over whole histories",
   rule="a case runs a stream over generated interval and sequence gaps (some beyond 2^31, 2^32 and 2^33), or an IV generator/stream over generated counts, or tries to create streams at and beyond the limits; non-trivial when an evolution happened, more than five IVs were compared, or a creation was decided", note=N + "Copies of an encoder share its seed and count by construction; distinctness is claimed for streams created separately and for the IVs of one stream.")
RULES["C23"] = dict(technique=T + "value dumps of 35 catalogued object types before and after mutation or destruction of either side, storage disjointness, heap accounting; handshakes and transports continued on copies at any stage, also facing an independent peer",
   rule="a case copies a generated object, compares it with the source and changes, uses or destroys one of them while watching the other; or runs a handshake or a pair of transports in which copies take over; non-trivial when the object has content or at least one copy took over", note=N)
RULES["C26"] = dict(technique=T + "release-time inspection of every heap block through the allocator hook, for objects generated, copied, parsed, evolved, rotated, made public or produced by real operations and handshakes",
   rule="a case makes a secret-holding object (secrets randomised), destroys or replaces it and inspects each released block for secret bytes; non-trivial when the object held at least one secret buffer", note=N + "Covers the object's own blocks and any block found to contain a 16-byte stretch of a secret; registers, stack and OpenSSL-internal contexts are not inspected.")
RULES["C13"] = dict(technique=T + "12-byte-window search for every private scalar, storage key and secret random value in all public serializations, packets (raw and decrypted), encrypted exports and transport traffic (raw and decrypted by an independent peer)",
   rule="a case builds objects with a generated combination of private halves and serializes, encodes, exports or talks, then searches everything that left and tries to sign/decrypt with what was parsed; non-trivial when a private half was present", note=N + "Windows with fewer than 8 distinct bytes are not searched.")
RULES["C27"] = dict(technique=T + "deterministic random source behind OpenSSL's RAND: every request failed in turn (once, or from then on), every generated value traced to unused bytes of the source's output",
   rule="a case runs one of 32 generating operations with the i-th request for randomness failing, or a history of them with the source recorded; non-trivial when a failure was injected or more than one value was traced", note=N + "EC scalars are compared below their top byte; nonces are checked for distinctness only.")

RULES["C20"] = dict(technique=T + "independent AES-GCM/CTR implementation of the file format, round trip by path, handle and memory, structured alteration of encrypted files with an independent accept/refuse verdict",
   rule="a case encrypts and decrypts a generated file (any size, existing or absent destination, in place, by handle), or decrypts altered, truncated, extended, re-labelled or foreign bytes, or works among files with related names, or makes a call that cannot succeed; non-trivial when the file is not empty or the bytes or key really differ", note=N + "CTR files carry no authentication, so only structural damage and authentication-required calls are refused for them; their content is compared with an independent decryption.")
RULES["C21"] = dict(technique=T + "fault injection at every operation below stdio (cookie streams over the real files, wrapped rename/remove/sync), process death at every operation; the outcome is compared with the previous and the complete content",
   rule="a case runs a file operation once to count its I/O operations, then again with a generated one failing (once, persistently, or with all later ones, possibly after half a transfer) or with the process killed before or after it; non-trivial when the fault was reached", note=N + "Loss of power (data not synced) is not simulated; a failing close of the source or a failing removal of the temporary file may be reported either way.")
RULES["C11"] = dict(technique=T + "model-based histories of accounts and devices (provision, restore, re-provision, wrong attempts, stored data, signatures, messages) with every earlier artefact re-read at the end and the documented recovery and key-derivation formats recomputed",
   rule="a case provisions an account and runs a history of writes, restores, recoveries and refused attempts over up to five devices, or tries several wrong recoveries; non-trivial when something written before was read after a restore or recovery, or a wrong attempt was refused", note=N + "The passphrase derivation uses the fast stand-in of the shim.")

RULES["C29"] = dict(technique=T + "fault injection through the pluggable engine and the random source: every call of every operation failed in turn, with result, argument, heap and repeat oracles",
   rule="a case prepares one of some 70 public operations with generated arguments, runs it once to count its engine calls and random requests, then with a generated one failing (once or from then on), then again without; non-trivial when the fault was reached", note=N + "Verification primitives are not failed: for them false is a legitimate verdict.")
RULES["C30"] = dict(technique=T + "fault injection at the library's allocator: every allocation of every operation, copy, serialization and parse failed in turn, with result, argument, heap, file and repeat oracles",
   rule="a case prepares one of some 90 public operations, or a copy, serialization or parse of any type, with generated arguments, runs it once to count its allocations, then with a generated one failing (once or from then on), then again without; non-trivial when the fault was reached", note=N + "Allocations made inside OpenSSL and protobuf-c are not failed. Verdict caches are best effort: an operation that only fails to cache may still succeed.")

RULES["C31"] = dict(technique=T + "the bindings are generated and built with sanitizers into an embedded JVM; random histories of reflective calls, field fetches, drops, deletions and collections with a snapshot invariant over all live objects and a native heap oracle, and value cases against the platform's (JCA) cryptography",
   rule="a case runs a history of calls, fetched parts, dropped references, deletions and collections over generated objects of every class, or a part reached over generated fields that outlives its owner's last mention, or one generated operation whose every result is compared with JCA or the arguments, or parties exchanging messages, storing, exporting and recovering; non-trivial when at least one call returned a value", note=N + "Null arguments and calls on objects after delete() are outside the domain, as are the PHP, Ruby and JavaScript bindings, which cannot be built here. The passphrase derivation uses the fast stand-in of the shim.")
