#!/usr/bin/env python3
"""Source of properties.jsonl: run `python3 tools/props.py` to regenerate it."""
import json, os
S = "src/wickrcrypto/src/"
H = "src/wickrcrypto/include/wickrcrypto/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": [S + f if "/" not in f else f for f in files],
                          "mechanism": [{"name": n, "where": (S + w if "/" not in w else w)} for n, w in mech],
                          "state": state or [],
                          "observe_at": observe or [], "hook_needed": hook}})

prop("C01", "Every addressed recipient decodes exactly the message that was sent",
 "For any payload, any set of recipient devices with valid signature chains and every supported packet version (2, 3 and 4), an encoded packet serializes, parses with a valid signature status under the sender's identity, and decodes for each addressed device with its matching message key to exactly the sent body, content type, channel tag and ephemerality settings. Every recipient recovers the same packet key the encoder reports, and a packet's key-exchange list names exactly the addressed devices and the message-key ids they published.",
 ["inputs", "configurations"], "all payloads (body size and bytes, ttl/bor over 64 bits, content type over 16 bits, channel tags), all recipient lists (count, repeated devices, the sender itself, key ids over 64 bits), all packet versions, fresh/copied/exported-and-imported contexts",
 "The Java ContextTests send one fixed short message between two users with version defaults; the C tests are not built. No test varies the payload, the number of recipients, the version or the key id.",
 ["wickr_ctx.c", "protocol.c", "key_exchange.c", "payload.c", "packet_meta.c", "node.c"],
 [("encode: payload, key exchanges, header, signature", "wickr_ctx.c:wickr_ctx_encode_packet, protocol.c:wickr_packet_create_from_components"),
  ("parse and decode", "protocol.c:wickr_parse_result_from_packet, wickr_decode_result_from_parse_result"),
  ("versioned key-exchange KDF info", "protocol.c:wickr_key_exchange_create_with_data")],
 ["wickr_ctx_parse_packet", "wickr_ctx_decode_packet"])

prop("C02", "Only the addressed device holding the right message key can decode",
 "A packet never decodes for a device it was not addressed to, nor with a message private key other than the one the sender used for that device, nor for a device whose device id or identity differs from the addressed one, nor when the claimed sender is not the true one (as far as each version binds the key exchange: every version binds the receiver's device id, versions 3 and 4 also the root keys of sender and receiver). Each such attempt reports an error and yields neither a payload nor a packet key; a device not among the recipients is told it was not found. The exchange functions underneath behave the same and bind an optional pre-shared key as well: wrapped data is recovered with exactly the parameters it was wrapped with, and never with a different or absent pre-shared key, device id, message key, exchange key, version or (versions 3 and 4) sender or receiver root key.",
 ["inputs", "configurations", "histories"], "all packets and all (device, key, identity, claimed sender) combinations that differ from the addressed one in one or more components, including old keys after rotation",
 "Existing tests try at most one wrong key on one packet; they do not vary which component is wrong, the version, or key rotation.",
 ["protocol.c", "wickr_ctx.c", "key_exchange.c", "ecdh_cipher_ctx.c"],
 [("recipient lookup", "key_exchange.c:wickr_key_exchange_set_find"), ("KDF salt/info binding of device, identities and key id", "protocol.c:wickr_key_exchange_derive_data"),
  ("authenticated unwrap", "protocol.c:wickr_decode_result_from_parse_result")],
 ["wickr_ctx_parse_packet", "wickr_ctx_decode_packet"])

prop("C03", "A modified or misattributed packet never yields different content",
 "If any byte of a serialized packet is altered, truncated, extended or spliced from another packet, or the packet is checked against an identity that did not sign it, then processing either reports failure or yields exactly the original payload; whenever the content differs from what the sender signed, the signature status is not valid and no key exchange or payload is released. A packet parsed as valid was signed by the claimed sender's node key over that exact content. The payload and the recipient list opened directly from their ciphertexts are likewise refused when altered, under another key, or when the ciphertext is not authenticated.",
 ["inputs", "fault_sequences"], "all single- and multi-byte mutations, truncations, extensions and splices of valid packets of all versions, and all choices of claimed sender",
 "Tests flip nothing or one fixed location; the guarantee is over every byte position and every splice.",
 ["protocol.c", "wickr_ctx.c", "openssl_suite.c", "ecdsa.c"],
 [("signature check before parse", "protocol.c:wickr_parse_result_from_packet"), ("packet framing", "protocol.c:wickr_packet_create_from_buffer"),
  ("AEAD with associated data", "openssl_suite.c:openssl_aes256_decrypt")],
 ["wickr_ctx_parse_packet", "wickr_ctx_decode_packet"])

prop("C04", "Encoding refuses recipients whose keys are not properly signed",
 "Encoding a packet succeeds only if, for every recipient in the list, the node identity is signed by its root and the current message key is signed by that node; otherwise no packet is produced, whichever position the bad recipient has and whatever was verified earlier. After a recipient's message key is rotated, packets are wrapped to the new key (and carry its id), never to the old one.",
 ["histories", "inputs"], "all recipient lists mixing valid and invalid nodes, all kinds of chain corruption, and all histories of verification, key rotation, chain replacement and repair before the encode",
 "The cached verification status makes the answer depend on the history of earlier verifications, which one-shot tests never exercise.",
 ["protocol.c", "node.c", "node_priv.c", "identity.c", "identity_priv.c", "ephemeral_keypair.c"],
 [("chain check per recipient", "protocol.c:wickr_key_exchange_set / wickr_packet_create_from_components"), ("verification with cached status", "node.c:wickr_node_verify_signature_chain"),
  ("cache key", "node_priv.c:wickr_node_make_status_cache, identity_priv.c:wickr_identity_chain_make_status_cache")],
 ["wickr_ctx_encode_packet"], [{"name": "status / _status_cache", "meaning": "memo of the last verification", "where": S + "node_priv.c"}])

prop("C05", "Identity and node verification is correct after any history of changes",
 "At any point in any history of creating, copying, serializing, mutating, replacing parts of, rotating keys of and re-verifying identity chains and nodes, verification answers true exactly when the node's public signing key is really signed by the root's key and (for nodes) the message public key is really signed by the node's key. The recorded status agrees with the answer just given, and a copy or a deserialized object verifies the same as its source.",
 ["histories"], "all operation sequences over a population of roots, nodes and message keys, including in-place changes after a cached verification",
 "Tests verify each object once; staleness of the memoised status only shows in multi-step histories.",
 ["identity.c", "identity_priv.c", "node.c", "node_priv.c", "ephemeral_keypair.c"],
 [("chain validation and status memo", "identity.c:wickr_identity_chain_validate"), ("node validation and status memo", "node.c:wickr_node_verify_signature_chain"),
  ("message key ownership", "ephemeral_keypair.c:wickr_ephemeral_keypair_verify_owner")],
 ["wickr_identity_chain_validate", "wickr_node_verify_signature_chain"], [{"name": "_status_cache", "meaning": "digest of the inputs of the last verification", "where": S + "identity_priv.c"}])

prop("C06", "Symmetric encryption round-trips and detects every alteration",
 "For every supported cipher, key, plaintext and optional associated data, decrypting an encryption (directly or after serializing it) returns the plaintext and the ciphertext matches an independent implementation of the algorithm. For the authenticated cipher, any change to ciphertext, tag, IV, key, cipher id or associated data makes decryption fail with no output; a decryption restricted to authenticated ciphers always refuses unauthenticated ciphertext.",
 ["inputs"], "all plaintext lengths and contents, keys, caller-chosen or generated IVs, AAD present/absent, all mutations of the serialized result",
 "Tests use a handful of fixed plaintexts and one tampered tag.",
 ["openssl_suite.c", "cipher.c", "cipher_priv.c"],
 [("AES-256-GCM/CTR", "openssl_suite.c:openssl_aes256_encrypt, openssl_aes256_decrypt"), ("result framing", "cipher.c:wickr_cipher_result_serialize, wickr_cipher_result_from_buffer")],
 ["wickr_crypto_engine_t.wickr_crypto_engine_cipher_encrypt / cipher_decrypt"])

prop("C07", "Signatures verify exactly for the signed data, digest and key",
 "A signature made with a private key over any data verifies under the matching public key (original, exported and re-imported, or converted to and from the raw fixed-size form) and is accepted by an independent ECDSA verifier. It never verifies for different data, a different key, a different digest or after any change of its integer values (other than the negation of s that ECDSA itself permits); malformed or out-of-range signatures and keys are rejected without a crash.",
 ["inputs"], "all data lengths and contents, digests, keys, signature mutations, including raw forms whose r or s is short, zero or out of range",
 "Tests sign one random buffer; short-r/s encodings occur with probability below 1/256 per signature and are never forced.",
 ["openssl_suite.c", "ecdsa.c", "ecdsa_priv.c", "eckey.c"],
 [("sign/verify", "openssl_suite.c:openssl_ec_sign, openssl_ec_verify"), ("raw conversion", "openssl_suite.c:openssl_ecdsa_to_raw, openssl_ecdsa_from_raw"), ("fixed-size framing", "ecdsa.c:wickr_ecdsa_result_serialize, wickr_ecdsa_result_create_from_buffer")],
 ["ec_sign / ec_verify"])

prop("C08", "Key agreement is symmetric, correct, and bound to its parameters",
 "Both parties of an elliptic-curve agreement compute the same secret, equal to an independent ECDH computation followed by the selected key-derivation; data enciphered to a public key is recovered by the holder of the private key with the same derivation parameters and by nobody using a different key, salt, info, digest or cipher. Keys survive export and import unchanged, and importing bytes that are not a point on the curve or a matching private key fails.",
 ["inputs"], "all key pairs, salts, infos, digests, ciphers, plaintexts; all mutations of exported key bytes",
 "Tests use one key pair and fixed salt/info.",
 ["openssl_suite.c", "ecdh_cipher_ctx.c", "eckey.c", "kdf.c"],
 [("ECDH", "openssl_suite.c:openssl_gen_shared_secret"), ("ECDH cipher context", "ecdh_cipher_ctx.c:wickr_ecdh_cipher_ctx_cipher, wickr_ecdh_cipher_ctx_decipher"), ("key import checks", "openssl_suite.c:openssl_ec_import_key")],
 ["wickr_ecdh_cipher_ctx_cipher", "gen_shared_secret", "ec_key_import"])

prop("C09", "Digests, HMAC and HKDF equal their standards for every input",
 "SHA-256/384/512 (with optional salt, and over files), HMAC creation and verification, and HKDF (extract-and-expand per digest, and SHA-512 expand-only with a requested length) return exactly the values an independent implementation gives, for every input. HMAC verification accepts only the exact tag for that data, key and digest.",
 ["inputs"], "all input lengths and contents (including block-boundary sizes), salts, keys, infos, output lengths, mutated tags",
 "Tests check a few published vectors only.",
 ["openssl_suite.c", "openssl_file_suite.c", "kdf.c", "digest.c"],
 [("digest / HMAC", "openssl_suite.c:openssl_sha2, openssl_hmac_create, openssl_hmac_verify"), ("HKDF", "openssl_suite.c:openssl_hkdf"), ("file digest", "openssl_suite.c:openssl_sha2_file")],
 ["digest", "hmac_create", "hmac_verify", "wickr_perform_kdf_meta"])

prop("C10", "Passphrase-protected data opens only with its own passphrase",
 "Data, storage keys, recovery keys and contexts exported under a passphrase are recovered exactly with that passphrase, and with any other passphrase (compared as far as the algorithm distinguishes passphrases: bcrypt reads up to 72 bytes and stops at a NUL, and HMAC-based derivation does not distinguish trailing zero bytes of a short passphrase) or any alteration of the exported bytes the import fails without output. A key derivation repeated with the parameters recorded in its result gives the same output, equal to an independent implementation of that algorithm, and different salts or passphrases give different output.",
 ["inputs"], "all passphrases (empty-adjacent, binary, with NULs, long, near-equal pairs), all algorithms the KDF metadata can name, all mutations of exported blobs",
 "Tests use one passphrase and one wrong one; scrypt/bcrypt tests are not compiled in the built test suite at all.",
 ["kdf.c", "crypto_engine.c", "wickr_ctx.c"],
 [("KDF dispatch and parameters", "kdf.c:wickr_perform_kdf, wickr_perform_kdf_meta"), ("metadata framing", "kdf.c:wickr_kdf_meta_serialize, wickr_kdf_meta_create_with_buffer, wickr_kdf_meta_size_with_buffer"),
  ("KDF+cipher export", "crypto_engine.c:wickr_crypto_engine_kdf_cipher, wickr_crypto_engine_kdf_decipher")],
 ["wickr_ctx_export / import", "wickr_ctx_export_storage_keys"])

prop("C11", "A context survives export, recovery and re-provisioning intact",
 "A context restored from its serialized or exported form on the same device has the same identities, signing keys and storage keys, so everything it or its peers encrypted before still decrypts and its signatures verify under the same identity. Re-provisioning from a recovery (with the recovery key or its passphrase-protected export) yields a valid node under the same root identity and the same remote storage key, with the local storage key bound to the new device; a wrong key, corrupted recovery or an unusable identifier yields nothing.",
 ["histories", "inputs"], "all chains of generate / serialize / export / recover / copy steps over contexts, devices, identifiers and signing keys, with wrong keys and corrupted blobs interleaved",
 "Tests perform each export/import step once with fixed inputs.",
 ["wickr_ctx.c", "root_keys.c", "storage.c", "storage_priv.c", "identity_priv.c"],
 [("context serialization", "wickr_ctx.c:wickr_ctx_serialize, wickr_ctx_create_from_buffer"), ("recovery", "wickr_ctx.c:wickr_ctx_gen_with_recovery, wickr_ctx_gen_import_recovery"), ("localization", "root_keys.c:wickr_root_keys_localize")],
 ["wickr_ctx_import", "wickr_ctx_gen_with_recovery", "wickr_ctx_decipher_local/remote"])

prop("C12", "Every serializable object round-trips without loss",
 "For every object the library can serialize (cipher results and keys, signatures, EC keys, metadata of the passphrase KDFs, identities, chains, message key pairs, nodes, payloads, key-exchange sets, packets, root keys, storage keys, stream keys, transport packets and contexts), the serialized form is the documented one, parsing it yields an object equal in every field the format carries, and re-serializing gives the same bytes. A form that lacks one of its fields is refused or gives an object that lacks exactly that field (content type and privacy flag, which have defaults, aside). A new object holds exactly the values it was created from. A value the format cannot represent is refused at construction or serialization rather than silently altered.",
 ["inputs"], "all field values of all objects, including absent optional fields, extreme integers and large buffers",
 "Tests serialize one typical instance of some of the types.",
 ["cipher.c", "ecdsa.c", "eckey.c", "kdf.c", "identity_priv.c", "ephemeral_keypair_priv.c", "node_priv.c", "payload.c", "key_exchange.c", "protocol.c", "root_keys.c", "storage.c", "stream_key_priv.c", "transport_packet.c", "transport_root_key_priv.c"],
 [("fixed binary framing", "cipher.c, ecdsa.c, kdf.c, protocol.c, transport_packet.c"), ("protobuf mapping", "src/wickrcrypto/src/*_priv.c, payload.c, key_exchange.c")],
 ["*_serialize", "*_create_from_buffer"])

prop("C13", "Private keys never leave through public forms",
 "The public serialization of an identity, identity chain, node, key-exchange set or message key pair, an encoded message packet, and every byte a transport emits contain none of the owner's private key bytes or storage keys, and a key made public or parsed from a public form cannot sign or decrypt. Private material appears only in the forms documented to carry it (private chain serialization, root and storage key serialization, context serialization).",
 ["inputs", "configurations"], "all objects with private material reachable through the API, in every public serialization, alone and nested",
 "Tests only check that a round trip works, not what else the bytes contain.",
 ["identity_priv.c", "identity.c", "ephemeral_keypair.c", "ephemeral_keypair_priv.c", "node_priv.c", "key_exchange.c", "transport_handshake.c"],
 [("public-only protobuf mapping", "identity_priv.c:wickr_identity_to_proto"), ("make_public", "ephemeral_keypair.c:wickr_ephemeral_keypair_make_public")],
 ["*_serialize output bytes", "transport tx callback"])

prop("C14", "Any bytes are parsed into a valid object or cleanly rejected",
 "Every function that parses externally supplied bytes or text accepts any byte string of any length without crashing, reading or writing out of bounds, hanging or other undefined behaviour. It either rejects the input or returns a well-formed object that can be used, copied, serialized and destroyed safely; a rejected input leaves nothing half-built or allocated behind.",
 ["inputs"], "all byte strings for each parser, in particular near-valid ones derived from genuine serialized objects",
 "Unit tests feed almost only well-formed input.",
 ["cipher.c", "ecdsa.c", "kdf.c", "protocol.c", "key_exchange.c", "payload.c", "identity_priv.c", "node_priv.c", "ephemeral_keypair_priv.c", "root_keys.c", "storage_priv.c", "stream_key_priv.c", "transport_packet.c", "transport_root_key_priv.c", "wickr_ctx.c", "b32.c", "util.c", "openssl_suite.c"],
 [("length and id checks before copying", "each *_create_from_buffer"), ("protobuf unpack + field validation", "src/wickrcrypto/src/*_priv.c")],
 ["all *_create_from_buffer functions", "base32/base64/hex decoders"])

prop("C15", "A stream pair delivers in sequence and rejects replays and forgeries",
 "For a stream encoder and decoder started from the same key, every packet decodes to its plaintext when presented with its sequence number and associated data in increasing order, with any gaps and any evolution interval, and the key states of both sides agree, with any user data of the key intact. Encoding or decoding at a sequence number not greater than the last successful one is refused, a failed encoding or decoding changes neither position nor key, and a packet with altered bytes, associated data or sequence number across keys, or from another stream, is never accepted.",
 ["histories"], "all histories of encode/decode with gaps, drops, replays, reorderings, tampering, copies of the context and evolution intervals",
 "Tests run one straight-line exchange; interactions of gaps, evolution boundaries and failures need generated histories.",
 ["stream_ctx.c", "stream_key.c", "stream_iv.c", "stream_key_priv.c"],
 [("sequence check and evolution count", "stream_ctx.c:wickr_stream_ctx_encode, wickr_stream_ctx_decode"), ("key evolution", "stream_ctx.c / stream_key.c")],
 ["wickr_stream_ctx_encode", "wickr_stream_ctx_decode"], [{"name": "last_seq, key", "meaning": "position in the stream and current key", "where": H + "stream_ctx.h"}])

prop("C16", "Stream keys evolve one-way on schedule and IVs never repeat",
 "A stream's cipher key changes exactly when the sequence number crosses a multiple of its evolution interval, by the documented keyed one-way step, so the state after an evolution cannot decrypt earlier packets and equals an independent computation. The IVs a stream uses under one key are pairwise distinct for any number of packets, streams created separately never share IVs, and creation is refused outside the documented interval range.",
 ["histories", "inputs"], "all evolution intervals, starting sequence numbers, gap patterns and packet counts",
 "Tests look at one evolution with one interval.",
 ["stream_ctx.c", "stream_iv.c", "stream_key.c"],
 [("HMAC evolution", "stream_ctx.c"), ("IV derivation by counter", "stream_iv.c:wickr_stream_iv_generate"), ("interval bounds", "stream_key.c:wickr_stream_key_create")],
 ["wickr_stream_ctx_t.key", "cipher result iv"])

prop("C17", "A transport delivers only what the peer sent, once, in order",
 "Whatever a network does to the bytes between two transports (drop, duplicate, reorder, corrupt, truncate, inject, reflect, splice from other sessions), the data an endpoint delivers is a subsequence, in order and without repetition, of the exact buffers its authenticated peer sent in that session. With a faithful network (which holds bytes back while the receiver's user has not yet answered the identity question) both sides become active and every non-empty buffer sent in either direction is delivered exactly once, for any sizes, evolution intervals and interleavings, also when the data is sent from the callback that reports the transport active; and either side interoperates with any peer that follows the documented handshake and packet format.",
 ["histories", "fault_sequences", "schedules"], "all interleavings of sends and deliveries in both directions with any adversarial network actions, both pinned and callback-verified identities",
 "The C transport tests are not built; even they run one clean handshake and a few packets.",
 ["transport_ctx.c", "transport_handshake.c", "transport_handshake_priv.c", "transport_packet.c", "transport_root_key.c", "stream_ctx.c"],
 [("data path", "transport_ctx.c:wickr_transport_ctx_process_rx_buffer, wickr_transport_ctx_process_tx_buffer"), ("handshake", "transport_handshake.c"), ("direction-separated stream keys", "transport_root_key.c:wickr_transport_root_key_to_stream_key")],
 ["rx / tx / on_state callbacks"])

prop("C18", "A transport becomes active only with the authenticated, approved peer",
 "A transport never becomes active, never derives stream keys and never delivers data unless the remote proved possession of the node signing key of an identity chain that is validly signed, and that is either the pinned remote identity or was explicitly approved for this connection. When the approval is negative, the chain is invalid, a handshake packet is altered, or a different identity answers than the pinned one, the endpoint ends in the error state.",
 ["histories", "inputs", "fault_sequences"], "all assignments of real, forged, self-signed, swapped and tampered identities on either side, all pinning modes, all approval answers and timings, and all alterations of handshake bytes",
 "Tests only exercise the accepting path with honest peers.",
 ["transport_handshake.c", "transport_handshake_priv.c", "transport_ctx.c", "transport_packet.c", "identity.c"],
 [("handshake signature check", "transport_packet.c:wickr_transport_packet_verify"), ("pinning / approval", "transport_handshake.c:wickr_transport_handshake_process, wickr_transport_handshake_verify_identity")],
 ["on_state callback", "on_identity_verify callback"])

prop("C19", "Transport states follow the protocol and errors are final",
 "Under any sequence of calls, a transport's status only moves along none, initial handshake, active, or to error, each change is reported exactly once through the state callback, and the last error is set when and only when it is in error. Once in error it never emits, delivers or changes state again, and calls made in a state that does not allow them lead to the documented error without emitting or delivering data.",
 ["histories"], "all sequences of start, send, receive (valid, stale, garbage), approval and re-entrancy-free queries over one or both endpoints",
 "Tests follow the happy path and a few single misuse calls.",
 ["transport_ctx.c", "transport_handshake.c"],
 [("state update", "transport_ctx.c:wickr_transport_ctx_update_status"), ("state guards", "transport_ctx.c:wickr_transport_ctx_start, process_tx_buffer, process_rx_buffer")],
 ["wickr_transport_ctx_get_status", "wickr_transport_ctx_get_last_error"])

prop("C20", "File encryption round-trips and rejects altered or foreign files",
 "For a file of any size and content, encrypting and then decrypting with the same key reproduces the file exactly (by path, by open file handle, or with the in-memory functions), and the encrypted file matches an independent implementation of its format. With a wrong key, or after any alteration, truncation or extension of the encrypted file, decryption of an authenticated file reports failure and leaves no destination file (an existing destination is left as it was) and no other file behind; with authentication required, unauthenticated files are refused. Encrypting or decrypting by path changes no file but the destination.",
 ["inputs"], "all file sizes (especially around the internal chunk sizes) and contents, ciphers, keys, mutations of encrypted files, existing or absent destinations, files of any name next to them",
 "Tests use one or two small files.",
 ["openssl_file_suite.c", "openssl_suite.c"],
 [("chunked encrypt/decrypt via temporary and rename", "openssl_file_suite.c:openssl_encrypt_file, openssl_decrypt_file"), ("decrypt to buffer", "crypto_engine.c / openssl_file_suite.c")],
 ["destination file contents", "return value"])

prop("C21", "File operations report success only when the result is complete",
 "Whatever read, write, flush, close, open or rename operation fails at any point during file encryption, decryption or digesting, the call reports failure, the destination path still holds its previous content or is absent, and it never holds partial, truncated or unauthenticated output. Success is reported only when the destination holds the complete result.",
 ["fault_sequences", "crash_points"], "all positions and kinds of I/O failure (error, short transfer, failed open, close or rename, unreadable source) over all file sizes and both directions",
 "No test injects any I/O fault.",
 ["openssl_file_suite.c", "openssl_suite.c"],
 [("temporary file then rename", "openssl_file_suite.c:openssl_encrypt_file, openssl_decrypt_file"), ("I/O result checks", "openssl_file_suite.c")],
 ["destination path", "return value"])

prop("C22", "Buffers and arrays behave as exact bounded values",
 "Every buffer operation (create, copy, section copy, section modify, concatenation of two or many, comparison) returns exactly the bytes a simple reference model gives, and refuses any out-of-range, overflowing, empty or missing argument without touching memory outside the buffer. Arrays behave as fixed-size sequences of items of their element kind with exact bounds, and deep and shallow copies behave as documented.",
 ["inputs", "histories"], "all sizes and offsets including zero, limits and values that overflow, all operation sequences",
 "Tests try a few in-range and one out-of-range index.",
 ["buffer.c", "buffer_priv.c", "array.c"],
 [("bounds checks", "buffer.c:wickr_buffer_copy_section, wickr_buffer_modify_section, wickr_buffer_concat_multi"), ("array indexing", "array.c:wickr_array_set_item, wickr_array_fetch_item, wickr_array_copy")],
 ["returned buffers", "array contents"])

prop("C23", "Copies are equal to and independent of their source",
 "For every object type with a copy operation, the copy has the same observable value and behaviour as the source, and neither sees later changes to, use of, or destruction of the other. Destroying source and copy in either order is safe, and destroying clears the caller's pointer.",
 ["histories", "inputs"], "all object types, all field values including absent optional parts, all orders of use, mutation and destruction",
 "Tests copy a few objects and compare some fields.",
 ["array.c", "buffer.c", "cipher.c", "devinfo.c", "ecdsa.c", "ecdh_cipher_ctx.c", "eckey.c", "encoder_result.c", "ephemeral_keypair.c", "fingerprint.c", "identity.c", "kdf.c", "key_exchange.c", "node.c", "packet_meta.c", "payload.c", "protocol.c", "root_keys.c", "storage.c", "stream_ctx.c", "stream_iv.c", "stream_key.c", "transport_ctx.c", "transport_handshake.c", "transport_packet.c", "transport_root_key.c", "wickr_ctx.c"],
 [("deep copies of owned parts", "every *_copy and *_destroy function")],
 ["object fields and behaviour"])

prop("C24", "Text encodings are exact inverses and reject invalid text",
 "Base64, hexadecimal and base32 (Crockford) encodings of any bytes equal an independent implementation's output, are NUL-terminated with the right length, and decode back to the same bytes. Base32 text with a character outside the upper-case Crockford alphabet is rejected, and decoding any other text, however malformed or unterminated, is memory-safe.",
 ["inputs"], "all byte strings and all candidate texts, with and without terminator, any case",
 "Tests check a few vectors.",
 ["util.c", "b32.c"],
 [("base32", "b32.c:base32_encode, base32_decode"), ("base64 / hex", "util.c")],
 ["returned buffers"])

prop("C25", "Fingerprints identify key and identifier exactly and symmetrically",
 "A fingerprint is a deterministic function of the identity's identifier and public key only, equal to the documented SHA-512 computation; the bilateral fingerprint of two parties is the same whichever side computes it. Different identifiers or keys give different fingerprints, the base32 and hex renderings in both lengths are the exact encodings of the documented prefix, and copies and reserialized identities give the same fingerprint.",
 ["inputs"], "all pairs of identities, identifier lengths, both output lengths and encodings",
 "Tests check one pair with mocked values.",
 ["fingerprint.c", "identity.c", "eckey.c"],
 [("hash over fixed-length public key and identifier", "fingerprint.c:wickr_fingerprint_gen"), ("sorted combination", "fingerprint.c:wickr_fingerprint_gen_bilateral"), ("rendering", "fingerprint.c:wickr_fingerprint_get_b32, wickr_fingerprint_get_hex")],
 ["fingerprint data and text"])

prop("C26", "Destroying a key-holding object erases its secrets from memory",
 "When any object that owns secret key bytes is destroyed (cipher keys, private EC keys, identities, chains, message key pairs, nodes, root keys, storage keys, stream keys and contexts, transport root keys, contexts and results holding packet keys), every heap block of the object holding those bytes is overwritten before it is released. This holds however the object was made (generated, copied, parsed or nested) and also when a message key pair is made public.",
 ["inputs", "histories"], "all secret-holding object types, construction paths, nestings and destruction orders",
 "No test inspects released memory.",
 ["memory.c", "buffer.c", "cipher.c", "eckey.c", "root_keys.c", "storage.c", "stream_key.c", "transport_root_key.c", "ephemeral_keypair.c"],
 [("zeroing destroy", "buffer.c:wickr_buffer_destroy_zero, memory.c:wickr_zero"), ("destroy functions of key objects", "cipher.c:wickr_cipher_key_destroy, eckey.c:wickr_ec_key_destroy")],
 ["contents of blocks passed to free"])

prop("C27", "Secrets are fresh random values and generation fails without randomness",
 "Every generated key, IV, salt, identifier, stream seed and packet key takes all its bytes from the secure random source: values never repeat across calls, objects and messages, have full length, and two messages or encryptions never share an IV or packet key. If the random source fails at any point, the operation that needed it fails and emits nothing rather than continuing with predictable material.",
 ["histories", "fault_sequences"], "all sequences of generating operations, and random-source failure at each request of each operation",
 "Tests compare at most two generated values and never fail the random source.",
 ["openssl_suite.c", "kdf.c", "wickr_ctx.c", "protocol.c", "root_keys.c", "identity.c", "devinfo.c", "stream_iv.c", "stream_key.c", "transport_root_key.c", "transport_handshake.c"],
 [("random source wrapper", "openssl_suite.c:openssl_crypto_random"), ("key generation", "openssl_suite.c:openssl_cipher_key_random, openssl_ec_rand_key"), ("IV generation", "openssl_suite.c:openssl_aes256_encrypt")],
 ["generated values", "random requests"])

prop("C28", "Device ids and storage keys derive deterministically and stay device-bound",
 "Device identifiers derived from a device salt and system id equal the documented hash computation and depend on both inputs. Storage keys localized from root keys equal the documented derivation: the remote key is the same on every device, the local key depends on the root key and the device only, so data stored locally on one device does not decrypt on another while remotely stored data does, and local and remote stores never open each other's data.",
 ["inputs"], "all device salts, system ids, root keys and pairs of devices",
 "Tests derive one device and one key set.",
 ["devinfo.c", "root_keys.c", "storage.c", "wickr_ctx.c"],
 [("device derivation", "devinfo.c:wickr_dev_info_derive"), ("localization", "root_keys.c:wickr_root_keys_localize"), ("storage ciphers", "wickr_ctx.c:wickr_ctx_cipher_local, wickr_ctx_decipher_remote")],
 ["wickr_dev_info_t fields", "wickr_ctx_cipher_local/remote"])

prop("C29", "A failing engine or random source is reported and leaves nothing behind",
 "When the random source, or an operation of the pluggable crypto engine that a library operation depends on, fails at any point, that operation reports failure through its documented result (or, where only a cached verdict was being computed, gives the identical result). It does not crash or loop, leaves its arguments unchanged and owned by the caller, releases everything it built on the way, and succeeds when repeated without the fault. Handshakes and transports end in their documented error state and stay usable as objects.",
 ["fault_sequences", "inputs"], "all operations of the public API that use the engine, a failure at each engine call or random request, once or persistently",
 "No test makes an engine call or the random source fail.",
 ["wickr_ctx.c", "protocol.c", "key_exchange.c", "crypto_engine.c", "root_keys.c", "storage.c", "identity.c", "node.c", "stream_ctx.c", "stream_iv.c", "stream_key.c", "ecdh_cipher_ctx.c", "fingerprint.c", "transport_handshake.c", "transport_root_key.c", "transport_ctx.c", "kdf.c", "devinfo.c"],
 [("failure paths of every operation", "wickr_ctx.c, protocol.c, transport_handshake.c, transport_root_key.c, identity.c"), ("pluggable engine", "crypto_engine.c:wickr_crypto_engine_get_default")],
 ["returned result", "arguments", "allocated blocks", "engine calls"])

prop("C30", "Running out of memory is reported and never corrupts, leaks or downgrades",
 "When an allocation fails at any point of an operation, the operation reports failure through its documented result or completes with the result it would have had (copies and serialized forms are never silently incomplete, a fingerprint, key or file is never a different one, a pinned remote identity is never dropped, an identity decision is never skipped). It does not crash or loop, leaves its arguments unchanged and owned by the caller, releases everything it built on the way, leaves no other file behind, and succeeds when repeated with memory available. Handshakes and transports end in their documented error state, stay there, and stay usable as objects.",
 ["fault_sequences", "inputs"], "all operations of the public API and all copies, serializations and parses of all types; a failure at each allocation, once or persistently",
 "No test makes an allocation fail.",
 ["memory.c", "buffer.c", "cipher.c", "kdf.c", "openssl_suite.c", "openssl_file_suite.c", "wickr_ctx.c", "protocol.c", "key_exchange.c", "identity.c", "node.c", "node_priv.c", "stream_ctx.c", "stream_key.c", "stream_key_priv.c", "fingerprint.c", "transport_handshake.c", "transport_handshake_priv.c", "transport_ctx.c", "transport_packet.c", "packet_meta.c", "storage.c", "array.c"],
 [("allocation failure paths of every operation", "memory.c:wickr_alloc, wickr_alloc_zero and every caller"), ("copies", "protocol.c:wickr_parse_result_copy, identity.c:wickr_identity_copy"), ("pinned remote identity", "transport_ctx.c:__wickr_transport_ctx_create_handshake")],
 ["returned result", "arguments", "allocated blocks", "files", "transport state"])

prop("C31", "The Java bindings give the core's results and stay memory safe under any calls",
 "Through the Java classes every operation gives the result the core defines: the same digests, ciphertexts, signatures, agreed and derived keys, files, identities, fingerprints, messages and exports as an independent implementation over the values that were passed, with every number, flag, enumeration and byte array crossing the boundary unchanged, and wrong keys, passphrases, senders and altered data refused by null, false or an error value. Any sequence of calls with non-null arguments, and any garbage collection between them, ends without crash or corruption: arguments are unchanged, an object fetched from another one stays valid and keeps its value as long as it is referenced (deleting its owner or replacing a node's key pair aside), and once no Java object is left all native memory has been released, exactly once.",
 ["inputs", "histories", "schedules"], "all sequences of calls of the Java API, with collections, explicit deletions and dropped references at any point",
 "The Java tests make one fixed call of each kind, never collect garbage while objects are in use, and cannot see native memory.",
 ["src/wickrcrypto/swig/buffer_java.i", "src/wickrcrypto/swig/interface.i", "src/wickrcrypto/swig/engine.i", "src/wickrcrypto/swig/wickr_ctx.i", "src/wickrcrypto/swig/identity.i", "src/wickrcrypto/swig/node.i", "src/wickrcrypto/swig/kdf.i", "src/wickrcrypto/swig/cipher.i", "src/wickrcrypto/swig/storage_keys.i", "src/wickrcrypto/swig/key_exchange.i", "src/wickrcrypto/swig/payload.i", "src/wickrcrypto/swig/packet_meta.i"],
 [("byte array conversion and ownership", "src/wickrcrypto/swig/buffer_java.i"), ("ownership of results", "src/wickrcrypto/swig/*.i:%newobject"), ("lifetime of fetched objects", "src/wickrcrypto/swig/*.i:javaout typemaps"), ("extension functions", "src/wickrcrypto/swig/wickr_ctx.i, engine.i, storage_keys.i")],
 ["Java values", "native heap", "sanitizer reports"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
