#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "SHA-256 and HMAC-SHA-256 are correct for every message and key",
 "For every byte string, of any length, the SHA-256 digest equals the one FIPS 180-4 defines. For every key (shorter than, equal to or longer than the 64-byte block) and every message, HMAC-SHA-256 equals the RFC 2104 value.",
 ["inputs"], "all byte strings as messages, all byte strings as keys",
 "Three digests and four MACs are pinned; padding has 64 length classes, the bit-length field has 8 bytes, and a wrong rotation or constant can hide behind short messages.",
 ["src/crypto/sha2.rs", "src/cipher/prf.rs"],
 [("sha256 padding and compression", "src/crypto/sha2.rs sha256"), ("hmac_sha256 key handling", "src/cipher/prf.rs hmac_sha256")],
 ["crypto::sha2::sha256", "cipher::prf::hmac_sha256"])

prop("C02", "The TLS 1.2 PRF yields one well-defined byte stream however it is drawn",
 "For every secret and seed, the bytes drawn from the pseudorandom function are exactly the P_SHA256 stream of RFC 5246 section 5. The stream does not depend on how the caller splits it into requests, including empty requests, requests that end inside a block and requests that span many blocks.",
 ["inputs", "histories"], "all secrets, all seeds, all sequences of request sizes",
 "One 100-byte vector and three splittings of one empty-key stream are tested; the left-over buffer has a state for every offset in a block and every request size.",
 ["src/cipher/prf.rs"],
 [("left-over buffering in get_bytes", "src/cipher/prf.rs Prf::get_bytes"), ("A(i) chaining", "src/cipher/prf.rs Prf::next_block")],
 ["cipher::prf::Prf"], [("buf", "bytes of the current block not handed out yet", "src/cipher/prf.rs Prf")])

prop("C03", "ChaCha20 produces the RFC 8439 keystream for every key, nonce and length",
 "For every 32-byte key and 12-byte nonce, successive 64-byte blocks equal the RFC 8439 block function with counters 0, 1, 2 and so on, and encrypting a buffer of any length XORs it with the next blocks of that stream, byte for byte and without changing its length. Encrypting twice from the same state returns the original buffer.",
 ["inputs", "histories"], "all keys, nonces, buffers and sequences of block draws and encryptions",
 "Five keystreams of at most 256 bytes with near-constant keys are tested; counter carries past a byte, partial final blocks and mixed use of block draws and encryption are not.",
 ["src/crypto/chacha20.rs"],
 [("block function and counter", "src/crypto/chacha20.rs ChaCha20::round20, next"), ("chunked XOR", "src/crypto/chacha20.rs ChaCha20::encrypt")],
 ["crypto::chacha20::ChaCha20"], [("vals[12]", "block counter", "src/crypto/chacha20.rs")])

prop("C04", "Poly1305 tags equal the defining polynomial for every key and message",
 "For every 16-byte multiplier (before clamping), every 16-byte addend and every message of any length, the tag equals ((message polynomial evaluated at the clamped multiplier modulo 2^130-5) + addend) modulo 2^128. This includes partial final blocks, the empty message and accumulators that land on or next to 0, 2^128, 2^130-5 and 2^130.",
 ["inputs"], "all (multiplier, addend, message)",
 "Four vectors are tested; limb carries and the final conditional subtraction go wrong only for accumulators in ranges that random data hits with probability below 2^-100.",
 ["src/crypto/poly1305.rs"],
 [("limb multiplication with lazy carries", "src/crypto/poly1305.rs compute_block"), ("final reduction", "src/crypto/poly1305.rs finalize"), ("partial block padding", "src/crypto/poly1305.rs authenticate")],
 ["crypto::poly1305::authenticate"])

prop("C05", "AEAD sealing matches RFC 8439 and opening accepts only genuine ciphertexts",
 "For every key, nonce, associated data and plaintext, sealing yields exactly the RFC 8439 ChaCha20-Poly1305 ciphertext followed by the 16-byte tag, and opening it with the same nonce and associated data yields the plaintext. Opening any other (nonce, associated data, ciphertext) under that key, including one that is shorter than a tag, extended, truncated or differs in a single bit anywhere, returns a bad-record-MAC error, never plaintext and never a panic.",
 ["inputs"], "all keys, nonces, associated data, plaintexts, and all modifications of a sealed message",
 "One seal/open pair of 16 bytes is tested and no forgery; the rejection half quantifies over every bit of nonce, data, ciphertext and tag at every length.",
 ["src/cipher/chacha20_poly1305.rs", "src/crypto/chacha20.rs", "src/crypto/poly1305.rs"],
 [("MAC input layout", "src/cipher/chacha20_poly1305.rs compute_mac"), ("tag comparison before release of plaintext", "src/cipher/chacha20_poly1305.rs decrypt")],
 ["cipher::Aead, Encryptor, Decryptor of ChaCha20Poly1305"])

prop("C06", "P-256 field arithmetic is exact modulo p for all reduced operands",
 "For all integers a and b in [0, p), where p is the P-256 prime, addition, subtraction, doubling, multiplication, squaring, halving and inversion return the exact value modulo p, itself in [0, p); equality comparison and constant-flag selection are exact. Conditional reduction maps every value below 2p (given as 256 bits plus carry) to its residue, and the 32-byte big-endian encoding round-trips.",
 ["inputs"], "all reduced field elements and pairs of them",
 "Eight hand-picked values are combined; carries between limbs and the nine-term reduction have corner cases of probability 2^-32 or less that need chosen limbs.",
 ["src/crypto/p256.rs"],
 [("fast NIST reduction", "src/crypto/p256.rs Int256::mult"), ("conditional reduction", "src/crypto/p256.rs Int256::reduce_once"), ("addition chain for p-2", "src/crypto/p256.rs Int256::inverse")],
 ["crypto::p256::int256::Int256"])

prop("C07", "P-256 scalar multiplication is the group operation for every scalar and point",
 "For every point of the curve and every 256-bit scalar below p, multiplying and normalising gives the affine coordinates of the true multiple, for all bits of the scalar, including 0, 1, scalars at and around the group order, and points that are themselves results of a multiplication. Consequently a(bG) = b(aG) = (ab mod n)G, and only multiples of n give the identity.",
 ["inputs"], "all curve points (normalised or not) and all scalars below p",
 "No test multiplies a point; the exceptional cases of the addition formula (equal points, opposite points, identity) are reached only by scalars next to the group order.",
 ["src/crypto/p256.rs"],
 [("double-and-add ladder", "src/crypto/p256.rs Point256::mult_scalar"), ("complete addition by selection", "src/crypto/p256.rs Point256::add, double"), ("Jacobian to affine", "src/crypto/p256.rs Point256::normalize")],
 ["crypto::p256::Point256, NPoint256"])

prop("C08", "Only canonical encodings of points on P-256 are accepted as public keys",
 "Decoding a byte string as a public key succeeds exactly when it is 65 bytes long, starts with 0x04, both coordinates are below p and satisfy the curve equation; every other byte string, including off-curve points, coordinates at or above p, compressed or hybrid prefixes and wrong lengths, is refused without a panic. A decoded point re-encodes to the same bytes, and every encoded point decodes to the same coordinates.",
 ["inputs"], "all byte strings offered as an uncompressed point",
 "No test decodes a point; the refused set is almost everything and the interesting part of it (twist points, coordinates in [p, 2^256), sign flips) must be constructed.",
 ["src/crypto/p256.rs"],
 [("format, range and curve-equation check", "src/crypto/p256.rs NPoint256::from_uncompressed_bytes"), ("encoding", "src/crypto/p256.rs NPoint256::to_uncompressed_bytes")],
 ["crypto::p256::NPoint256"])

prop("C09", "ECDHE agrees with the peer, on the offered curve, with a fresh full-size secret",
 "For every well-formed server key exchange on the offered curve, the client returns its own valid uncompressed public key, length-prefixed, and a 32-byte premaster secret equal to the x coordinate the holder of the server's private key computes from that public key, leading zero bytes kept. Any server parameters that are malformed, truncated, carry extra bytes, name another curve or curve type, or hold an invalid point are refused with an error and without a panic. The client's private scalar depends on at least 256 bits drawn from the random source: changing any one of them changes the public key.",
 ["inputs"], "all server parameter byte strings, all server private keys, all outputs of the random source",
 "No test runs a key exchange; agreement holds even when the scalar has lost most of its bits, so only a differential check on the entropy shows it.",
 ["src/cipher/ecdhe.rs", "src/crypto/p256.rs"],
 [("parameter parsing and validation", "src/cipher/ecdhe.rs compute_keys"), ("scalar sampling", "src/cipher/ecdhe.rs get_random_x")],
 ["cipher::KeyExchange::compute_keys"])

prop("C10", "Every TLS value encodes to the exact wire format and decodes back to itself",
 "For every handshake message, hello extension, alert, key-exchange parameter block or certificate list that can be built within its declared length limits, the bytes written are exactly the TLS 1.2 encoding (type codes, big-endian lengths of the right width, field order), the reported size equals the number of bytes written, and decoding those bytes gives back the same value and consumes exactly them. Building a value outside its declared length limits is refused.",
 ["inputs"], "all constructible values of every wire type, with vector lengths from minimum to maximum",
 "One ClientHello is encoded, decoded and re-encoded with the same code, so symmetric errors cancel; the length-prefix width switches and boundaries are never reached.",
 ["src/tls_item.rs", "src/handshake.rs", "src/signature.rs", "src/alert.rs", "src/cipher/mod.rs", "src/cipher/ecdhe.rs", "src/macros.rs", "src/util.rs"],
 [("item macros", "src/tls_item.rs tls_vec, tls_struct, tls_enum, tls_array, tls_option"), ("handshake and extension framing", "src/handshake.rs tls_handshake, tls_hello_extension")],
 ["TlsItem::tls_write, tls_read, tls_size", "constructors of the wire types"])

prop("C11", "Decoding arbitrary bytes accepts exactly the well-formed encodings",
 "Whatever bytes are offered as a handshake message, hello extension list, alert, certificate list or key-exchange parameter block, decoding returns a value or an error and never panics. It accepts exactly the encodings whose every length, enumeration code and vector bound is valid and which leave no unexplained byte, and an accepted message re-encodes to exactly the bytes received (cipher suites the implementation does not know excepted).",
 ["inputs"], "all byte strings, in particular those one edit away from a valid message",
 "No test feeds a malformed handshake body; acceptance of malformed input cannot be seen from round-trips of valid ones.",
 ["src/tls_item.rs", "src/handshake.rs", "src/alert.rs", "src/signature.rs", "src/cipher/mod.rs", "src/cipher/ecdhe.rs"],
 [("vector bound and size checks", "src/tls_item.rs tls_vec"), ("trailing-byte checks", "src/handshake.rs Handshake::tls_read, tls_item.rs tls_option"), ("enumeration checks", "src/tls_item.rs tls_enum")],
 ["TlsItem::tls_read", "HandshakeBuffer::get_message"])

prop("C12", "Handshake messages survive any split or merge across records unchanged",
 "For every sequence of handshake messages and every way of cutting their concatenation into non-empty records, whether a message is spread over many records, many messages share one record, or a cut falls inside a header, the reader yields exactly that sequence of messages in order, each as soon as its last byte has arrived, and nothing else. Bytes of a later message are never lost, duplicated or attributed to an earlier one, and a message of unknown type is reported as an error without disturbing the messages that follow it.",
 ["inputs", "histories"], "all message sequences and all record boundaries, pulled at any point",
 "No test reads a handshake message from records at all; there are exponentially many cut patterns.",
 ["src/handshake.rs", "src/tls.rs"],
 [("reassembly buffer", "src/handshake.rs HandshakeBuffer"), ("record loop", "src/tls.rs TlsReader::read_message")],
 ["TlsReader::read_handshake, read_message", "HandshakeBuffer::add_record, get_message"],
 [("buf", "handshake bytes received but not yet part of a returned message", "src/handshake.rs HandshakeBuffer")])

prop("C13", "The record writer carries every byte in order inside well-formed records",
 "For every sequence of writes of any content type and size, the transport receives a sequence of TLS 1.2 records whose type is that of the write, whose version is 3.3, whose length field is exact, and whose plaintexts are non-empty, at most 2^14 bytes and concatenate to exactly the data written, in order. Once encryption is on, record i after that point is the AEAD sealing under nonce (IV xor i) and associated data (i, type, version, plaintext length) for i = 0, 1, 2, ... over the full 64-bit range, and no plaintext reaches the transport.",
 ["inputs", "histories"], "all sequences of writes, data sizes around multiples of 2^14, all keys and IVs, all record counts",
 "One 16584-byte write through a null cipher is tested; nonce and associated-data construction, record counts past 255 and 65535 and mixed content types are not.",
 ["src/tls.rs", "src/cipher/chacha20_poly1305.rs"],
 [("fragmentation", "src/tls.rs TlsWriter::write_data"), ("nonce, AD and framing", "src/tls.rs TlsWriter::write_record")],
 ["bytes handed to the underlying writer"], [("write_count", "sequence number of the next record", "src/tls.rs TlsWriter")],
 "cfg(husk_verif) setter for the sequence number, to reach counts beyond 2^32")

prop("C14", "The record reader accepts only the genuine next record, over all positions",
 "Once decryption is on, the i-th record is accepted exactly when type, version, length, ciphertext and tag are those the key holder produced for sequence number i (i = 0, 1, 2, ... over the full 64-bit range), and then yields exactly its type and plaintext. A record that is altered in any header or body bit, replayed, skipped, reordered, truncated, shorter than a tag, too long for the protocol or of unknown type is answered with an error and delivers nothing; unencrypted reading accepts exactly well-formed records of at most 2^14 bytes.",
 ["inputs", "histories", "fault_sequences"], "all record sequences and all modifications of them, at every sequence number",
 "Reader tests use a null cipher, one record, and only unknown type and overlong length; no forged, replayed or reordered record is ever offered.",
 ["src/tls.rs", "src/cipher/chacha20_poly1305.rs"],
 [("header checks and AD construction", "src/tls.rs TlsReader::read_record"), ("content checks", "src/tls.rs TlsReader::read_message")],
 ["TlsReader::read_message, read_application_data, read_handshake"], [("read_count", "sequence number of the next record", "src/tls.rs TlsReader")],
 "cfg(husk_verif) setter for the sequence number, to reach counts beyond 2^32")

prop("C15", "No nonce is ever used for two plaintexts, even when the transport fails",
 "For every history of writes, closes, alerts and transport failures at any byte position, with any retries by the caller afterwards, no two different plaintexts are sealed under the same key and nonce in such a way that ciphertext of both reaches the transport. Records that reach the transport completely always carry strictly increasing sequence numbers.",
 ["histories", "fault_sequences", "crash_points"], "all operation sequences with a transport error injected at any byte of any record, followed by any further operations",
 "No test has a failing transport; the defect needs an error in the middle of a record followed by another write on the same connection.",
 ["src/tls.rs", "src/client.rs"],
 [("sequence number advance", "src/tls.rs TlsWriter::write_record"), ("alert after failure", "src/client.rs send_tls_alert, close")],
 ["nonces given to the cipher", "bytes accepted by the underlying writer"], [("write_count", "sequence number of the next record", "src/tls.rs TlsWriter")])

prop("C16", "The handshake completes with every conforming server and derives its keys",
 "Against every server that follows TLS 1.2 with ECDHE_RSA, P-256 and ChaCha20-Poly1305, for any server random, session id, permitted extensions, certificate chain size, ephemeral key, signature bytes and record fragmentation, the client completes the handshake. It sends exactly a client key exchange, a change cipher spec and one encrypted Finished whose verify data is right for the transcript, and both sides then hold the same keys: the first bytes sent in either direction decrypt correctly under the keys RFC 5246 derives.",
 ["inputs", "configurations"], "all conforming server flights, their fragmentations and both sides' random values",
 "No test performs a handshake at all.",
 ["src/client.rs", "src/cipher/prf.rs", "src/cipher/ecdhe.rs", "src/handshake.rs", "src/tls.rs"],
 [("handshake driver and key schedule", "src/client.rs TlsClient::handshake"), ("transcript", "src/client.rs handshake msgs")],
 ["TlsClient::new", "bytes on the transport"])

prop("C17", "The handshake never completes when the server or the network deviates",
 "The client reports success only if the server's messages arrived in the required order with nothing missing, added, repeated or replaced, negotiate TLS 1.2, the offered suite, null compression and a valid key on the offered curve, the change cipher spec is well-formed and in its place, and the server's Finished is encrypted under the right keys and matches the transcript both sides saw. Any change to any bit of any handshake message in either direction, any premature end of the stream and any alert makes it return an error instead.",
 ["inputs", "histories", "fault_sequences"], "all deviations from a conforming server flight: any message dropped, duplicated, reordered, substituted or altered in any bit, cut anywhere, or an alert inserted anywhere",
 "No test performs a handshake, let alone a deviating one; the deviations are unbounded in number and several must be applied with a server that otherwise plays along.",
 ["src/client.rs", "src/handshake.rs", "src/tls.rs", "src/cipher/ecdhe.rs", "src/util.rs"],
 [("message order", "src/client.rs expect!"), ("parameter checks", "src/client.rs handshake"), ("server Finished check", "src/client.rs handshake, src/util.rs crypto_compare"), ("change cipher spec check", "src/tls.rs read_change_cipher_spec")],
 ["result of TlsClient::new"])

prop("C18", "Application data flows intact and in order both ways under any interleaving",
 "On an established connection, for every interleaving of client writes, server records and client reads with any sizes (empty writes, empty records, reads smaller or larger than a record, writes over many records), the server obtains exactly the bytes the client wrote and the client reads exactly the bytes the server sent, in order, with none lost, duplicated or invented. A write reports all its bytes as written, and a read hands over bytes that have already arrived instead of waiting for more.",
 ["inputs", "histories"], "all interleavings and sizes of writes, reads and records on one connection",
 "The tests only push one write through a null cipher; buffering between record and read boundaries depends on the whole history.",
 ["src/client.rs", "src/tls.rs"],
 [("read buffering", "src/client.rs Read for TlsClient"), ("write path", "src/client.rs Write for TlsClient")],
 ["Read and Write of TlsClient"], [("buf", "decrypted bytes not yet handed to the caller", "src/client.rs TlsClient")])

prop("C19", "An attacker on the wire can only cut the stream short, never change it",
 "On an established connection, whatever an attacker does to the server's records (altering, dropping, replaying, reordering, injecting, splitting or truncating them), the bytes the client reads are exactly the plaintext of the untouched records before the first disturbance. After a record has been rejected nothing further is ever delivered, and reading ends without a panic.",
 ["histories", "fault_sequences"], "all attack scripts over the encrypted record stream and all read patterns",
 "No test tampers with an encrypted stream or reads on after a failure.",
 ["src/client.rs", "src/tls.rs", "src/cipher/chacha20_poly1305.rs"],
 [("AEAD with implicit sequence number", "src/tls.rs TlsReader::read_record"), ("end of stream on failure", "src/client.rs Read for TlsClient")],
 ["Read of TlsClient"])

prop("C20", "No bytes from the peer can panic the client or make it spin",
 "Whatever bytes the server side sends, before, during or after the handshake, in clear or correctly encrypted by a hostile but key-holding server, with any content type, message type, size up to the largest the record header can express and any order, every client operation returns a result: it never panics, never reads on for ever without consuming input and never allocates in proportion to an announced length it has not received.",
 ["inputs", "histories"], "all byte streams from the peer, unauthenticated or authenticated",
 "The tests feed four short malformed inputs; panics sit behind states (encrypted alerts, renegotiation requests, oversized plaintexts) that take a full handshake to reach.",
 ["src/client.rs", "src/tls.rs", "src/handshake.rs", "src/tls_item.rs", "src/cipher/ecdhe.rs", "src/crypto/p256.rs", "src/alert.rs"],
 [("error returns instead of panics", "src/tls.rs read_record, read_message, read_application_data"), ("decoder bounds", "src/tls_item.rs")],
 ["TlsClient::new, read, write, close", "TlsReader"])

prop("C21", "A failed handshake is reported once, with the alert that fits the cause",
 "When the handshake fails for any reason other than transport I/O, the client returns an error of the fitting kind and the last thing it sends is exactly one fatal alert record, protected if its side has switched to encryption, whose description matches that kind by the RFC 5246 codes: unexpected message 10, bad record MAC 20, record overflow 22, illegal parameter 47, decode error 50, decrypt error 51. Version, suite, compression or key-share mismatches count as illegal parameters, undecodable messages as decode errors, wrong Finished data as decrypt error, corrupted protected records as bad record MAC, oversized records as overflow, messages out of place or of unknown type as unexpected, and an alert of the server as an alert received; on transport failure no alert is sent and an I/O error is returned.",
 ["inputs", "fault_sequences"], "all failing handshakes",
 "No test looks at what is sent when a handshake fails.",
 ["src/client.rs", "src/alert.rs", "src/tls_result.rs", "src/tls.rs", "src/handshake.rs"],
 [("kind to alert mapping", "src/alert.rs from_err"), ("alert sending", "src/client.rs send_tls_alert"), ("error kinds at each check", "src/client.rs, src/tls.rs, src/handshake.rs, src/cipher/ecdhe.rs")],
 ["error kind of TlsClient::new", "last record written"])

prop("C22", "Closure is final in both directions",
 "When the server's close notification arrives, every read returns the data sent before it and from then on end of stream, whatever follows on the wire and however often the caller reads; the same holds for any other alert, and for any unexpected message (a HelloRequest, which a client may ignore, aside), from the server. Closing from the client sends exactly one close notification, protected under the next sequence number, and no application data, and takes nothing away from what the server sends before its own closure.",
 ["histories"], "all histories with a close notification or other alert at any point, followed by any bytes and any reads",
 "No test closes a connection or delivers an alert on an established one.",
 ["src/client.rs", "src/tls.rs", "src/alert.rs"],
 [("alert handling", "src/tls.rs read_application_data"), ("end of stream", "src/client.rs Read for TlsClient"), ("close", "src/client.rs TlsClient::close")],
 ["Read of TlsClient", "TlsClient::close"])

prop("C23", "The outcome does not depend on how the transport delivers bytes or fails",
 "For every way the transport splits, shortens, interrupts (in the retryable sense) or buffers reads and writes, a connection sends the same bytes, accepts the same data and ends with the same result as over a perfect transport, and flushing pushes everything written so far, including handshake messages and alerts, to the peer. If the transport ends or fails at any byte during the handshake, an I/O error is returned; if it fails during a write, a flush or a close, that operation is reported as failed.",
 ["schedules", "fault_sequences", "inputs"], "all chunkings, interruptions, buffering behaviours and failure points of the underlying reader and writer",
 "All tests use in-memory cursors that deliver everything at once and never fail.",
 ["src/util.rs", "src/client.rs", "src/tls.rs"],
 [("exact reads", "src/util.rs ReadExt::fill_exact"), ("error propagation", "src/tls_result.rs From<io::Error>"), ("flush", "src/client.rs Write for TlsClient")],
 ["TlsClient over an instrumented transport"])

prop("C24", "Every client hello is well-formed, honest about what is offered, and fresh",
 "Every handshake starts with one strictly well-formed TLS 1.2 client hello that offers exactly what the client implements: version 3.3, the ECDHE_RSA ChaCha20-Poly1305 suite, null compression, curve P-256, uncompressed points and the RSA/SHA-256 signature pair. All 32 bytes of its random value are taken from the random source for that connection, so two connections with different randomness never share them, and nothing else derived from the random source (key share or any secret) appears in clear before it should.",
 ["inputs", "configurations"], "all outputs of the random source",
 "The only hello test builds one by hand with a zero random; nothing checks what a connection really sends.",
 ["src/client.rs", "src/handshake.rs"],
 [("hello construction", "src/client.rs handshake, src/handshake.rs new_client_hello")],
 ["first bytes written by TlsClient::new"])

prop("C25", "Byte-order, integer and comparison helpers are exact for every value",
 "Reading an integer of any width in big- or little-endian order from any stream yields its exact value, writing then reading it returns it, and the fixed byte-array conversions agree with them, whatever the chunking of the stream. Comparing two equal-length byte strings is true exactly when they are identical, and narrowing a wrapping integer keeps exactly its low bits.",
 ["inputs"], "all integers, all pairs of equal-length strings",
 "Only one constant is narrowed in a test; the comparison decides whether a forged Finished is accepted and is never tested.",
 ["src/util.rs", "src/crypto/wrapping.rs", "src/macros.rs"],
 [("folding comparison", "src/util.rs crypto_compare"), ("endian helpers", "src/util.rs ReadExt, WriteExt"), ("narrowing", "src/crypto/wrapping.rs")],
 ["util::crypto_compare, ReadExt, WriteExt, u64_be_array ...", "crypto::wrapping::ToWrapping"])

prop("C26", "Secrets do not influence which code runs or which memory is touched",
 "For equal public inputs (lengths, headers, points, nonces, what is sent in clear, and whether a verification succeeds), the sequence of branches taken, instructions executed and addresses touched does not depend on secret values. This holds for comparing MACs and Finished values (also when they are wrong, wherever they are wrong), field arithmetic, scalar multiplication and key exchange, ChaCha20, Poly1305, HMAC, the PRF and the sealing and opening of records, in optimised builds.",
 ["inputs"], "all pairs of secrets with the same public inputs",
 "Unit tests see results, not what was executed to get them; a compiler may turn a careful loop into an early exit without any change in the source.",
 ["src/util.rs", "src/crypto/p256.rs", "src/crypto/chacha20.rs", "src/crypto/poly1305.rs", "src/cipher/chacha20_poly1305.rs", "src/cipher/prf.rs", "src/cipher/ecdhe.rs", "src/client.rs"],
 [("branch-free selection", "src/crypto/p256.rs choose"), ("OR-folding comparison", "src/util.rs crypto_compare"), ("tag comparison", "src/cipher/chacha20_poly1305.rs decrypt")],
 ["execution traces of compiler-instrumented code, instruction counts of the machine code under valgrind"])

prop("C27", "Connections in one process do not influence each other",
 "What a connection sends, delivers, returns and draws from the random source depends only on its own operations, its own randomness and what its own transport delivers. Other connections of the same process change none of it, whether they run in the same thread or in others, before it or at the same time, even inside one of its transport calls (as in a tunnel), and in whatever state they are: in the middle of a handshake, failed, under attack, closed or dropped. No connection waits for another, and connections with different randomness have no key material in common.",
 ["schedules", "histories", "inputs"], "all sets of connections and all interleavings of their steps, down to single transport calls and parallel threads",
 "No test has two connections, let alone two at a time; shared state shows only in particular interleavings or after particular histories.",
 ["src/client.rs", "src/tls.rs", "src/handshake.rs", "src/cipher/ecdhe.rs", "src/cipher/prf.rs", "src/crypto/p256.rs", "src/crypto/chacha20.rs"],
 [("all state in the connection object", "src/client.rs TlsClient, src/tls.rs TlsReader, TlsWriter"), ("fresh key share", "src/cipher/ecdhe.rs compute_keys")],
 ["TlsClient::new, read, write, flush, close, drop", "bytes on every transport", "random bytes drawn"])

prop("C28", "Memory stays bounded however long a process and its connections live",
 "What an open connection keeps in memory is bounded by a constant, by what it received in its handshake and by what it has received but not handed over yet; it does not grow with the number or size of the records, writes, reads, failed operations or alerts that went before. When a connection is dropped, in whatever state, and when a handshake fails for whatever reason, all the memory it took is given back and the transport it was given is dropped, so that a process may make any number of connections. No operation needs more working memory than a small multiple of the data handed to it or received.",
 ["histories", "inputs"], "all histories of operations on a connection, and all sequences of connections of one process",
 "A leak of a few bytes per record or per failed handshake changes no result; it shows only in the memory held after long histories.",
 ["src/client.rs", "src/tls.rs", "src/handshake.rs", "src/cipher/chacha20_poly1305.rs", "src/tls_result.rs"],
 [("received data is taken out as it is handed over", "src/client.rs read"), ("one record at a time", "src/tls.rs write_data, read_record"), ("owned state only", "src/client.rs TlsClient")],
 ["bytes allocated and not freed after TlsClient::new, read, write, flush, close, drop"])

prop("C29", "Secrets stay inside the connection",
 "The client's private scalar, the premaster and master secrets, the traffic keys and IVs, the per-record keys and keystream, the Finished values that are expected, the tag that an altered record should have had and the application data of either side appear in nothing that a connection emits or reports (received data is handed to the reader and to nobody else), whatever goes wrong: not in clear among the bytes it sends, not in the text, debug output or causes of any error it returns, and not in anything the process prints. An error may quote what the peer itself sent in clear or in an alert.",
 ["inputs", "faults", "histories"], "all sessions, conforming and failing, with all faults of the transport",
 "An error that tells too much is correct in kind and alert; only a search of all its renderings for values that an independent derivation knows shows it.",
 ["src/client.rs", "src/tls.rs", "src/tls_result.rs", "src/util.rs", "src/cipher/chacha20_poly1305.rs", "src/cipher/ecdhe.rs"],
 [("error texts", "src/tls_result.rs TlsError"), ("errors of reads and writes", "src/util.rs SurugaError"), ("what is sent", "src/tls.rs write_record")],
 ["Display, Debug, description and source of every error, at any depth", "bytes written to the transport", "standard output and standard error"])

prop("C30", "Work is proportional to the data, however it is cut and whatever went before",
 "The work of a connection (processor time, memory allocated, calls of the transport) grows at most in proportion to the bytes it is given, asked for and receives, for every way the peer, the transport and the caller cut them: a handshake with a chain of any size and number of certificates in records of any size, one large write or many small ones, data arriving in records of any size and read in pieces of any size (a read may go over the current record once). The same operation costs the same on a fresh connection and after any number of records, writes, reads and failed writes. So no peer can make a client busy out of proportion to what it sends.",
 ["inputs", "histories", "schedules"], "all sizes and fragmentations, all histories of operations",
 "Tests handle a few bytes; a quadratic loop gives the same results, and shows only when the cost of differently sized inputs is compared.",
 ["src/client.rs", "src/tls.rs", "src/handshake.rs", "src/tls_item.rs", "src/crypto/sha2.rs", "src/crypto/chacha20.rs", "src/crypto/poly1305.rs"],
 [("messages are collected without going over them again", "src/handshake.rs HandshakeBuffer"), ("vectors are sized while they are read", "src/tls_item.rs tls_vec"), ("one record at a time", "src/tls.rs write_data, read_record"), ("received data is handed over", "src/client.rs read")],
 ["time, allocation and transport calls of TlsClient::new, write, read, flush"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
