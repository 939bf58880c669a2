#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts live)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

p("C01", "Any honest handshake completes and both ends agree",
  "Two honest layers whose CONNECT and ACK messages reach each other intact, produced and delivered in any order the negotiation allows (an ACK may overtake the CONNECT of the same sender), both finish the negotiation, whatever their API level, configuration, key pinning, key pairs, ephemeral keys and custom data. Each side is told the other's true signature public key and its exact custom data, once each. From then on user messages written on either side are delivered intact on the other.",
  ["schedules", "inputs", "configurations"],
  "For every interleaving of producing and delivering the four negotiation messages, every pinning combination, API level, custom data and randomly drawn ephemeral keys.",
  "The tests drive three fixed orders with 4-byte custom data and one random key draw each; order-dependent and key-dependent (1 in 256 or rarer) failures never show up there.",
  ["src/minimal.rs", "src/status.rs", "src/agreement.rs", "src/complete.rs", "src/message.rs"],
  [("two-thread negotiation automaton", "src/status.rs: SecureLayerStatus::apply_action"),
   ("ACK received too early is set aside", "src/minimal.rs: read / take_ack_msg_recv_too_early"),
   ("X25519 agreement and derivation with the larger key as salt", "src/agreement.rs: compute_shared_secret")],
  [("status", "progress of both negotiation threads", "src/minimal.rs MinimalSecureLayer.status")],
  ["create_connect_message/create_ack_message/read, write_connect_msg_bin/write_ack_msg_bin/read_bin results"])

p("C02", "Only the holder of the expected or reported key can complete a handshake",
  "A layer accepts a CONNECT only if it is signed by the very key it reports and, when an expected key was given at creation, only if that key is exactly the expected one; it accepts an ACK only if it is signed by that same key and answers this layer's own ephemeral key. Without the private key, and unless its holder itself answered this layer's ephemeral key, nothing an attacker sends, alters, replays from other connections, mixes or reflects back ever completes the negotiation or gets a user message delivered or written.",
  ["inputs", "histories"],
  "For every forged, altered, replayed, reflected or mixed CONNECT/ACK at every stage of the negotiation, with and without an expected key.",
  "One test sends a CONNECT with the wrong key and one a bogus 32-byte signature; they cannot cover every bit position, every mix of keys, sessions and stages.",
  ["src/minimal.rs", "src/signature.rs", "src/reader.rs", "src/message.rs"],
  [("signature verification over all preceding bytes", "src/minimal.rs: verify_sig, src/signature.rs: verify_sig"),
   ("expected key comparison", "src/minimal.rs: Connect branch of read"),
   ("challenge = sha256(own ephemeral key)", "src/minimal.rs: Ack branch of read")],
  [("peer_sig_pubkey", "expected or learned key of the other end", "src/minimal.rs")],
  ["Ok/Err and events of read/read_bin; Ok of write_message"])

p("C03", "A delivered user message is exactly one the other end sent here",
  "Every user message a layer hands to the application is byte for byte one that the other end wrote on that same connection. Anything else - altered at any bit, truncated, extended, spliced from two messages, taken from another connection, sent in clear, or with a hash that does not match - is refused with an error and never delivered in any form.",
  ["inputs", "histories"],
  "For every payload and every alteration of every message of a connection, at every stage.",
  "No test alters a user message at all; the only negative test replays one. The set of alterations (each bit, each cut, each splice, each foreign session) is far beyond samples.",
  ["src/minimal.rs", "src/reader.rs", "src/encryption.rs", "src/encryption/chacha20_poly1305_aead.rs"],
  [("AEAD tag verification", "src/encryption/chacha20_poly1305_aead.rs: decrypt"),
   ("sha256 check of the encapsulated message", "src/minimal.rs: UserMsg branch of read"),
   ("clear/encrypted state check", "src/reader.rs: read")],
  [("encrypt_algo_with_secret", "session key of the connection", "src/minimal.rs")],
  ["events returned by read/read_bin/drain_tmp_stack_user_msgs"])

p("C04", "No user message is delivered twice, whatever is replayed",
  "Whatever copies of past user messages reach a receiving layer, at any distance in time, in any order and with any gaps outstanding, each user message is delivered at most once. Refusing a replay neither ends the connection nor prevents messages not yet seen from being delivered.",
  ["histories", "schedules"],
  "For every history of deliveries with duplicates, reorderings, gaps and arbitrary message numbers.",
  "One test replays the last message of a two-message history; windows, long histories, gaps closing over many numbers and very large numbers are not reached.",
  ["src/minimal.rs", "src/constants.rs"],
  [("next expected number plus set of numbers received ahead of it", "src/minimal.rs: UserMsg branch of read")],
  [("next_nonce_expected", "every number below has been received", "src/minimal.rs"),
   ("orphan_nonce_list", "numbers received ahead of a gap", "src/minimal.rs")],
  ["events returned by read/read_bin"])

p("C05", "Reordered messages all arrive, up to a bounded gap",
  "User messages may reach a layer in any order: as long as at most 10,000 of them have been received ahead of a missing earlier one, each is delivered on arrival, exactly once and intact, and a late message still is when it finally comes. One more message ahead of the gap makes the connection fail with an error; it is never silently dropped or reordered.",
  ["schedules", "histories"],
  "For every permutation and interleaving of arrivals, every gap pattern up to and beyond the limit, and any number of messages on the connection.",
  "The tests check one permutation of four messages and one 10,000-long monotone run; permutations with several gaps, limit reached after gaps were closed, or long sessions are not sampled.",
  ["src/minimal.rs", "src/constants.rs"],
  [("orphan list and its limit", "src/minimal.rs: UserMsg branch of read, src/constants.rs: MAX_ORPHAN_NONCES")],
  [("orphan_nonce_list", "numbers received ahead of a gap", "src/minimal.rs")],
  ["events and errors of read/read_bin"])

p("C06", "Messages arriving early are kept, then delivered once and in order",
  "An ACK that arrives before the CONNECT of its sender, and user messages that arrive before the ACK of their sender, are set aside and not handed to the application until the negotiation state allows it. Then the ACK is delivered exactly once, and every user message set aside is delivered exactly once, intact and in arrival order, even if the network duplicated some of them while they were waiting.",
  ["schedules", "histories", "inputs"],
  "For every interleaving of CONNECT, ACK and user messages in flight, any number and order of early user messages, duplicates among them, and any moment at which the application collects them.",
  "One test has one early ACK and one early user message; several early messages, duplicates, early collection, or both mechanisms with pinned keys are not exercised.",
  ["src/minimal.rs", "src/complete.rs", "src/status.rs"],
  [("set-aside ACK", "src/minimal.rs: take_ack_msg_recv_too_early"),
   ("temporary stack of user messages", "src/minimal.rs: drain_tmp_stack_user_msgs"),
   ("automatic collection at the complete level", "src/complete.rs: read_bin")],
  [("ack_msg_recv_too_early", "ACK waiting for its CONNECT", "src/minimal.rs"),
   ("tmp_stack_user_msgs", "user messages waiting for the ACK", "src/minimal.rs")],
  ["events returned by read/take_ack_msg_recv_too_early/drain_tmp_stack_user_msgs and read_bin"])

p("C07", "Every call and message is allowed exactly when the negotiation says so",
  "For every sequence of calls and authentic incoming messages, a layer allows exactly: writing one CONNECT; accepting one CONNECT; writing one ACK, only after accepting a CONNECT; accepting one ACK, only after writing its CONNECT; writing user messages and cloning only once both negotiation threads are finished; receiving user messages only once it has written CONNECT and ACK. Any other local call is refused with an error (a refused CONNECT, ACK or clone leaves the connection usable), and any other authentic incoming message is refused and fails the connection.",
  ["histories", "inputs"],
  "For all sequences of API calls and authentic incoming messages of any length, at both API levels, with and without an expected key.",
  "The tests check about ten fixed call sequences out of an unbounded set; out-of-order combinations of both negotiation threads are mostly untouched.",
  ["src/status.rs", "src/minimal.rs", "src/complete.rs", "src/complete/writer.rs"],
  [("transition table", "src/status.rs: SecureLayerStatus::apply_action")],
  [("status", "progress of both negotiation threads", "src/minimal.rs")],
  ["Ok/Err of every public operation"])

p("C08", "A failed connection never comes back",
  "Once a connection has failed - an incoming message could not be decrypted or parsed, came out of protocol order or beyond the reorder limit, the key agreement failed, a user message was written too early, or writing one to the output failed - every later attempt to write CONNECT, ACK or user messages or to clone is refused with an error, and nothing is delivered to the application any more, including messages that were set aside before.",
  ["histories", "fault_sequences", "inputs"],
  "For every cause of failure, at every stage of the connection, followed by every sequence of calls and (valid or invalid) messages.",
  "The tests check that the internal status becomes failed in one case; none looks at what a failed layer still does.",
  ["src/status.rs", "src/minimal.rs"],
  [("sticky failed status", "src/status.rs: Fail arm of apply_action"),
   ("status set to failed on read and write errors", "src/minimal.rs: read, write_message, create_*_message")],
  [("status", "failed or not", "src/minimal.rs")],
  ["Ok/Err and events after the first fatal error"])

p("C09", "No input can crash a layer",
  "Whatever bytes are given to a layer - random, truncated, malformed, or correctly signed or encrypted by a malicious peer, at any stage of the connection and at every API level, deserialization included - each call returns a value or an error: it never panics, aborts, overflows, hangs or accesses memory out of bounds. The same holds for every local call with any arguments and in any order.",
  ["inputs", "histories"],
  "For all byte strings, including ones authenticated by a hostile peer, in every reachable state, in builds with and without overflow checks.",
  "The tests feed a handful of almost well-formed messages; short, length-inconsistent and authenticated-but-malformed inputs are an unbounded space.",
  ["src/reader.rs", "src/minimal.rs", "src/encryption/chacha20_poly1305_aead.rs", "src/complete.rs", "src/complete/serde/deserializer.rs", "src/complete/serde/serializer.rs"],
  [("bounds checks while parsing", "src/reader.rs: read, read_type_headers"),
   ("errors instead of panics in payload decoding", "src/complete.rs: uncompress, src/complete/serde/deserializer.rs")],
  [], ["return or unwind of every public operation; sanitizer reports"])

p("C10", "A message refused as not authentic or repeated leaves no trace",
  "A well-formed CONNECT or ACK refused because its key is not the expected one, its signature does not verify, its challenge is wrong or its ephemeral key is the layer's own, and a decryptable user message refused because its number was already received or its hash is wrong, leave the connection exactly as it was. Every message and call that would have been accepted before is still accepted afterwards with the same result, and no key or number from the refused message is retained.",
  ["histories", "inputs"],
  "For every state of the connection, every refusable message, any number of them, followed by every continuation.",
  "Tests stop at the error of the refused message; none goes on to check that the genuine peer is still served afterwards.",
  ["src/minimal.rs"],
  [("checks precede any state change", "src/minimal.rs: read")],
  [("peer_sig_pubkey", "must not be learned from an unauthenticated message", "src/minimal.rs"),
   ("next_nonce_expected / orphan_nonce_list", "must not record refused numbers", "src/minimal.rs")],
  ["results of the continuation"])

p("C11", "What goes over the wire is exactly protocol version 1",
  "Every message a layer emits is, byte for byte, what the documented message format (with Ed25519 designated by the exported SIG_ALGO_ED25519 value) and key schedule prescribe for its keys, custom data and message number, and every message an independent implementation of the same format builds is accepted and delivered. Layers therefore interoperate with every other implementation and release of version 1.",
  ["inputs", "configurations", "histories"],
  "For all keys, custom data, payload sizes, message numbers and configurations, in both directions, against an independent implementation.",
  "The integration tests only let the library talk to itself, so a change made on both sides is invisible; unit tests pin a few clear-text headers, never the encrypted bytes or the key schedule.",
  ["src/message.rs", "src/reader.rs", "src/agreement.rs", "src/encryption/chacha20_poly1305_aead.rs", "src/constants.rs", "README.md"],
  [("serialisation of the three message types", "src/message.rs: to_bytes"),
   ("key schedule PBKDF2-HMAC-SHA384(3 rounds), key|nonce|aad split", "src/agreement.rs: derive, src/encryption/chacha20_poly1305_aead.rs: SecretKey::new")],
  [], ["bytes written by each API level", "events for frames built by the reference peer"])

p("C12", "Keys are fresh and user data never leaves a layer in clear",
  "Each layer draws a fresh, unpredictable ephemeral key that serves one connection only, so that no two connections share session key material even between the same identities and towards a peer that repeats its own ephemeral key. A random seed, and the signature key of a layer created without a seed, are drawn afresh in the same way. No byte string emitted by a layer exposes the user data of a user message, in clear or by encrypting two different messages with the same key stream.",
  ["inputs", "histories", "configurations"],
  "For all payloads, all sequences of messages on a connection, and all pairs of connections in a process.",
  "Tests never look at emitted ciphertext nor compare keys between connections.",
  ["src/agreement.rs", "src/encryption/chacha20_poly1305_aead.rs", "src/minimal.rs", "src/seeds.rs"],
  [("ephemeral key generated per layer and consumed by the agreement", "src/agreement.rs: EphemeralKeyPair, src/minimal.rs: create"),
   ("ChaCha20-Poly1305 encryption of user messages", "src/minimal.rs: encrypt_and_write")],
  [("ephemeral_kp", "one-time key pair", "src/minimal.rs")],
  ["ephemeral and signature keys in emitted CONNECTs, Seed32::random", "bytes emitted by write_message/write_bin/write"])

p("C13", "Compression is invisible: every payload arrives as it was written",
  "At the complete API level, whatever the compression level and threshold configured on either end - the two ends may differ and may change before cloning - every CONNECT or ACK custom data and every user message of any size and content is delivered exactly as given, and absent and empty custom data stay distinct.",
  ["inputs", "configurations"],
  "For all payload sizes and contents, all compression levels and thresholds on either side, for the three message types.",
  "Tests send 4-byte payloads with the default configuration, below the threshold, so the compressor proper is never run.",
  ["src/complete.rs", "src/config.rs"],
  [("deflate on write, inflate on read, chosen by the sender only", "src/complete.rs: compress, uncompress")],
  [("config", "compression level and threshold", "src/config.rs")],
  ["events of read_bin for data given to write_*_bin"])

p("C14", "Serialized values round-trip in every format, detected from the message",
  "For every serializable value, in CONNECT, ACK and user messages, the receiver gets an equal value whichever serialization format the sender is configured with, even if its own configured format differs or the sender switches formats between messages. A value that cannot be serialized, a format without serializer, or a message that does not decode to the requested type yields an error and leaves the connection usable.",
  ["inputs", "configurations", "histories"],
  "For all values, all pairs of sender/receiver format configurations and sequences of format switches.",
  "Tests send one small value per format with the same format on both ends.",
  ["src/complete/serde/serializer.rs", "src/complete/serde/deserializer.rs", "src/format.rs"],
  [("4-byte format header in front of the value", "src/complete/serde/serializer.rs: serialize, src/complete/serde/deserializer.rs: deserialize"),
   ("format registry", "src/format.rs")],
  [], ["values given to write*/read<M>"])

p("C15", "Output is complete or the call reports an error",
  "Whatever the output does - accepting fewer bytes than offered, being interrupted, or failing at any byte - a write call that returns success has put the entire message, and nothing else, into the buffered writer or the output behind it, in order. Otherwise it returns an error, and after a failed user-message write the connection refuses further use rather than continuing with a hole.",
  ["fault_sequences", "inputs", "configurations"],
  "For every message type and size, buffer capacity, and sequence of short writes, interruptions and errors of the underlying output at every byte position.",
  "All tests write to an in-memory vector that accepts everything.",
  ["src/complete/writer.rs", "src/encryption/chacha20_poly1305_aead.rs", "src/minimal.rs"],
  [("complete writes to the caller's writer", "src/complete/writer.rs, src/encryption/chacha20_poly1305_aead.rs: encrypt"),
   ("connection failed after a write error", "src/minimal.rs: write_message")],
  [("status", "failed after a write error", "src/minimal.rs")],
  ["bytes at the sink against the message expected by an independent implementation"])

p("C16", "A cloned layer split into sender and receiver behaves like the original",
  "After the negotiation a layer can be cloned at any moment, and using one copy only to send and another only to receive, in the same or different threads, is indistinguishable to both applications from using one layer: every message is delivered once and replays are still refused. A copy cannot negotiate again, what happens on one copy (failure included) does not affect another, and from the first clone on no copy's configuration can be changed.",
  ["histories", "schedules"],
  "For every moment of cloning, chains of clones, and interleavings of sending and receiving on the copies.",
  "Tests call try_clone and drop the result, and check change_config on one copy.",
  ["src/minimal.rs", "src/complete.rs", "src/complete/writer.rs"],
  [("state copied at cloning time", "src/minimal.rs: try_clone"),
   ("no signature key in clones, configuration locked", "src/complete.rs: try_clone, src/minimal.rs: change_config")],
  [("cloned", "configuration locked", "src/minimal.rs")],
  ["results of every operation on both copies"])

p("C17", "User messages are numbered consecutively, each number used once",
  "The successive user messages written by a layer, and by its clones, on one connection carry the numbers 0, 1, 2, ... without gap or repetition, whatever else happens in between: incoming messages of any kind, refused calls, configuration changes, empty or huge payloads.",
  ["histories", "inputs"],
  "For all interleavings of writes with every other operation and for long connections.",
  "Tests never look at message numbers; a skipped or repeated number only shows as a lost or refused message in specific histories.",
  ["src/minimal.rs", "src/message.rs"],
  [("send counter incremented after each successful write", "src/minimal.rs: write_message")],
  [("next_nonce_sent", "number of the next message written", "src/minimal.rs")],
  ["message numbers decrypted by an independent peer"])

p("C18", "Secrets are erased on drop and never printed",
  "Dropping a layer, a clone, or a seed overwrites the secret key material it holds before its memory is released, whatever state the connection was in. The debug representation of a layer or a seed never reveals secret key bytes.",
  ["histories", "inputs"],
  "For every state a layer can be dropped in (negotiating, established, failed, cloned) and every key.",
  "No test inspects memory after a drop or the debug output.",
  ["src/encryption/chacha20_poly1305_aead.rs", "src/seeds.rs", "src/minimal.rs"],
  [("zeroize on drop", "src/seeds.rs, src/encryption/chacha20_poly1305_aead.rs: SecretKey"),
   ("redacted debug output", "src/seeds.rs, src/encryption/chacha20_poly1305_aead.rs: SecretKey")],
  [("SecretKey", "session key, nonce and additional data", "src/encryption/chacha20_poly1305_aead.rs")],
  ["memory of a dropped layer and of every heap block it releases; output of {:?}"])

p("C19", "Connections are independent of each other and of threads",
  "Any number of connections driven concurrently, from any threads, with layers moving between threads, each behave exactly as if it were the only one: same results, same deliveries, no data race. Nothing that is created, fails or is fed on one connection influences another.",
  ["schedules", "histories"],
  "For all interleavings of operations on several connections over several threads.",
  "Every test uses one connection in one thread.",
  ["src/minimal.rs", "src/complete.rs", "src/agreement.rs", "src/encryption.rs"],
  [("all state owned by the layer", "src/minimal.rs: MinimalSecureLayer")],
  [], ["results and events per connection; race detector reports"])

p("C20", "Refused and repeated messages do not make a layer grow",
  "The memory a layer retains is bounded by its configuration limits - at most 10,000 out-of-order numbers, one set-aside ACK, and the distinct user messages waiting for an ACK - however many refused, replayed or malformed messages it is fed and however many messages it has sent or received. Everything a layer allocated is released when it is dropped.",
  ["histories", "inputs"],
  "For arbitrarily long streams of replays, forgeries and legitimate traffic, in every stage of the connection.",
  "No test measures memory; growth needs thousands of messages to show.",
  ["src/minimal.rs", "src/constants.rs"],
  [("limit on out-of-order numbers", "src/minimal.rs, src/constants.rs: MAX_ORPHAN_NONCES"),
   ("single slot for the early ACK", "src/minimal.rs: ack_msg_recv_too_early")],
  [("orphan_nonce_list / tmp_stack_user_msgs / ack_msg_recv_too_early", "everything a layer retains from incoming messages", "src/minimal.rs")],
  ["live heap bytes attributed by an instrumented allocator"])

p("C21", "The guarantees do not depend on the optional features compiled in",
  "For every selection of the crate's optional features, the library builds, and layers built with different selections understand each other at every API level both have: the same handshake, the same bytes on the wire, the same deliveries and refusals, as if both were built with everything. A value in a serialization format the receiver was built without is refused with an error, which neither crashes the receiver nor disturbs the connection.",
  ["configurations", "histories"],
  "For every pair of feature selections (none, zip, ser, every subset of bin/cbor/json) and any history between them.",
  "The tests run with one selection of features; two ends built differently never meet.",
  ["Cargo.toml", "src/lib.rs", "src/minimal.rs", "src/config.rs", "src/complete.rs", "src/format.rs"],
  [("cfg(feature) gates of the complete layer and the formats", "src/lib.rs, src/format.rs, src/complete.rs"),
   ("configuration independent of features", "src/config.rs")],
  [], ["results of calls and bytes emitted by processes built with each feature selection", "exit of those processes", "whether each selection builds"])

p("C22", "An error names what is wrong",
  "When exactly one thing is wrong with a call or an incoming message, the error returned is the one documented for that cause, at both API levels and at every moment of the connection: unexpected signature key; signature or hash that does not verify; wrong challenge; number already received; CONNECT, ACK or user message out of protocol order; clear where encrypted is due or the reverse; unknown version, type, signature algorithm or format; too short; not decryptable; beyond the reorder limit; not decompressible; not decodable; unusable ephemeral key; a local call out of order, after a failure, or changing the configuration after cloning; a value without serialization; a failing output. An application can so tell a forgery from a repetition, and its own mistakes from those of its peer.",
  ["inputs", "histories"],
  "For every cause, every moment at which nothing else is wrong, and all keys, data and configurations.",
  "The tests look at a handful of error values; most causes at most moments are never provoked, and a wrong error looks like a right refusal.",
  ["src/errors.rs", "src/minimal.rs", "src/reader.rs", "src/status.rs", "src/complete.rs", "src/complete/serde.rs", "src/format.rs"],
  [("documented meaning of every error", "src/errors.rs"),
   ("order of the checks on an incoming message", "src/reader.rs: read; src/minimal.rs: read"),
   ("errors of the state machine", "src/status.rs: apply_action")],
  [], ["the error value returned (its name in the debug representation)"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
