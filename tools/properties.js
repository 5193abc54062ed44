"use strict";
// Source of truth for properties.jsonl (run `node tools/gen.js` after editing).
// p(id, title, statement, over, quantifier text, why tests can't, files, mechanism [[name, where]...], extra)
const out = [];
function p(id, title, statement, over, text, why, files, mechanism, extra = {}) {
  out.push({
    id, title, statement, quantifier: { over, text }, why_tests_cant: why,
    anchors: { files, mechanism: mechanism.map(([name, where]) => ({ name, where })), ...extra },
  });
}

p("P01", "Every constructor and method travels under the identifier its signature fixes",
  "Every object and method of the three bundled wire schemas is encoded and recognised under the 32-bit identifier that the TL specification derives from its name, its fields in order, their types, and its result type, with optional flags at the bit positions the layer fixes. No two constructors share an identifier, and looking an identifier up gives back exactly the entry that is written under it.",
  ["inputs", "programs"], "every constructor and method of the three schemas, every value of it that is sent or received",
  "The tests encode a handful of toy constructors; 2,586 entries are never encoded, and a wrong field order, type, flag bit or identifier compiles.",
  ["tl/1_telegram_api.ts", "tl/1_mtproto_api.ts", "tl/1_secret_chats_api.ts"],
  [["schema tables", "tl/1_*_api.ts: schema.definitions, schema.identifierToName"]]);

p("P02", "Declared types describe exactly what the encoder writes",
  "For every constructor and method of the bundled schemas, the fields a caller can see in its declared type, their optionality, their value types and the union it belongs to are exactly those the encoder and decoder process for it. A program that type-checks never loses a field on the wire and never receives a value of another type than declared.",
  ["programs", "inputs"], "every constructor and method, every field",
  "Types are erased before tests run, and the tables carrying the runtime shape are separate literals that the compiler does not compare with the declared types.",
  ["tl/1_telegram_api.ts", "tl/1_mtproto_api.ts", "tl/1_secret_chats_api.ts"],
  [["declared interfaces", "tl/1_*_api.ts: interfaces, Types, Functions, Enums"], ["runtime tables", "tl/1_*_api.ts: schema"]]);

p("P03", "The TL decoder mirrors the TL encoder",
  "Every wire type that can be written is read back by a decoding step of the same width, byte order, signedness, length prefix, padding and boxing, and a conditional field is read under exactly the condition under which it is written. Both sides use the same type names, and a type neither side knows is rejected rather than skipped. A value that has a place on the wire is not refused, the encoder makes room for every byte before it writes it, the decoder takes no byte that has not been received, text comes out as it went in, and the frame of a message in a container is taken off as it was put on.",
  ["inputs"], "every TL value of every schema",
  "The reader and writer tests use fixed byte strings for a few types; agreement has to hold for every type, flag combination and length class.",
  ["tl/1_tl_reader.ts", "tl/1_tl_writer.ts", "tl/0_utilities.ts", "tl/2_message.ts", "utilities/0_text.ts"],
  [["primitive codecs", "tl/1_tl_reader.ts, tl/1_tl_writer.ts"], ["flag handling", "tl/0_utilities.ts"]]);

p("P04", "Outgoing packets are encrypted as MTProto 2.0 prescribes",
  "Every packet sent after the key exchange is encrypted with a message key and an AES key and IV derived from the authorization key and the padded plaintext exactly as MTProto 2.0 prescribes for the client-to-server direction. The plaintext carries the current salt, the session identifier, the message identifier, the sequence number and the length of the payload in that order, followed by 12 to 1024 bytes of fresh random padding that make the length divisible by 16.",
  ["inputs", "histories"], "every payload length, every authorization key, every session state",
  "No test reaches a server or a reference implementation; the derivation is deterministic only in parts and padding depends on every payload length.",
  ["session/2_session_encrypted.ts", "utilities/0_int.ts", "utilities/0_hash.ts"],
  [["packet encryption", "session/2_session_encrypted.ts: #encryptMessage"]]);

p("P05", "Nothing from the network is used before it is authenticated",
  "No decrypted byte of an incoming packet is interpreted, acknowledged or delivered unless the packet names this client's authorization key, its message key equals the one recomputed from the decrypted plaintext with the server-to-client derivation, and the plaintext carries this session's identifier. A packet that fails one of these is discarded.",
  ["inputs", "fault_sequences"], "every byte string a peer or an attacker on the path can deliver",
  "Tests never feed forged packets; the guarantee is about all byte strings and all paths to delivery.",
  ["session/2_session_encrypted.ts"],
  [["packet decryption", "session/2_session_encrypted.ts: #decryptMessage, receive loop"]]);

p("P06", "Message identifiers and sequence numbers never repeat or go backwards",
  "Within a session, every message that is sent carries an identifier that is divisible by four, follows the server clock and is strictly greater than all identifiers issued before, and a sequence number that is odd and advances exactly when the message needs acknowledgement. A message that is sent again after a failure always gets new numbers, and a container is numbered after the messages it carries.",
  ["histories", "schedules"], "every order of sends, resends, acknowledgements, clock corrections and session resets",
  "Tests step the counter a few times; the guarantee covers every history, including clocks that run backwards.",
  ["session/0_session_state.ts", "session/2_session_encrypted.ts"],
  [["identifier counter", "session/0_session_state.ts"], ["send loop", "session/2_session_encrypted.ts"]]);

p("P07", "The key exchange accepts only an authentic, fresh and safe server contribution",
  "An authorization key is adopted only if every server message of the exchange carries the nonces of this exchange, the server's public key is one the client trusts, the decrypted answer matches its hash, the Diffie-Hellman prime, generator and both public values are in the safe ranges the protocol prescribes, and the final confirmation hash matches the new key. Otherwise the exchange fails or is retried and no key is kept.",
  ["inputs", "fault_sequences"], "every sequence of server answers, including malicious ones",
  "A test would need a hostile server for each field of each of the three answers; the existing tests never run the exchange.",
  ["client/1_client_plain.ts", "client/0_password.ts"],
  [["key exchange", "client/1_client_plain.ts: createAuthKey"]]);

p("P08", "Every request settles",
  "A request that has been accepted for sending is always settled: it is answered, rejected, or sent again until one of these happens, under every order of answers, protocol-level rejections, send failures, connection losses and disconnects. Disconnecting rejects everything that is still pending, and a settled request is forgotten, so that nothing keeps waiting and nothing is settled from a stale record.",
  ["schedules", "fault_sequences"], "every interleaving of sends, answers, protocol errors, connection loss and disconnection",
  "The unit tests exercise a single success path at most; a lost completion only shows as a promise that never settles under a particular interleaving.",
  ["session/2_session_encrypted.ts", "client/2_client_encrypted.ts", "session/1_session.ts"],
  [["pending table (session)", "session/2_session_encrypted.ts"], ["request table (client)", "client/2_client_encrypted.ts"]]);

p("P09", "Everything that must be acknowledged is acknowledged, and only after acceptance",
  "Every answer, update, pong and new-session notice that was received and authenticated, and every answer that a notice of the server names, is queued for acknowledgement exactly once as soon as it is recognised, whether or not handling it then fails; nothing else is. Every message of a container is handled under its own identifier. Whatever is queued goes out with the next packet, which a periodic ping provides at the latest, and returns to the queue when that packet could not be sent or is reported as not received.",
  ["histories", "fault_sequences"], "every incoming message and every failure of an acknowledging packet",
  "No test runs the session against a server; a missing acknowledgement is invisible until the server redelivers.",
  ["session/2_session_encrypted.ts"],
  [["acknowledgement queue", "session/2_session_encrypted.ts: #toAcknowledge, #pendingAcks"], ["dispatch", "session/2_session_encrypted.ts: #onMessage, #onMessageContainer"]]);

p("P10", "Locks are always released",
  "Every critical section of the library is left unlocked on every way out of it: normal completion, early return, a thrown error and a rejected operation. A failure inside one holder therefore never blocks the operations that wait behind it.",
  ["schedules", "fault_sequences"], "every path through every critical section, every point at which an operation in it can fail",
  "The tests lock and unlock in straight lines; a path that keeps a lock needs a failure at a particular point.",
  ["utilities/1_mutex.ts", "connection", "storage", "client", "session"],
  [["mutex", "utilities/1_mutex.ts"], ["users", "every acquisition site found by the checker"]]);

p("P11", "Concurrent connection reads and writes never interleave",
  "On every connection kind, the bytes of one write reach the socket contiguously and in call order, a read delivers exactly the requested number of consecutive bytes, and both refuse to run on a connection that is not open. Bytes that arrive are handed out once and in order.",
  ["schedules", "fault_sequences"], "every interleaving of concurrent reads, writes and closes on every connection kind",
  "There are no tests with concurrent writers; interleaving needs a slow socket.",
  ["connection"],
  [["connections", "connection/*.ts: read, write"]]);

p("P12", "Each transport frames and obfuscates both directions consistently",
  "For each transport encoding, the decoder recovers exactly the payload the encoder framed, for every permitted payload size and in both the short and the long length form, and transport error codes are surfaced rather than delivered as data. The obfuscation handshake never produces a prefix that another protocol reserves, uses separate cipher states for the two directions derived as prescribed, and every byte after the handshake passes through them in order exactly once. Nothing is sent over a connection before its encoding was announced or its handshake was done.",
  ["inputs", "configurations"], "every payload size and every transport configuration",
  "Transport tests run fixed payloads through a loop-back; they do not cover length classes, random prefixes or both cipher directions against the protocol.",
  ["transport", "utilities/1_crypto.ts", "session/1_session.ts"],
  [["framing", "transport/*_abridged.ts, transport/*_intermediate.ts"], ["obfuscation", "transport/0_obfuscation.ts: getObfuscationParameters; utilities/1_crypto.ts: CTR"], ["initialization", "session/1_session.ts: connect, isConnected"]]);

p("P13", "Updates are applied in server order without gaps or duplicates",
  "An ordered update takes effect only if the locally recorded state of its event sequence does not already cover it; an update that was already applied is ignored, and one that skips ahead is not applied before the missing part has been asked for and processed. Batches with sequence numbers are applied only when they are exactly the next one. The recorded state only ever advances together with the update or difference that accounts for it, and a difference is processed whole, in the server's order, before the state it leads to is recorded.",
  ["histories", "schedules"], "every order, duplication and loss of incoming updates over the common, secret and per-channel sequences",
  "Ordering faults need specific reorderings from the server; no test feeds the update pipeline.",
  ["client/2_update_manager.ts"],
  [["sequence checks", "client/2_update_manager.ts"]]);

p("P14", "With guaranteed delivery, a crash never loses an update",
  "When guaranteed delivery is on, an ordered update is stored durably before the recorded sequence state moves past it, and the stored copy is removed only after the application's handlers have completed for it without failing. Updates left over from an earlier run are delivered again, in their original order, before newer ones of the same sequence.",
  ["crash_points", "histories"], "every crash point between receipt of an update and completion of its handlers",
  "Crash points cannot be enumerated by unit tests, and no test covers the stored-update queue with the update pipeline.",
  ["client/2_update_manager.ts", "client/0_storage_operations.ts"],
  [["stored updates", "client/2_update_manager.ts, client/0_storage_operations.ts"]]);

p("P15", "Every update the library claims to handle is routed and handled",
  "Each incoming update kind that a component announces it handles is actually dispatched to that component and leads it to a case made for that kind, and the kinds that carry ordering information are classified alike wherever the classification is used. Every kind of high-level update that can be produced can also be subscribed to and reaches the handlers.",
  ["inputs", "programs"], "every update constructor of the schema and every high-level update kind",
  "Most update kinds are never constructed in a test, and the lists, the type unions and the dispatch code are separate pieces of text.",
  ["client/2_update_manager.ts", "client/6_client.ts", "client/3_filters.ts", "client"],
  [["dispatch", "client/6_client.ts: #handleUpdate"], ["claims", "client/*_manager.ts: canHandleUpdate"]]);

p("P16", "Secret chats accept only safe key material",
  "A secret chat key is computed, adopted or replaced only from Diffie-Hellman parameters whose prime and generator passed the safety checks and from a peer value that lies in the range the protocol prescribes, and only when the key fingerprint the peer confirmed matches the computed key. On any mismatch the chat is closed or the exchange aborted, never continued with the new key.",
  ["inputs", "histories"], "every parameter set and every peer value, in the initial exchange and in every re-keying",
  "Tests would need a hostile peer or server; secret chats have no unit tests.",
  ["client/3_secret_chat_manager.ts", "client/0_password.ts"],
  [["key exchange", "client/3_secret_chat_manager.ts"]]);

p("P17", "Secret chat messages are delivered only if authentic, in order and not replayed",
  "A decrypted secret chat message has an effect only if its key fingerprint, message key, length and padding are valid for the chat's current or previous key and its sequence numbers are exactly those expected from the peer. Repeated messages are dropped, messages beyond a gap wait for the missing ones, and inconsistent numbers close the chat.",
  ["inputs", "histories"], "every ciphertext and every order of delivery, including replay and reflection",
  "Tests never deliver forged or reordered ciphertext.",
  ["client/3_secret_chat_manager.ts", "client/0_secret_chat_state.ts"],
  [["receive path", "client/3_secret_chat_manager.ts"]]);

p("P18", "Secret chat messages are encrypted with the chat key as prescribed",
  "Every outgoing secret chat message is encrypted under the chat's current key with the derivation, direction and padding of MTProto 2.0 for end-to-end encryption, carries the sequence numbers of its position in the conversation, and is numbered and persisted before it is handed to the server. Concurrent sends in one chat are serialised so that no two messages share a number.",
  ["schedules", "inputs", "crash_points"], "every interleaving of sends and every payload",
  "Needs concurrent sends and a reference peer; no test sends a secret message.",
  ["client/3_secret_chat_manager.ts", "client/0_secret_chat_state.ts"],
  [["send path", "client/3_secret_chat_manager.ts"]]);

p("P19", "Secret chat state survives a restart unchanged",
  "Whatever a secret chat has committed to storage is what the next run loads: every field written is read back under the same key into the same place, including absent values. Every operation that changes a chat commits the change before it finishes; sending and receiving messages do so also when they fail part-way.",
  ["crash_points", "histories"], "every reachable chat state and every exit of every operation on it",
  "The state has dozens of fields and no test for save and load; an omitted field shows only after a restart in a particular phase.",
  ["client/0_secret_chat_state.ts", "client/3_secret_chat_manager.ts"],
  [["save and load", "client/0_secret_chat_state.ts"]]);

p("P20", "Password sign-in never answers unsafe parameters and never reveals the password",
  "The two-step verification proof is computed as the SRP scheme of the API prescribes, from a fresh random exponent, and only for a supported algorithm, a known safe prime and generator, and a server value in the prescribed range. The password itself and its hash never leave the client.",
  ["inputs"], "every password, every set of parameters a server may send",
  "The tests check one fixed vector of building blocks; hostile parameters and the random part are not covered.",
  ["client/0_password.ts", "client/3_account_manager.ts"],
  [["proof", "client/0_password.ts: checkPassword"]]);

p("P21", "All storage backends behave alike",
  "For the same sequence of operations every storage backend gives the same answers: a written value is read back, writing nothing deletes, range and prefix queries return exactly the matching entries in order and direction with the requested limit, and counters are incremented atomically. A branch of a storage never sees, changes or counts the entries of another branch.",
  ["histories", "configurations"], "every operation sequence on every backend, every key and branch name",
  "Only two backends can run under the tests; browser backends and branch collisions are never executed.",
  ["storage"],
  [["backends", "storage/*.ts"]]);

p("P22", "The cache in front of storage never loses or hides a write",
  "In front of a storage that persists, a value that was set is what every later awaited read returns, whether it is still cached, waiting to be written, being written or already persisted, and a flush writes the latest value of every pending entry under its own key. A write made while a flush or a read of the storage is running is not lost, a failed flush reports its failure and keeps what it could not write unless something newer was set, and a storage is flushed before it is closed on disconnection.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of reads, writes, evictions and flushes, and every flush failure",
  "Needs cache eviction at 20,000 entries or a write during a flush; tests do neither.",
  ["client/0_storage_operations.ts"],
  [["write-behind cache", "client/0_storage_operations.ts: StorageMap, StorageValue"]]);

p("P23", "Exported identifiers and sessions are read back as they were written",
  "An exported session string and a serialised file identifier are decoded by reading exactly the fields that were encoded, in the same order, with the same types and the same conditions, for every account kind and every kind of file and photo source. Every file identifier the library makes has a type that is read back as the kind of location it was made with. A file identifier of an unknown version or with a photo source of an unknown kind is rejected.",
  ["inputs"], "every session and every file identifier the library can produce",
  "The tests cover one session string and a few file identifiers; each photo source and each optional part is a separate branch.",
  ["types/_file_id.ts", "client/0_storage_operations.ts"],
  [["file identifiers", "types/_file_id.ts"], ["session string", "client/0_storage_operations.ts"]]);

p("P24", "An upload delivers every byte once, under one identifier and part count",
  "Whatever the source, every part of an upload is sent exactly once per success under the same file identifier with consecutive indexes starting from zero, a failed part is retried a bounded number of times or fails the upload, and the result names the number of parts sent and uses the large-file form exactly when the large-file method was used. For encrypted files the cipher state is carried from each part to the next and the announced size is the size before padding.",
  ["inputs", "fault_sequences"], "every source kind and size, every pattern of part failures",
  "The tests do not run uploads against failing servers; the faults appear for particular sizes or failures.",
  ["client/2_file_manager.ts", "utilities/1_part_stream.ts"],
  [["upload", "client/2_file_manager.ts: upload"]]);

p("P25", "A download is ordered and complete, and a cache hit is the file asked for",
  "A download yields consecutive parts in order from the requested offset, stops only at the end of the file, and stops requesting when it is aborted or abandoned. What is kept in the cache is marked complete only after all its parts were stored, and a cached copy is only ever served for the very file and variant it was downloaded from.",
  ["schedules", "histories", "fault_sequences"], "every file location kind, every offset, every abort point",
  "Requires particular histories, such as downloading two variants of one photo or aborting midway; not covered by tests.",
  ["client/2_file_manager.ts", "client/0_storage_operations.ts"],
  [["download", "client/2_file_manager.ts: downloadInner"]]);

p("P26", "Operations restricted to an account kind are refused for the other kind",
  "Every client method that its documentation restricts to users or to bots fails with an input error, before any request is sent, when the signed-in account is of the other kind. A method that is not documented as restricted is not refused.",
  ["inputs", "programs"], "every public method and both account kinds",
  "There are hundreds of methods and no test for the restriction of any of them.",
  ["client/6_client.ts", "client"],
  [["restrictions", "client/*_manager.ts: assertUser/assertBot"]]);

p("P27", "A client in a worker behaves like a client",
  "Every operation of the client is available on its worker counterpart under the same name and reaches the operation of that name with exactly the arguments given, in order, and its result or failure comes back to the call that made it. Errors of every public kind arrive as the same kind with the same details.",
  ["programs", "schedules"], "every public operation, every argument list, every error kind, every interleaving of answers",
  "No test runs a worker; several hundred forwarding methods are separate text.",
  ["client/6_client_dispatcher.ts", "client/7_client_receiver.ts", "client/7_client_worker.ts", "client/0_worker_error.ts", "worker.ts"],
  [["forwarding", "client/6_client_dispatcher.ts"], ["errors", "client/0_worker_error.ts"]]);

p("P28", "Each server error is reported as the error class made for it",
  "An error answered by the server is always delivered as the most specific error class the library exports for it, chosen by the exact message or the parametrised prefix, with its code, message, parameter and the failed call. Every exported server error class is reachable by a message, and each message leads to the class whose name it spells.",
  ["inputs"], "every error message the server can answer",
  "Hundreds of classes are mapped by a table that no test walks through.",
  ["3_errors.ts", "4_errors.ts"],
  [["error table", "3_errors.ts: map"], ["construction", "4_errors.ts: constructTelegramError"]]);

p("P29", "Handlers run in registration order, at most once, and are awaited",
  "For every update, handlers run in the order they were registered, each at most once however often its predecessor calls on, a handler that does not call on stops the chain, and filtered handlers run exactly when their filter accepts, with the chain continuing behind them otherwise. A handler that calls on and waits is resumed only after the handlers behind it have completed, the chain completes only after the handlers it ran, and failures propagate to whoever delivered the update.",
  ["programs", "schedules"], "every composition of handlers, filters and branches, and every timing of their completion",
  "Tests use two or three synchronous handlers.",
  ["client/5_composer.ts", "client/4_context.ts", "client/3_filters.ts"],
  [["composition", "client/5_composer.ts"]]);

p("P30", "Secrets and nonces come from the system's secure random source, fresh each time",
  "Every key, nonce, exponent, padding, session identifier and message random identifier is drawn from the cryptographically secure generator of the platform at the time of use, with the full width its use requires. No predictable generator is used for any of them.",
  ["inputs", "histories"], "every draw of a random value in every run",
  "Randomness quality cannot be sampled by unit tests.",
  ["utilities", "client/1_client_plain.ts", "client/3_secret_chat_manager.ts", "session", "transport"],
  [["random source", "utilities/0_int.ts: getRandomInt, getRandomId; utilities/1_auth.ts: rsaPad; client/3_secret_chat_manager.ts; session/1_session.ts"]]);

p("P31", "A failure in background work never escapes unhandled",
  "Work that the library starts without waiting for it, such as loops, timers, event callbacks and fire-and-forget requests, handles its own failure, so that no such failure ends the host process as an unhandled rejection or stops unrelated work. Repeating work continues after a failed round until it is told to stop.",
  ["fault_sequences", "schedules"], "every asynchronous operation started without being awaited, every failure of it",
  "Needs a failure in each background task; tests run none of them against failing peers.",
  ["utilities/0_misc.ts", "client", "session", "connection"],
  [["detached work", "every promise-valued expression found by the checker"]]);

p("P32", "Every documented option has an effect",
  "Every option that an operation of the client documents and accepts reaches the request, storage access or decision it describes; none is silently ignored. The same option is translated to the same wire field in every operation that accepts it.",
  ["programs", "inputs"], "every option of every public operation",
  "There are several hundred options and almost none appears in a test; dropping one compiles because all are optional.",
  ["client/0_params.ts", "client"],
  [["options", "client/0_params.ts"], ["use", "client/*_manager.ts"]]);

p("P33", "Context shortcuts act on the update they belong to",
  "Every shortcut of a handler's context performs the client operation it is named after, on the chat, message, user or query of the update being handled, and passes on all arguments and options it was given. It fails when the update has no such subject instead of acting on another one.",
  ["inputs", "programs"], "every shortcut, every update kind, every argument list",
  "Tests construct no contexts for most shortcuts; over a hundred shortcuts are separate text.",
  ["client/4_context.ts"],
  [["shortcuts", "client/4_context.ts: Context"]]);

p("P34", "A proxied or disguised connection counts as open only after a verified handshake",
  "A connection through a SOCKS5 proxy or behind a disguised TLS handshake is reported open, and carries application data, only after every step of the handshake was answered as the protocol prescribes, including the authentication of a disguised server's answer. A refusal or malformed answer fails the attempt with an error and leaves the connection closed.",
  ["inputs", "fault_sequences"], "every answer of a proxy or server during the handshake",
  "No test runs a hostile or failing proxy.",
  ["connection"],
  [["SOCKS5", "connection/*socks5*"], ["disguised TLS", "connection/*tls*"]]);

p("P35", "Disconnecting stops everything",
  "After an explicit disconnect nothing that belongs to the connection keeps running: every loop and timer it started is stopped, pooled connections are closed too, nothing reconnects by itself, and cached state is flushed to storage before it is closed. Without an explicit disconnect, a lost connection is re-established.",
  ["schedules", "fault_sequences"], "every moment of disconnection relative to loops, reconnection attempts and pending work",
  "Needs a disconnect at a particular moment of a reconnect or loop round.",
  ["session/1_session.ts", "session/2_session_encrypted.ts", "client/2_client_encrypted.ts", "client/6_client.ts"],
  [["teardown", "client/6_client.ts: disconnect; session/1_session.ts: disconnect"]]);

p("P36", "Partial peer information never replaces full information",
  "Information about a user or chat that the server marks as minimal never overwrites the access data or profile recorded from full information, and access data is only ever used together with the peer it was received for. Full information always updates what is recorded, including every active username.",
  ["histories"], "every order of full and minimal descriptions of a peer",
  "Requires particular sequences of server answers.",
  ["client/2_update_manager.ts", "client/0_storage_operations.ts", "client/6_client.ts"],
  [["peer processing", "client/2_update_manager.ts: processUsers, processChats"]]);

p("P37", "Requests go to the right data centre with valid authorization",
  "A request is sent on the connection its kind and data centre call for; a connection to another data centre is used only after authorization has been imported to it, and a request that failed because such authorization is missing is repeated after importing it. A migration answer moves the account to the data centre it names before the request is repeated.",
  ["fault_sequences", "configurations"], "every data centre, request kind and migration or authorization failure",
  "Needs several data centres and authorization failures; no test covers them.",
  ["client/6_client.ts", "transport", "client/3_account_manager.ts"],
  [["client selection", "client/6_client.ts: #getClient, #setupClient, #importAuthorization"]]);

// Properties that this family cannot decide here (listed under not_applicable).
p("P38", "Formatted text survives parsing and rendering",
  "For every text and every set of nested formatting, rendering it to HTML or Markdown and parsing the result gives the same text and the same formatting, with offsets counted in UTF-16 units. Malformed markup is rejected with an input error.",
  ["inputs"], "every text and every formatting",
  "The tests cover a few dozen strings.",
  ["client/0_html.ts", "client/0_markdown.ts"],
  [["parsers", "client/0_html.ts, client/0_markdown.ts"]]);

p("P39", "Numeric building blocks compute what they claim",
  "Modular exponentiation, factorisation, integer-to-bytes conversion, run-length coding and base64 conversion return the mathematically specified result for every operand of the permitted range, and terminate.",
  ["inputs"], "every operand",
  "The tests cover selected operands.",
  ["utilities/0_math.ts", "utilities/0_int.ts", "utilities/0_rle.ts", "utilities/1_base64.ts"],
  [["arithmetic", "utilities/*.ts"]]);

p("P40", "Flow control keeps memory and request rates bounded",
  "Whatever the server sends and however fast the application produces, queues, caches and pending tables stay within a bound, and waits demanded by the server are respected before a request is repeated.",
  ["histories", "schedules"], "every load and every server pacing",
  "Load is not exercised by unit tests.",
  ["client", "session", "utilities/1_queue.ts"],
  [["queues", "utilities/1_queue.ts"]]);

module.exports = out;
