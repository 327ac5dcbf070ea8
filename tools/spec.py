# Properties, worlds and checks of this framework (read by gen.py).
SESSION_REAL = ["msg (Encrypt, Decrypt, header and session handling)", "msg/session/memstore", "uid (message and KeyInit keys)", "cipher, encode/base64, util/times"]
WORLDS = {
 "session": {"name": "session", "rule": "2-3 parties converse over an adversarial transport; each run draws key-batch size, average session size, fault rates, delivery order and 4-40 operations (send, deliver, tamper, duplicate, drop, advance time, 1-100 h); every store call may fail or crash; then faults stop, everything in flight is delivered and all directions are exercised twice. Non-trivial: at least one message was sent and the property evaluated.",
   "real": SESSION_REAL, "stub": ["transport (in-memory, adversarial)", "clock (testing/synctest)", "randomness (seeded)", "session store failures (wrapper that fails or crashes before a call)"]},
 "sessiondb": {"name": "sessiondb", "rule": "as session, with every party's sessions kept by the real cryptengine session store over the real encrypted keydb (sqlcipher) database.",
   "real": SESSION_REAL + ["cryptengine session store", "keydb", "encdb", "sqlcipher"], "stub": ["transport", "clock", "randomness", "session store failures"]},
}
PROPS = []
def prop(**k): PROPS.append(k)

prop(id="C01", title="Messages decrypt to what was sent under any interleaving",
 statement="Every message that a user encrypts for a contact and that reaches the contact unmodified decrypts to exactly the sent content, attributed to the sending identity and with the signature status the sender chose. This holds for any number of parties, any interleaving of sends in both directions and any order, delay or loss of other messages (up to the limit of about 300 consecutive missing messages), across session establishment, renewal and key batches being extended on demand.",
 over=["schedules", "histories", "inputs"], qtext="all interleavings of encrypt/deliver/lose/reorder/delay between parties, all key batch and session sizes, both store implementations",
 why="TestEncrypt*/session tests in msg (which do not build in this checkout) send a fixed alternating sequence in order; no test reorders, loses or crosses messages or uses the database-backed store.",
 files=["msg/encrypt.go", "msg/decrypt.go", "msg/session/session.go", "cryptengine/keystore.go", "keydb/session.go"],
 mech=[("root key agreement and message key derivation", "msg/keys.go"), ("session state machine", "msg/encrypt.go, msg/decrypt.go"), ("stored message keys", "keydb/session.go")],
 observe=["msg.Encrypt / msg.Decrypt results"],
 worlds=["session", "sessiondb"], note="Seeded search over message schedules with the real protocol code over both stores; the oracle is equality with the plaintext, sender and signature flag recorded at send time. Not exhaustive.")
prop(id="C02", title="Damaged, replayed or misdelivered messages are never accepted",
 statement="A message whose encrypted form was altered in any way in transit, that was already decrypted before, or that is delivered to someone other than its recipient is rejected with an error: it is never accepted as a message or attributed to a sender, never brings the receiver down and never prevents the unaltered messages from being read afterwards.",
 over=["inputs", "histories", "fault_sequences"], qtext="all alterations (bit flips, truncation, splices, block swaps), replays and misdeliveries at any point of any conversation",
 why="Existing tests decrypt only well-formed messages once; the tamper space and its interaction with session state is unbounded.",
 files=["msg/decrypt.go", "msg/header.go", "msg/encrypt.go"],
 mech=[("HMAC over the whole message", "msg/decrypt.go"), ("message key is deleted after use", "msg/decrypt.go"), ("header authentication by nacl box", "msg/header.go")],
 observe=["msg.Decrypt error", "later decryptions"],
 worlds=["session", "sessiondb"], note="Seeded adversarial transport; every damaged, replayed or misdelivered copy must be rejected without panic and intact messages must still decrypt. The padding bits of the base64 layer and the top bit of the ephemeral Curve25519 key, which belong to neither encoding, are not altered.")
prop(id="C03", title="Message keys are used once and erased after use",
 statement="No message key ever encrypts two released messages, and once a message has been sent or successfully decrypted its key can no longer be obtained from the key store. This holds across crashes, storage errors and retries at any point.",
 over=["histories", "crash_points", "fault_sequences"], qtext="all conversations with crashes and storage errors before any store operation",
 why="Tests never inspect the store after use and never interrupt an operation.",
 files=["msg/encrypt.go", "msg/decrypt.go", "keydb/session.go", "msg/session/memstore/memstore.go"],
 mech=[("sender message count advanced before release", "msg/encrypt.go"), ("DelMessageKey", "keydb/session.go, msg/session/memstore/memstore.go")],
 observe=["session store contents after each operation"],
 worlds=["session", "sessiondb"], note="The key used for each message is observed at the store interface; erasure is checked through the same store. Residual copies in process memory or in free database pages are out of scope.")
prop(id="C04", title="Interrupted encryption or decryption never wedges a conversation",
 statement="If encrypting or decrypting a message is interrupted by a storage error or a crash at any point, repeating the operation afterwards succeeds: the undelivered message can still be decrypted from its stored ciphertext, later messages in both directions still work, and nothing panics.",
 over=["crash_points", "fault_sequences", "histories"], qtext="a crash or error before every store call of every operation of every conversation",
 why="No test injects a storage failure or stops between two store calls.",
 files=["msg/encrypt.go", "msg/decrypt.go", "msg/session/session.go", "cryptengine/keystore.go"],
 mech=[("order of state update, key deletion and output", "msg/encrypt.go, msg/decrypt.go")],
 observe=["results of repeated and later operations"],
 worlds=["session", "sessiondb"], note="Crash points are the boundaries between store calls (each call is a database transaction in the real store).")

WALLET_REAL = ["serviceguard/client (all token, reissue, wallet, runner and online/offline code)", "serviceguard/client/walletstore over sqlcipher", "guardrpc, walletrpc, keylookup RPC clients", "serviceguard/common (keypool, keydb, signkeys, token, types, walletauth)", "util/jsonclient"]
WORLDS["wallet"] = {"name": "wallet", "rule": "one wallet with 1-2 token usages and 2 contacts; 1-3 concurrent users obtain, spend or give back tokens while housekeeping, prefetching and going offline/online run; a seeded scheduler switches at every SQL statement, RPC send/reply and lock. Network requests and replies are lost or malformed, servers fail, statements fail, the process crashes at any step and restarts on the durable database. Then faults stop, everything finishes and the account is balanced. Non-trivial: at least one token was debited and the property evaluated.",
   "real": WALLET_REAL, "stub": ["wallet server, issuer and key lookup server (simulated, with the real blind-signature library)", "HTTP transport", "clock", "randomness", "locks (scheduler-aware)", "SQL driver wrapper (disk errors, crash = open transactions roll back)"]}
prop(id="C05", title="Paid tokens are conserved: none is lost, none is invented",
 statement="Every service token the account was charged for ends up either used by its user or usable in the wallet, exactly once, whatever requests or replies are lost or garbled, whatever storage operation fails and wherever the program crashes and restarts, once faults stop and the client has resumed its work. The wallet never keeps offering a token that was already consumed or that the issuer does not accept.",
 over=["histories", "fault_sequences", "crash_points", "schedules"], qtext="all interleavings of token users, prefetching, housekeeping and restarts, with any network, server and storage faults",
 why="The wallet tests need live servers (or do not build here); none injects a fault, loses a reply or restarts, and conservation is a statement about the whole history.",
 files=["serviceguard/client/clientlib.go", "serviceguard/client/reissue.go", "serviceguard/client/walletserver.go", "serviceguard/client/walletstore/store.go"],
 mech=[("wallet call with cached auth token", "serviceguard/client/walletserver.go"), ("two-phase reissue and stored parameters", "serviceguard/client/reissue.go"), ("atomic token state changes", "serviceguard/client/walletstore/store.go")],
 observe=["debits at the simulated wallet server", "tokens in the wallet database", "token spends"],
 worlds=["wallet"], note="Seeded search over schedules, faults and crash points with the real client code over a real encrypted database; the oracle is a ledger kept by the simulated servers. At most three replies to the same wallet authentication token are lost, the limit the client is designed for.")
prop(id="C06", title="A token is handed out to one user at a time and never reused",
 statement="A token the wallet hands out belongs to the requested usage and owner, is accepted by the issuer, and is not handed out, reissued or spent again while it is held or after it was consumed. This holds for concurrent requests, background reissues, restarts and failed operations.",
 over=["schedules", "histories", "fault_sequences"], qtext="all interleavings of users, background work, faults and restarts",
 why="No test runs two users of the wallet concurrently or restarts it between handing out and deletion.",
 files=["serviceguard/client/clientlib.go", "serviceguard/client/walletstore/store.go", "serviceguard/client/reissue.go"],
 mech=[("token locks", "serviceguard/client/walletstore/store.go"), ("GetToken / UnlockToken / DelToken", "serviceguard/client/clientlib.go")],
 observe=["results of GetToken", "reissue requests at the simulated issuer"],
 worlds=["wallet"], note="Every hand-out, reissue and spend is compared with the ledger of the simulated issuer at the time it happens.")
prop(id="C07", title="The wallet keeps working after any fault",
 statement="Whatever servers answer and whichever network, storage or process failures occur, no wallet operation panics, blocks for ever or reports success without a token. Once faults stop and the account has funds, every requested usage and owner can be served with a valid token, and going offline and online again returns promptly.",
 over=["fault_sequences", "schedules", "inputs"], qtext="all malformed or missing replies, failures and restarts at any point, then recovery",
 why="Error paths of the RPC clients and store are not reached by any test, and liveness after recovery is not testable by example.",
 files=["serviceguard/client/clientlib.go", "serviceguard/client/runner.go", "serviceguard/client/walletserver.go", "serviceguard/client/guardrpc/guardrpc.go", "serviceguard/client/walletrpc/walletrpc.go"],
 mech=[("error classification and retry", "serviceguard/client/clientlib.go"), ("runner", "serviceguard/client/runner.go")],
 observe=["results of client calls after faults stop"],
 worlds=["wallet"], note="Liveness is bounded: 5000 scheduler steps for running operations, four attempts per usage and owner, and one hour of simulated time for GoOffline after faults stop.")
prop(id="C08", title="Only genuine tokens, keys and servers are accepted",
 statement="The wallet accepts a token from outside only if it is intact, unexpired, signed with a key of an issuer certified by the trust root, meant for the requested usage and owned by this wallet, and not yet stored; a genuine token is accepted. Nothing a lookup server, issuer or peer sends makes it use an uncertified or altered key, and it only talks to servers certified by the configured authority.",
 over=["inputs", "fault_sequences", "histories"], qtext="all forged, altered, replayed or foreign tokens, keys and key lists at any point of any wallet history",
 why="The verification code needs live servers in the existing tests; forged inputs are not tried at all.",
 files=["serviceguard/client/verify.go", "serviceguard/client/receive.go", "serviceguard/client/keylookup/impl.go", "serviceguard/common/keypool/generator.go", "serviceguard/common/signkeys/keys.go", "util/jsonclient/jsonclient.go"],
 mech=[("token verification", "serviceguard/client/verify.go"), ("key admission", "serviceguard/common/keypool/generator.go loadKey"), ("verify key list signature", "serviceguard/client/keylookup/impl.go"), ("TLS root", "util/jsonclient/jsonclient.go")],
 observe=["result of ReceiveToken", "TLS configuration of every request"],
 worlds=["wallet"], note="Adversarial tokens (nine kinds), lookup replies (ten kinds) and key lists (five kinds) are injected at seeded points; forging a signature itself is assumed infeasible.")

WORLDS["keypool"] = {"name": "keypool", "rule": "two key issuers and a verifier, each with a key database, a key directory or both (some shared), 1-4 concurrent operations out of: current key, lookup, load a genuine or forged key, load the storage, save a key, trust a signer; key lives of 10 s to 30 days and time passing in steps of 1-130 % of it; a seeded scheduler switches at every SQL statement, file operation, request and lock. Statements and file operations fail or are cut short, requests are lost, the key server's replies are forged, processes crash and lose unsynced data. Non-trivial: a key was handed out and the property evaluated.",
   "real": ["serviceguard/common/keypool, keypool/keydb, keypool/keydir, signkeys", "database/sql with sqlcipher"], "stub": ["key server connection", "clock", "randomness", "locks (scheduler-aware)", "SQL driver and file system wrappers"]}
prop(id="C09", title="Signing keys are renewed in time, durable and never replaced by others",
 statement="A key pool hands out a signing key only with at least half of its life ahead and after every storage holds it; a new one is made only when half of its predecessor's life has passed, and the predecessor stays available. Every key handed out can be looked up by every pool on the same storage until it expires, whatever fails and wherever it crashes. No lookup or load yields an expired key, another key than the requested one, or one that is altered, for another usage or not signed by a trusted signer.",
 over=["schedules", "histories", "crash_points", "fault_sequences", "inputs"], qtext="all interleavings of users of several key pools over shared storage with any forged keys, any passing of time, storage faults and crashes",
 why="The keypool tests (which partly do not build) generate and look up one key in sequence; none passes time, forges a key, fails a write or runs two users.",
 files=["serviceguard/common/keypool/generator.go", "serviceguard/common/keypool/keydb/dbstorage.go", "serviceguard/common/keypool/keydir/filestorage.go", "serviceguard/common/signkeys/keys.go"],
 mech=[("renewal and lookup", "serviceguard/common/keypool/generator.go Current, Lookup, loadKey"), ("key identity and signature", "serviceguard/common/signkeys/keys.go"), ("storage", "keypool/keydb/dbstorage.go, keypool/keydir/filestorage.go")],
 observe=["results of Current, Lookup, LoadKey and Load", "keys known to a fresh pool on each storage"],
 worlds=["keypool"], note="Seeded search; the oracle is the set of keys handed out and issued, compared field by field. The clock does not go backwards.")

STORE_REAL = ["encdb (key file, create, open, rekey)", "sqlcipher database engine"]
STORE_STUB = ["SQL driver wrapper (disk errors before and crashes before/after every statement, transaction and commit)", "os and ioutil wrapper (full disk, short writes, errors and crashes around every file operation, unsynced data torn or lost by a crash)", "randomness (seeded)"]
WORLDS["msgdb"] = {"name": "msgdb", "rule": "one encrypted message database with 1-3 own nyms and 1-3 contacts; 40-200 operations of its whole interface (nyms, contacts, accounts, messages, out and in queue, message ID caches, values, vacuum, upkeep, passphrase changes, restarts), each of which a disk error or crash may hit at any statement, commit or file operation. Non-trivial: the property was evaluated.",
   "real": ["msgdb"] + STORE_REAL, "stub": STORE_STUB}
prop(id="C23", title="Database operations are all-or-nothing and survive crashes",
 statement="Every operation on the local databases either takes effect completely or not at all, whatever disk error or crash interrupts it (a failed read is reported, never taken for missing data), an operation reported as successful is still there after a crash and restart, and one reported as failed without any fault changed nothing. After every crash the databases open again with the same passphrase and contain exactly what the completed operations put there.",
 over=["crash_points", "fault_sequences", "histories"], qtext="every history of database operations with a disk error or crash at any statement, commit or file operation",
 why="The database tests run each operation once on a working disk; none fails or interrupts one.",
 files=["msgdb/msgdb.go", "msgdb/outqueue.go", "msgdb/inqueue.go", "msgdb/messages.go", "keydb/keydb.go", "keydb/session.go", "encdb/encdb.go"],
 mech=[("multi-statement operations as transactions", "msgdb/outqueue.go, msgdb/inqueue.go"), ("key file written before use and replaced atomically", "encdb/encdb.go")],
 observe=["complete contents of the database through its interface"],
 worlds=["msgdb"], note="After an interrupted operation the database must equal the reference model before or after it. Atomicity of a single SQL transaction on disk is sqlcipher's and is trusted: a crash loses exactly the uncommitted transactions.")
prop(id="C24", title="Databases are encrypted and a passphrase change never locks out",
 statement="At every moment, including after any crash or disk error during creation or a passphrase change, exactly one passphrase opens a database: the old one until a change takes effect and the new one afterwards. No other passphrase opens it, a change with a wrong old passphrase has no effect, and nothing stored in it can be found in plain text in its files.",
 over=["crash_points", "fault_sequences", "histories"], qtext="all histories of passphrase changes and other operations, with crashes, torn writes and disk errors at any file operation",
 why="Existing tests change the passphrase once without any fault and never look at the files.",
 files=["encdb/encdb.go", "encdb/keyfile.go", "msgdb/msgdb.go", "keydb/keydb.go"],
 mech=[("key file replaced by rename", "encdb/encdb.go"), ("key derivation and authentication of the key file", "encdb/keyfile.go")],
 observe=["opening the database with every passphrase used so far", "bytes of the database files"],
 worlds=["msgdb"], note="Power loss keeps any prefix of data written but not synced; renames are durable and atomic. The strength of the key derivation and cipher is assumed.")
prop(id="C25", title="The message store returns exactly what was put into it",
 statement="Whatever sequence of operations is applied, the message database returns for every own nym exactly the contacts, accounts, messages, queue entries, caches and settings that the sequence put there, queues first in first out, and messages under their own number with the right direction, date and state. Operations on one nym never change or reveal what belongs to another, and deleting a nym removes all of its data.",
 over=["histories", "inputs"], qtext="all sequences of operations over several nyms and contacts",
 why="The msgdb tests check one operation each on a single nym; agreement with a model over arbitrary histories is not tested.",
 files=["msgdb/messages.go", "msgdb/contacts.go", "msgdb/nyms.go", "msgdb/accounts.go", "msgdb/outqueue.go", "msgdb/inqueue.go", "msgdb/msgdb.go"],
 mech=[("schema with foreign keys and unique indices", "msgdb/msgdb.go"), ("queries", "msgdb/*.go")],
 observe=["every read operation of msgdb"],
 worlds=["msgdb"], note="Refinement against an executable reference model after each seeded operation; also run with faults and restarts in between.")
WORLDS["keydb"] = {"name": "keydb", "rule": "one encrypted key database with the session store on top of it (one run in ten: the in-memory session store); 40-200 operations of the whole interface (session states, sessions, message keys, session keys, own and foreign UIDs, key inits, hash chain entries, values, passphrase changes, restarts), each of which a disk error or crash may hit at any statement, row, commit or file operation. Non-trivial: the property was evaluated.",
   "real": ["keydb", "cryptengine session store", "msg/session/memstore", "uid"] + STORE_REAL, "stub": STORE_STUB}
for p in PROPS:
    if p["id"] in ("C23", "C24"): p["worlds"] = ["msgdb", "keydb"]
prop(id="C26", title="The key store returns exactly the keys and states stored",
 statement="Whatever sequence of operations is applied, the key store returns for every session exactly the root, chain and message keys stored for it under their own index and direction, deleted message and private session keys never again, and for every session pair its latest state. Own and foreign identities, key inits and hash chain entries come back unchanged: the newest own UID, the newest foreign UID at or below the asked position, and the chain of the asked domain only.",
 over=["histories", "inputs"], qtext="all sequences of operations over several sessions, identities and domains, both store implementations",
 why="The keydb and memstore tests store and read one item each; agreement with a model over arbitrary histories, growing sessions and several identities is not tested.",
 files=["keydb/keydb.go", "keydb/session.go", "keydb/sessionkey.go", "keydb/sessionstate.go", "cryptengine/keystore.go", "msg/session/memstore/memstore.go"],
 mech=[("session key batches with offsets", "keydb/session.go"), ("newest-first queries", "keydb/keydb.go"), ("session store interface", "msg/session/session.go")],
 observe=["every read operation of keydb and of the session store"],
 worlds=["keydb"], note="Refinement against an executable reference model after each seeded operation, also with disk errors, crashes and restarts in between. Disk errors in HasSession, which cannot report them, are not injected; CleanupSessionKeys is not implemented for the database store and is not called anywhere.")
WORLDS["config"] = {"name": "config", "rule": "one signing authority, 1-4 configuration servers with priorities and one client over 2-14 updates; servers are honest, dead, stalled, cut connections, send garbage, forged configurations (12 kinds), replays of older ones or wrong CA certificates (8 kinds); the authority's clock may be off, the client restarts from its stored configuration. Non-trivial: at least one update was tried.",
   "real": ["configclient", "configclient/sortedmap, roundrobin, cahash", "def.InitMute", "net/http client (timeouts, bodies)"], "stub": ["HTTP transport and configuration servers", "signing authority", "clock (testing/synctest)", "randomness (seeded)"]}
prop(id="C13", title="Only the authority's current configuration is ever put in force",
 statement="Whatever configuration servers send, a client only puts a configuration and CA certificate in force that the configuration authority signed, whose signature is at most four hours off its clock and never older than one accepted before; a failed update leaves everything as it was. An update succeeds whenever one of the listed servers is reachable and honest, servers are asked in order of priority, an unresponsive one only costs its timeout, and nothing a server sends crashes the client.",
 over=["inputs", "fault_sequences", "histories"], qtext="all sequences of updates with any mix of honest, dead, slow and malicious servers, clock errors and restarts",
 why="The existing tests need a live server; neither forged nor replayed configurations, nor failing servers are tested.",
 files=["configclient/client.go", "configclient/sortedmap/signedmap.go", "configclient/sortedmap/map.go", "configclient/cahash/hash.go", "configclient/roundrobin/roundrobin.go", "def/def.go"],
 mech=[("signature, date and rollback check", "configclient/sortedmap/signedmap.go"), ("server loop and CA certificate check", "configclient/client.go"), ("settings taken over", "def/def.go InitMute")],
 observe=["configclient.Config after every Update", "package settings after InitMute"],
 worlds=["config"], note="Seeded search over server behaviour, clocks and restarts; every accepted configuration is compared with what the simulated authority signed.")
WORLDS["mix"] = {"name": "mix", "rule": "1-3 mixes that rotate and store their keys, 1-3 receiving nyms and senders over 10-60 operations: time passes, addresses are made, messages created, submitted and relayed, mixes crash while storing a key or lose power, an adversary alters statements, mails, addresses and deliveries, replays and redirects mail, and senders violate the protocol. Non-trivial: a key was announced or a message relayed.",
   "real": ["mix/mixaddr (key list, maintenance, statements)", "mix/nymaddr", "mix/mixcrypt", "mix/client (create, deliver, mail encoding)", "mix/smtpclient"], "stub": ["SMTP connection and mail server", "the mix's own server loop and uniqueness store (harness)", "file system faults (os wrapper)", "clock (testing/synctest)", "randomness (seeded)"]}
prop(id="C14", title="Mix keys stay usable until they expire, and not longer",
 statement="Every key a mix announces can be used to read messages until the announced expiry, also after a crash or power failure at any point, and never afterwards; a running mix always announces all its unexpired keys and one younger than its renewal period, and erases expired ones. The announcement verifies for clients, and any alteration of it after signing is detected.",
 over=["crash_points", "fault_sequences", "schedules", "inputs"], qtext="all histories of key rotation with crashes, torn writes and disk errors at any file operation, and all alterations of statements",
 why="The mixaddr tests call each function once without passing time, storage failure or restart, and do not build in this checkout.",
 files=["mix/mixaddr/privkey.go", "mix/mixaddr/addrlist.go"],
 mech=[("key rotation and storage", "mix/mixaddr/privkey.go AddKey, saveKeys, Maintain"), ("expiry", "mix/mixaddr/privkey.go expire, GetPrivateKey"), ("signed statement", "mix/mixaddr/addrlist.go")],
 observe=["KeyList.GetStatement, GetPrivateKey, GetKeyEntry", "AddressStatement.Verify, AddStatement"],
 worlds=["mix"], note="A restarted mix loads the newest intact key file, as an operator would. Times are checked with the 10 s granularity of the maintenance loop.")
prop(id="C15", title="Mixes deliver each message unaltered, once, to its nym only",
 statement="A message created for a nym address is relayed by the mix of that address to exactly the mailbox behind it while the address is valid, and only its owner can read it there, unaltered and attributed to the right nym. Anything altered, cut, redirected, expired or of a wrong size is refused at the mix or the receiver, whoever altered it, without crashing either; a repeated message or a second use of a single-use address is always recognisable, and neither address nor mail reveals the receiver or content.",
 over=["inputs", "histories", "fault_sequences"], qtext="all messages, addresses, mixes and times, with an adversary altering, replaying, redirecting and forging at any point",
 why="The existing tests send one well-formed message through one mix (and do not build here).",
 files=["mix/mixcrypt/clientmix.go", "mix/mixcrypt/mixclient.go", "mix/mixcrypt/envelope.go", "mix/nymaddr/addr.go", "mix/nymaddr/crypt.go", "mix/client/send.go", "mix/client/io.go"],
 mech=[("address creation and parsing", "mix/nymaddr/addr.go"), ("message header, size and uniqueness data", "mix/mixcrypt/clientmix.go"), ("delivery and reading", "mix/mixcrypt/mixclient.go")],
 observe=["mixcrypt.ReceiveMessage, Send, ReceiveFromMix", "nymaddr.NewAddress, ParseAddress"],
 worlds=["mix"], note="The mix server itself is not in this repository; the harness keeps its uniqueness store as documented. Whether a single alteration is refused is decided for the alterations drawn; the strength of the ciphers is assumed.")
prop(id="C16", title="A message counts as sent exactly when the mix accepted it",
 statement="Submitting a message to a mix reports success only if the mail server accepted it and, unless the reply to the message itself was lost, whenever it did; a temporary failure leaves it unchanged for a later attempt that can succeed, and only a permanent rejection makes it fail for good. With a configured authority it is sent only over a connection protected by a certificate of that authority, to the mix of its address and nowhere else, and a message sent once is never submitted again.",
 over=["fault_sequences", "histories"], qtext="every failure of the mail dialogue at every stage, in any sequence of attempts",
 why="The smtpclient tests need a live mail server; failures in the middle of the dialogue are not tested.",
 files=["mix/smtpclient/client.go", "mix/client/send.go", "mix/client/errors.go"],
 mech=[("mail dialogue and error classification", "mix/smtpclient/client.go"), ("resend state", "mix/client/send.go Deliver, Marshal")],
 observe=["MessageOutput after Deliver", "the mail server's queue"],
 worlds=["mix"], note="Failures are injected at connect, STARTTLS, MAIL, RCPT, DATA and QUIT: connection resets, 4xx and 5xx replies, lost replies, missing TLS and foreign certificates.")

WORLDS["chain"] = {"name": "chain", "rule": "two users with their own key databases and two key servers; 8-30 (thorough: up to 70) operations: mutecrypt commands of the users (hash chain sync, validate, search, lookup, show, delete; UID generate, update, register, delete; key init add, fetch, flush) and registrations, updates and key changes at the servers. Requests and replies are lost, delayed or malformed, the disk fails or fills, the program crashes or loses power at any operation; in two of three runs the key servers also lie (about 50 kinds of wrong replies and published entries). Then faults and lies stop and the users synchronise, register and exchange a message. Non-trivial: more than eight commands ran.",
   "real": ["cryptengine (complete mutecrypt program)", "keydb, encdb over sqlcipher", "keyserver/hashchain", "uid", "msg, session store", "util/jsonclient, configclient settings"], "stub": ["key servers", "HTTP transport", "process start, files and passphrase descriptors", "clock (testing/synctest)", "randomness (seeded)", "SQL driver and os wrappers (disk errors, crashes)"]}
prop(id="C11", title="The local copy of a key server's hash chain is append-only",
 statement="The local copy of a key server's hash chain only ever grows at its end, without gaps, by what the server delivered for those positions: nothing a server replies and no fault or crash changes, removes or repeats a stored entry or brings the program down. Synchronisation reports success only if the copy reaches the announced position, and completes once faults stop; validation accepts exactly the copies in which every entry is linked to its predecessor and the user's own registrations are recorded as confirmed.",
 over=["inputs", "histories", "crash_points", "fault_sequences"], qtext="all sequences of hash chain commands with any mix of honest and lying key servers, network and disk errors, and crashes at any operation",
 why="Existing tests check a fixed valid chain; no test talks to a lying server, fails a write or interrupts a synchronisation.",
 files=["cryptengine/hashchain.go", "keydb/keydb.go", "keyserver/hashchain/hashchain.go", "cryptengine/start.go"],
 mech=[("synchronisation", "cryptengine/hashchain.go syncHashChain"), ("validation", "cryptengine/hashchain.go validateHashChain"), ("storage", "keydb/keydb.go AddHashChainEntry")],
 observe=["Hashchains table of the key database after every command", "exit status and output of mutecrypt"],
 worlds=["chain"], note="Each command runs as a simulated process of the real program; the stored copy is compared with the model after every command. Concurrent commands of one user are not simulated here.")
prop(id="C12", title="Only identities the hash chain commits to are stored and used",
 statement="A foreign identity enters the key database only if it is the one asked for, well-formed, correctly self-signed, committed to by the hash chain entry at its position and delivered under a valid signature of the key server; a key init message only if it is unexpired, meant for the identity's domain and signed with its key. Registering an identity or adding a key init message succeeds only with a valid confirmation of the key server, and whatever servers reply nothing crashes; once faults stop, honest servers' identities can be found, registered and written to.",
 over=["inputs", "histories", "crash_points", "fault_sequences"], qtext="all sequences of identity commands with any mix of honest and lying key servers, network and disk errors, and crashes at any operation",
 why="Existing tests check single well-formed messages; forged replies, wrong commitments and interrupted commands are not tested.",
 files=["cryptengine/hashchain.go", "cryptengine/uid.go", "cryptengine/keyinit.go", "uid/uid.go", "uid/reply.go", "uid/keyinit.go"],
 mech=[("search and lookup", "cryptengine/hashchain.go"), ("registration", "cryptengine/uid.go"), ("key init messages", "cryptengine/keyinit.go"), ("message checks", "uid/*.go")],
 observe=["PublicUIDs, PublicKeyInits and PrivateKeyInits tables after every command", "exit status of mutecrypt"],
 worlds=["chain"], note="Independent reference checks (JSON canonicalisation, ed25519, hash chain commitments) judge everything the program stores. Forging a signature or hash collision is assumed infeasible; the chain of user signatures between versions of an identity is not verified by the code (a documented TODO) and not claimed.")

WORLDS["mute"] = {"name": "mute", "rule": "the complete system: 2-3 users with 2-4 nyms, each with their own databases and wallet, whose mutectrl commands (msg add, send, fetch, list, read, delete; contact add, edit, remove, block, unblock, list; uid new, edit, switch, list, delete; upkeep all, accounts, fetchconf, hashchain; db rekey, vacuum, version; some in offline mode or for nyms which the user does not have) start mutecrypt and muteproto as simulated processes, plus the servers; 8-24 (thorough: up to 60) steps, among them whole conversations, time passing, mails relayed in any order and bad mails (noise, copies, altered copies, replays, sealed garbage). Most runs inject a fault into commands: any statement, file operation, process start or request fails, a process is killed or the computer loses power before or after it; mails are refused, deferred or their acknowledgement lost. Then faults stop, everyone sends and fetches. Non-trivial: at least one message arrived.",
   "real": ["ctrlengine (complete mutectrl program)", "cryptengine (complete mutecrypt program)", "protoengine (complete muteproto program)", "msgdb, keydb, encdb, walletstore over sqlcipher", "msg, uid, mix/client, mix/mixcrypt, mix/nymaddr, mix/mixaddr, mix/smtpclient", "serviceguard/client", "configclient, def"], "stub": ["key server, wallet server, issuers, account server, configuration server, mix server loop", "HTTP and SMTP transport", "process start, pipes, files and passphrase descriptors", "clock (testing/synctest)", "randomness (seeded)", "SQL driver and os wrappers (disk errors, crashes)"]}
prop(id="C18", title="Messages between users arrive exactly once, complete and unaltered",
 statement="A message a user adds for a contact arrives at that contact exactly once, with exactly its content, under its true sender, recipient and time, and nothing arrives that nobody wrote. This holds across all programs and servers involved and whatever interruptions, lost replies, disk errors or restarts happen on either side, as soon as both sides send and fetch again without faults.",
 over=["histories", "crash_points", "fault_sequences", "schedules"], qtext="all conversations between several users with any interruption of any command on either side, any order of relaying, any faults and repetitions",
 why="The only end-to-end test (mutegenerate/test scripts) needs live servers; no test passes a message through all programs or interrupts one of them.",
 files=["ctrlengine/msg.go", "msgdb/messages.go", "msgdb/outqueue.go", "msgdb/inqueue.go", "cryptengine/encrypt.go", "cryptengine/decrypt.go", "protoengine/create.go", "protoengine/deliver.go", "protoengine/fetch.go"],
 mech=[("outqueue and inqueue", "ctrlengine/msg.go procOutQueue, procInQueue"), ("message ID cache", "ctrlengine/msg.go muteprotoFetch, msgdb"), ("encryption and envelopes", "cryptengine, protoengine")],
 observe=["message databases of sender and recipient after every command", "mails at the mix and mailboxes"],
 worlds=["mute"], quick_s=85, note="Seeded search over whole-system histories with the real programs; the oracle is a ledger of what users wrote and what the mix accepted and delivered. Two concurrent commands of one user are not simulated.")
prop(id="C19", title="Outgoing messages are never stuck, forgotten or wrongly marked as sent",
 statement="Every outgoing message is at any time in exactly one state (to be sent, queued once, or sent), is marked as sent only if the mix accepted it, and then with its earliest delivery time. Each mail pays with a token of its own which the mix accepts, messages that can never be sent are refused when added, and no message or fault keeps later messages from being sent once faults stop.",
 over=["histories", "crash_points", "fault_sequences"], qtext="all histories of adding and sending messages with refused, deferred or unacknowledged mails and interruptions at any operation",
 why="No test sends through a failing or refusing mix or interrupts mutectrl between its databases and child processes.",
 files=["ctrlengine/msg.go", "msgdb/outqueue.go", "msgdb/messages.go", "protoengine/deliver.go", "mix/client/send.go", "serviceguard/client/clientlib.go"],
 mech=[("message states and outqueue", "msgdb/outqueue.go"), ("token use", "ctrlengine/msg.go procOutQueue"), ("resend and retract", "ctrlengine/msg.go, protoengine/deliver.go")],
 observe=["Messages and OutQueue tables after every command", "mails and tokens at the simulated mix"],
 worlds=["mute"], quick_s=85, note="A mix that has accepted a mail is assumed not to refuse the same mail for good later (its sender could not tell these apart).")
prop(id="C20", title="Contact decisions of a user are obeyed and changed by nobody else",
 statement="Messages from blocked contacts are never shown, a sender nobody decided about becomes an unknown (gray) contact and never a trusted one, and messages can only be written to contacts the user has added. Adding, renaming, removing, blocking and unblocking have exactly their effect on exactly the named contact of the named nym, spelled in any way, or report failure and change nothing; listings show exactly the contacts in that state.",
 over=["histories", "crash_points", "inputs"], qtext="all sequences of contact commands, arriving messages and faults over several nyms and contacts",
 why="Existing tests call the database functions only; the commands and their interplay with arriving messages are untested.",
 files=["ctrlengine/contact.go", "ctrlengine/msg.go", "msgdb/contacts.go"],
 mech=[("contact commands", "ctrlengine/contact.go"), ("treatment of senders", "ctrlengine/msg.go procInQueue"), ("contact lists", "msgdb/contacts.go")],
 observe=["Contacts table after every command", "output of contact list and contact blacklist"],
 worlds=["mute"], quick_s=85, note="Refinement against a model of contact states after each command; an interrupted command must have had its whole effect or none.")
prop(id="C21", title="No message or fault keeps a user from receiving others",
 statement="Whatever arrives in a mailbox (noise, damaged, replayed, misdirected or undecryptable mails, sealed garbage of a malicious sender) and whatever interruption or network failure hits a fetch, fetching later succeeds, never crashes, and brings all intact messages. Bad mails are discarded without a trace in the user's messages.",
 over=["inputs", "histories", "crash_points", "fault_sequences"], qtext="all sequences of good and bad mails, fetches, cut replies and interruptions at any operation",
 why="No test fetches a bad mail or interrupts a fetch.",
 files=["ctrlengine/msg.go", "protoengine/fetch.go", "mix/client/mixrpc.go", "mix/client/receive.go", "mix/mixcrypt/mixclient.go", "msg/decrypt.go", "msgdb/inqueue.go"],
 mech=[("processing of the inqueue", "ctrlengine/msg.go procInQueue"), ("fetching", "ctrlengine/msg.go muteprotoFetch, protoengine/fetch.go")],
 observe=["exit status of msg fetch", "Messages and InQueue tables", "mailboxes"],
 worlds=["mute"], quick_s=85, note="The account server is trusted apart from missing and cut replies. Senders are malicious: they may send anything through the mix.")
prop(id="C22", title="Commands change exactly what they name",
 statement="A mutectrl command for one nym changes nothing of any other nym, a command that only shows something changes nothing, and what is shown is what is stored. Creating, renaming, switching and deleting a nym have exactly their effect, messages arrive at the nym they were sent to, and no fault, also not during a change of the passphrase, leaves the user's databases unreadable.",
 over=["histories", "inputs", "crash_points"], qtext="all sequences of commands over several users and nyms with interruptions at any operation",
 why="No existing test runs the mutectrl commands at all.",
 files=["ctrlengine/ctrlengine.go", "ctrlengine/uid.go", "ctrlengine/msg.go", "msgdb/nyms.go", "msgdb/accounts.go", "msgdb/messages.go"],
 mech=[("command dispatch and active nym", "ctrlengine/ctrlengine.go"), ("nym commands", "ctrlengine/uid.go")],
 observe=["complete message database before and after every command", "output of list and show commands"],
 worlds=["mute"], quick_s=85, note="uid new runs without faults (its steps on several servers are not atomic and not claimed to be).")
prop(id="C27", title="Upkeep does what is due, once, and records it only when done",
 statement="Upkeep pays for a nym's account exactly when it is due and the account's remaining time falls short of the wanted one, at most once and with a token that is then gone from the wallet, and is recorded as done only if it was; no lost reply, crash or disk error makes it pay twice or keeps later upkeep from succeeding. The stored configuration is always a complete one which was published and signed, never replaced by an older one, recorded as fetched only once every program will use it, and refreshed when older than a day. Offline commands use no network and refuse a configuration older than a week, and software outdated by more than two weeks refuses to work.",
 over=["histories", "crash_points", "fault_sequences", "inputs"], qtext="all histories of upkeep and other commands with lost, forged or outdated replies, interruptions at any operation and any passing of time",
 why="No existing test runs an upkeep command, replays an old configuration, or interrupts a payment or a configuration fetch.",
 files=["ctrlengine/upkeep.go", "ctrlengine/ctrlengine.go", "mix/client/accountrpc.go", "configclient/client.go", "def/def.go", "msgdb/nyms.go", "msgdb/accounts.go"],
 mech=[("account upkeep and pending payment", "ctrlengine/upkeep.go upkeepAccounts, resolvePendingPayment"), ("configuration fetch", "ctrlengine/upkeep.go upkeepFetchconf, writeConfigFile"), ("age checks", "ctrlengine/ctrlengine.go getConfig, checkUpdates")],
 observe=["Nyms and Accounts tables, wallet and stored configurations after every command", "payments at the simulated account server", "requests made in offline mode"],
 worlds=["mute"], quick_s=85, note="The account server is trusted apart from missing and cut replies; configuration replies are also forged or outdated. Updating the programs themselves from source (git, go) is not simulated.")
