# The properties: one entry per property; gen.py writes properties.jsonl and
# MANIFEST.json from them.
H, I, S, F, C, CR = "histories", "inputs", "schedules", "fault_sequences", "configurations", "crash_points"

def M(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]

PROPS = [
 dict(id="P01", title="Every message of a session is delivered exactly, in any arrival order",
  statement="Every message encrypted for a peer over a session both sides share decrypts at that peer, once, to exactly the plaintext that was encrypted, whatever the order, delay, loss or duplication of the messages, in both directions and across any number of changes of direction. The only exceptions are the documented limits: messages more than 5000 ahead of their chain, skipped messages older than the last 2000 of a chain, and chains older than the last five.",
  over=[H, S], text="all interleavings of sending, losing, reordering, duplicating and turning, over both wire formats and every kind of store, any plaintext including empty ones",
  why="The tests exchange a few messages in a handful of fixed orders; the guarantee is over all arrival orders and lengths of conversation.",
  files=["session/cipher.go", "state/record/state_session.go", "state/record/state_chain.go", "keys/chain/key.go", "keys/root/key.go"],
  mech=M(("decryption and skipped keys", "session/cipher.go"), ("stored chains and message keys", "state/record/state_session.go")),
  observe=["session cipher encrypt/decrypt results"],
  tech="online monitor: exact receiver model over recorded traffic",
  note="Every delivery of randomised hostile schedules is judged by an exact model of what the receiver must do. Exploration, not proof; stores are in-memory ones."),
 dict(id="P02", title="No message is accepted twice",
  statement="Once a device has decrypted a message, decrypting the same message again fails, immediately and at any later time: after any other traffic, ratchet turns, re-established sessions, skipped messages, reloading of stored state, and, in groups, chains described again. A repeated opening message whose session the receiver still has never starts that session anew, even if its base key is replaced by another one or its version or anything else around its payload is changed.",
  over=[H], text="all histories of deliveries and replays of ordinary, opening and group messages; an opening message without one-time prekey may be accepted anew only when the receiver no longer has its session",
  why="The tests repeat one message once; a replay may only succeed after a particular history (archived sessions, skipped keys, promoted sessions).",
  files=["session/cipher.go", "session/session.go", "groups/cipher.go", "groups/state/record/sender_key.go", "state/record/state_session.go", "state/record/session.go"],
  mech=M(("used message keys are deleted", "state/record/state_session.go"), ("repeated opening messages are recognised", "session/session.go")),
  observe=["decrypt results of repeated messages"],
  tech="online monitor: exactly-once checker with replaying attacker",
  note="Whole conversations, of pairs and of groups, are replayed at random points and at their end; an exactly-once monitor judges each replay. Exploration."),
 dict(id="P03", title="Only genuine messages are accepted, with their exact content",
  statement="A session message is accepted only if the peer that shares the session produced that authenticated content, with its counters, sending key and ciphertext, for this receiver; anything altered, truncated, extended, spliced, reflected, misdirected or built by someone without the session's keys is refused, and so is an opening message with another base key than its session's. An accepted message always yields exactly the plaintext its sender encrypted.",
  over=[I, H], text="all alterations of all messages at every point of a conversation, in both formats, and forgeries by third parties; the other wrapper fields of an opening message whose session already exists are outside the statement",
  why="No test alters a message; a single accepted alteration breaks the guarantee.",
  files=["protocol/signal_message.go", "session/cipher.go", "protocol/prekey_signal_message.go", "cipher/cbc.go", "serialize/proto.go", "serialize/json.go"],
  mech=M(("message authentication code", "protocol/signal_message.go"), ("verification before use", "session/cipher.go")),
  observe=["decrypt results of altered messages"],
  tech="online monitor: authenticity oracle with active attacker",
  note="An active attacker alters traffic in many ways; acceptance is judged against the record of what was really sent. Exploration; forging the MAC itself is taken to be infeasible."),
 dict(id="P04", title="A refused operation leaves everything stored unchanged",
  statement="When processing a bundle, encrypting, or decrypting a session message fails for any reason, everything the device has stored (sessions, identities, prekeys) is exactly as before, whether the store keeps bytes or live objects. Genuine messages and sessions therefore work afterwards as if the failed operation had never been attempted, and the same holds for refused group messages whose signature does not verify or that are stale, repeated or too far ahead.",
  over=[F, H, I], text="all causes of refusal at every point of all histories, including failing entropy and distrusted identities, with serializing and object-keeping stores",
  why="The tests only exercise success; state corruption by a failed attempt shows only in what later messages do.",
  files=["session/cipher.go", "session/session.go", "state/record/session.go", "state/record/state_session.go", "groups/cipher.go", "groups/state/record/state_sender_key.go"],
  mech=M(("attempts on copies of the session", "session/cipher.go"), ("order of storage writes", "session/session.go"), ("group message keys", "groups/cipher.go")),
  observe=["stored records before and after each refusal", "delivery of genuine messages afterwards"],
  tech="fault injection with before/after state monitor",
  note="Snapshots of everything stored are compared around each of tens of thousands of refusals of many causes. Exploration."),
 dict(id="P05", title="Sessions follow X3DH and the double ratchet exactly",
  statement="Sessions set up and continued by the library interoperate with any conforming implementation of X3DH (with and without one-time prekey) and the double ratchet, in either role and in both wire formats: each reads the other's messages exactly, in any order. All keys and message bytes are those the specification determines, with the canonical encoding.",
  over=[H, I, C], text="all conversations with a conforming peer as initiator or responder, all prekey kinds, formats and orders of arrival",
  why="The tests run the library only against itself, where a symmetric deviation is invisible.",
  files=["session/session.go", "ratchet/ratchet.go", "ratchet/sender.go", "ratchet/receiver.go", "keys/root/key.go", "keys/chain/key.go", "keys/message/key.go", "kdf/hkdf.go"],
  mech=M(("key agreement", "ratchet/ratchet.go"), ("root and chain steps", "keys/root/key.go")),
  observe=["wire bytes", "plaintexts on both sides"],
  tech="differential monitor against an independent implementation",
  note="An independent implementation written from the specifications converses with the library. Exploration."),
 dict(id="P06", title="Bundles are used only when their signature verifies",
  statement="A prekey bundle is used to start a session only if it carries a signed prekey whose signature verifies under the bundle's identity key; every other bundle is refused with an error. A refused bundle creates no session, saves no identity and sends nothing; a valid bundle of any kind is accepted.",
  over=[I], text="all bundles: every alteration of signature, signed prekey and identity, and all valid shapes (with one-time, last-resort and no prekey)",
  why="The tests process valid bundles only.",
  files=["session/session.go", "ecc/curve.go", "ecc/sign_curve25519.go", "keys/prekey/bundle.go"],
  mech=M(("bundle verification", "session/session.go"), ("signature verification", "ecc/sign_curve25519.go")),
  observe=["bundle processing result", "stored state"],
  tech="online monitor: independent verifier over hostile bundles",
  note="An independent verifier decides which bundles must be refused. Exploration."),
 dict(id="P07", title="Only trusted identities are used, and the one used is saved",
  statement="Processing a bundle, encrypting and decrypting succeed only if the device's identity store trusts the peer identity at stake for that address at that moment, and are refused otherwise without replacing the saved identity. Every success leaves exactly the identity that was used saved for the address.",
  over=[H, C], text="all trust policies, changing at any time, and all histories of identity changes behind an address",
  why="The tests use a store that trusts by first use and never change a policy between operations.",
  files=["session/session.go", "session/cipher.go", "state/store/identity.go"],
  mech=M(("trust checks of bundles and opening messages", "session/session.go"), ("trust checks of encryption and decryption", "session/cipher.go")),
  observe=["results of the three operations", "saved identities"],
  tech="online monitor: trust-policy oracle",
  note="A policy oracle judges each operation under arbitrary changing policies. Exploration."),
 dict(id="P08", title="One-time prekeys are consumed exactly when used; opening is exact",
  statement="A one-time prekey is deleted exactly when an opening message that uses it is first decrypted successfully: not before, not by failing, repeated or foreign messages (even if a new prekey has since been stored under its ID), and never twice used; the last-resort prekey and signed prekeys are never deleted. Opening messages that name a prekey or signed prekey the device no longer has are refused with an error unless their session already exists, and a session opens correctly with every kind of bundle.",
  over=[H, S], text="all histories of publishing, sharing, opening, replaying and reordering opening messages, with rotation and expiry of signed prekeys",
  why="The tests open one session with one bundle; consumption depends on order and repetition.",
  files=["session/session.go", "session/cipher.go", "util/medium/medium.go", "util/keyhelper/key.go"],
  mech=M(("prekey lookup and removal", "session/cipher.go"), ("processing of opening messages", "session/session.go")),
  observe=["stored prekeys after every step"],
  tech="online monitor: prekey accounting against a model",
  note="The set of stored prekeys is compared with a model after each step. Exploration."),
 dict(id="P09", title="Concurrent and repeated session setup loses nothing and converges",
  statement="When two devices open sessions with each other repeatedly or at the same time, every message sent on any of the last forty superseded sessions of a peer still decrypts, and a decrypted message makes its session the current one, so that after both sides have read each other's latest messages they use one common session. Archived sessions beyond the limit are dropped oldest first, and no session is ever lost or duplicated otherwise.",
  over=[H, S], text="all interleavings of setting up sessions from both sides with traffic on all of them, with serializing and object-keeping stores",
  why="The tests contain no simultaneous setup and never exceed two sessions.",
  files=["state/record/session.go", "session/session.go", "session/cipher.go"],
  mech=M(("archiving and promotion", "state/record/session.go")),
  observe=["decrypt results on old sessions", "sessions listed in the stored record"],
  tech="online monitor: exact model of the session list",
  note="An exact session-list model judges each delivery. Exploration."),
 dict(id="P10", title="Storing and reloading state never changes behaviour",
  statement="A device that serializes and reloads every record between operations behaves byte for byte like one that keeps the records in memory: same messages, plaintexts and verdicts for the same inputs and entropy. Every stored session, prekey, signed prekey and sender key record reloads to an identical record.",
  over=[H, C], text="all histories of session and group operations, both storage formats, with reloading at every operation",
  why="The tests keep live objects in memory; what a reload loses shows only in later operations.",
  files=["state/record/session.go", "state/record/state_session.go", "state/record/prekey.go", "state/record/signed_prekey.go", "groups/state/record/sender_key.go", "groups/state/record/state_sender_key.go", "serialize/json.go"],
  mech=M(("record structures", "state/record/state_session.go"), ("serializers", "serialize/json.go")),
  observe=["bytes sent", "plaintexts", "stored records"],
  tech="twin-run differential monitor",
  note="Twin devices run one history with and without reloading. Exploration."),
 dict(id="P11", title="A crash between storage writes loses no message for good",
  statement="If a device crashes between any two storage writes of an operation and restarts from what was written, delivering the interrupted message again, or repeating the interrupted operation, gives the correct plaintext or outcome unless the state that read it had already been stored, and the conversation continues in both directions. Encrypted messages are released only after the state that produced them is stored, so no key is used for two messages after a restart.",
  over=[CR, H], text="a crash before each storage write of each kind of operation at random points of all histories, and once more during the redelivery",
  why="No test injects a crash.",
  files=["session/cipher.go", "session/session.go", "groups/cipher.go", "groups/session_builder.go"],
  mech=M(("order of storage writes", "session/cipher.go"), ("group storage writes", "groups/cipher.go")),
  observe=["store operations in order", "behaviour after restart"],
  level="fault_enumeration",
  tech="crash injection at every storage write with recovery oracle",
  note="Every storage write of the chosen operations is a crash point; operations are sampled from random histories. Store calls are taken to be atomic."),
 dict(id="P12", title="Messages are numbered gaplessly and never share key material",
  statement="On each sending chain, of a session or a group, messages carry the counters 0, 1, 2, ... without gap or repetition; those of sessions name the last counter of the sender's previous chain (zero if there was none or it was unused), and keep one sending key until a message of the peer starts a new chain. No sending key, base key, or message encryption or authentication key is ever used for two messages or chains, and messages stay wrapped with the opening data exactly until the peer's first answer is read.",
  over=[H], text="all conversations and group chains in any order, including refused messages, reloads, crashes of a group's sender and re-established sessions",
  why="The tests never look at counters or keys on the wire.",
  files=["session/cipher.go", "groups/cipher.go", "ratchet/ratchet.go", "keys/root/key.go", "keys/chain/key.go", "protocol/signal_message.go", "state/record/state_session.go"],
  mech=M(("sending", "session/cipher.go"), ("sending to groups", "groups/cipher.go"), ("ratchet step", "session/cipher.go")),
  observe=["decoded wire messages", "derived message keys"],
  tech="online trace checker over decoded wire traffic",
  note="A trace checker follows every message on the wire. Exploration."),
 dict(id="P13", title="Past messages stay secret and a stolen session heals",
  statement="Once a message has been sent, or read, nothing the device still stores, or its live records hold, yields that message's key (skipped messages not yet read excepted), for sessions and for groups. After a device's session state is stolen, one complete round trip between the peers makes all later messages unreadable to the thief.",
  over=[H], text="all conversations and all moments of theft, every stored value tried as message, chain and root key",
  why="No test examines what storage still reveals.",
  files=["state/record/state_session.go", "state/record/state_chain.go", "session/cipher.go", "keys/root/key.go", "groups/state/record/state_sender_key.go", "groups/ratchet/sender_chain_key.go"],
  mech=M(("deletion of used keys", "state/record/state_session.go"), ("ratchet turn", "session/cipher.go"), ("group chain step", "groups/ratchet/sender_chain_key.go")),
  observe=["stored records searched for keys"],
  tech="storage-scanning monitor with key-derivation oracle",
  note="Every stored secret is tried as every kind of key against all messages sent. Exploration; sees what is stored, not process memory."),
 dict(id="P14", title="Storage and work are bounded whatever the peer does",
  statement="However long a peer re-establishes sessions, changes direction, skips messages, starts group chains anew or announces enormous counters, the records a device stores stop growing at the documented limits (40 earlier sessions, five receiving chains and 2000 waiting keys per chain; 2000 chains and 2000 waiting keys per sender of a group), messages announced more than 5000 ahead (in groups 2000) are refused, and refusing a message costs a bounded amount of work and memory. Reaching a limit drops the oldest entries only, and genuine traffic continues.",
  over=[H, I], text="endless repetition of every growing operation, by genuine and malicious peers; counters up to 2^32-1",
  why="No test approaches a limit.",
  files=["state/record/session.go", "state/record/state_session.go", "session/cipher.go", "groups/cipher.go", "groups/state/record/sender_key.go", "groups/state/record/state_sender_key.go"],
  mech=M(("archive limit", "state/record/session.go"), ("limits on chains and keys", "state/record/state_session.go"), ("group limits", "groups/state/record/state_sender_key.go")),
  observe=["record sizes", "bytes allocated by refusals"],
  tech="resource monitor under long-running stress",
  note="Each resource is driven past its limit and measured against its size at the limit; what the stored records hold is counted. Exploration."),
 dict(id="P15", title="Every group message reaches every member exactly, in any order",
  statement="Every member who processed a sender's key description reads each of that sender's later messages to the group exactly once and exactly as sent, whatever the order, loss and duplication; earlier messages, repetitions, messages of unknown chains, and messages more than 2000 ahead or older than the last 2000 skipped ones are refused. Members who join at different times, several groups, several senders and a sender that starts anew do not disturb each other.",
  over=[H, S], text="all interleavings of group sending, joining, restarting and delivery over both formats and every kind of store",
  why="The group test sends a few messages to one member in order.",
  files=["groups/cipher.go", "groups/session_builder.go", "groups/state/record/state_sender_key.go", "groups/state/record/sender_key.go", "groups/ratchet/sender_chain_key.go"],
  mech=M(("group decryption and skipped keys", "groups/cipher.go"), ("chains by ID", "groups/state/record/sender_key.go")),
  observe=["group decrypt results"],
  tech="online monitor: exact group receiver model",
  note="Every group delivery is judged by an exact receiver model. Exploration."),
 dict(id="P16", title="Only the sender's own signed group messages are accepted",
  statement="A group message is accepted only if the holder of that chain's signing key signed exactly that message for that group and sender; alterations, splices, re-numberings and forgeries by outsiders and by other members, who know the chain key, are refused. A member without the private signing key can never produce a group message in the sender's name, through the library or otherwise.",
  over=[I, H], text="all alterations of group messages and forgeries with all keys members have, at every point of a group's history, both formats",
  why="No test alters a group message.",
  files=["protocol/sender_key_message.go", "groups/cipher.go", "groups/state/record/state_sender_key.go"],
  mech=M(("signature of group messages", "protocol/sender_key_message.go"), ("verification before decryption", "groups/cipher.go")),
  observe=["group decrypt results of altered messages"],
  tech="online monitor: authenticity oracle with insider attacker",
  note="Outsiders and insiders forge in many ways; the oracle is the record of what was signed. Exploration."),
 dict(id="P17", title="Groups follow the sender-key protocol exactly",
  statement="Group chains created or received by the library interoperate with any conforming implementation of the sender-key protocol in both directions and formats: keys, numbering, signatures and message bytes are those the protocol determines. A member who joins from a description reads on from exactly the described position, and keeps several chains of one sender apart by their full IDs.",
  over=[H, I, C], text="all conversations with a conforming peer as sender or member, late joining and out-of-order arrival",
  why="The tests run groups only against the library itself.",
  files=["groups/cipher.go", "groups/ratchet/sender_chain_key.go", "groups/ratchet/sender_message_key.go", "groups/session_builder.go", "protocol/sender_key_message.go", "protocol/sender_key_distribution_message.go"],
  mech=M(("sender chain and message keys", "groups/ratchet/sender_message_key.go")),
  observe=["wire bytes", "plaintexts"],
  tech="differential monitor against an independent implementation",
  note="An independent sender-key implementation converses with the library. Exploration."),
 dict(id="P18", title="Key descriptions reveal the present chain and nothing more",
  statement="A sender's key description always describes the chain at its current position, so that a member who joins with it reads everything sent later and nothing sent earlier, and it never carries a private key. Describing a chain again changes nothing, processing a description twice or late does not move a member's chain, and the chains and signing keys of different groups and senders are unrelated.",
  over=[H], text="all interleavings of describing, joining, sending and starting anew",
  why="The tests describe a chain once, before any message.",
  files=["groups/session_builder.go", "groups/state/record/sender_key.go", "groups/state/record/state_sender_key.go", "protocol/sender_key_distribution_message.go"],
  mech=M(("creating and processing descriptions", "groups/session_builder.go")),
  observe=["description contents", "what late members can read"],
  tech="online monitor over key distribution events",
  note="A monitor follows each chain and each description. Exploration."),
 dict(id="P19", title="No network input crashes or wedges a device",
  statement="Parsing, decrypting and processing any byte string as any kind of network message, key or bundle, in any state of the device, returns a result or an error in bounded time; it never panics. The device works normally afterwards.",
  over=[I], text="all byte strings: random, truncated, mutated, malformed encodings, messages of other kinds, and well-authenticated malformed messages from malicious peers",
  why="The tests parse well-formed messages only.",
  files=["serialize/proto.go", "serialize/json.go", "protocol/signal_message.go", "protocol/prekey_signal_message.go", "protocol/sender_key_message.go", "protocol/sender_key_distribution_message.go", "ecc/curve.go", "util/bytehelper/byte.go", "session/cipher.go", "groups/cipher.go"],
  mech=M(("message parsers", "serialize/proto.go"), ("key decoding", "ecc/curve.go")),
  observe=["panics", "processor time", "traffic afterwards"],
  tech="mutation fuzzing with panic and liveness monitors",
  note="Structure-aware mutation fuzzing under panic, time and memory monitors. Exploration."),
 dict(id="P20", title="Damaged stored records are refused or loaded, never crash",
  statement="Loading any bytes as a stored session, session state, prekey, signed prekey or sender key returns a record or an error, never a panic. A record that loads serializes to something that loads to the same record, and sending and receiving with it return results or errors.",
  over=[I, F], text="all damage to stored records: truncation, bit flips, missing, null, mistyped, mis-sized and exchanged fields, emptied and doubled lists",
  why="The tests load only what was just stored.",
  files=["state/record/session.go", "state/record/state_session.go", "state/record/state_chain.go", "state/record/prekey.go", "state/record/signed_prekey.go", "groups/state/record/sender_key.go", "groups/state/record/state_sender_key.go", "serialize/json.go"],
  mech=M(("loading of nested structures", "state/record/state_session.go")),
  observe=["load results", "panics"],
  tech="corruption fuzzing of stored state with panic and round-trip monitors",
  note="Every field of every record kind is damaged in many ways. Exploration."),
 dict(id="P21", title="Wire and key encodings are exact, canonical and versioned",
  statement="Every message and key record encodes to exactly the bytes its format prescribes and decodes to exactly the values that were encoded, for all field values, with fields in any order and unknown fields ignored where the format allows it. Malformed encodings, messages of unsupported versions and messages lacking required fields are refused; a session refuses messages of an older version than its own even when its peer authenticated them.",
  over=[I, C], text="all field values including extremes, every message kind, both formats",
  why="The tests encode a few ordinary values and decode their own output.",
  files=["serialize/proto.go", "serialize/json.go", "protocol/signal_message.go", "protocol/prekey_signal_message.go", "protocol/sender_key_message.go", "protocol/sender_key_distribution_message.go", "serialize/protocol_whisper_text.pb.go"],
  mech=M(("serializers", "serialize/proto.go"), ("version checks", "protocol/signal_message.go")),
  observe=["encoded bytes", "decoded fields"],
  tech="differential codec monitor",
  note="An independent codec is the oracle in both directions. Exploration."),
 dict(id="P22", title="Symmetric encryption is exact and refuses malformed input",
  statement="The encryption helpers produce AES-CBC with PKCS#7 padding, decrypt exactly what was encrypted for every length and key size, and use a fresh random IV where they choose it. Wrong key, IV or ciphertext lengths and invalid padding give an error, never a panic or altered data. Session and group messages with such content are refused even when well authenticated.",
  over=[I], text="all plaintext lengths, keys, IVs, ciphertexts and padding values",
  why="The cipher test encrypts one short text.",
  files=["cipher/cipher.go", "cipher/cbc.go"],
  mech=M(("padding and CBC helpers", "cipher/cbc.go"), ("helpers of sessions", "cipher/cipher.go")),
  observe=["helper outputs and errors"],
  tech="differential monitor against standard AES-CBC",
  note="Outputs and verdicts are compared with an independent implementation. Exploration."),
 dict(id="P23", title="Signatures verify exactly when genuine",
  statement="Every signature the library makes verifies under the signer's public key, by this library and any conforming XEdDSA-style verifier, and is canonical; verification accepts exactly the signatures that satisfy the equation for that key and message and refuses altered, malleated and forged ones. Different messages never share a signing nonce, even if the entropy source repeats itself.",
  over=[I], text="all keys including extreme ones, messages of all lengths, signatures and alterations",
  why="The tests sign and verify a few messages and alter one signature at most.",
  files=["ecc/sign_curve25519.go", "ecc/curve.go", "ecc/edwards25519/edwards25519.go"],
  mech=M(("sign and verify", "ecc/sign_curve25519.go")),
  observe=["signatures", "verification verdicts"],
  tech="differential monitor with two independent verifiers",
  note="Verdicts are compared with big-integer arithmetic and crypto/ed25519. Exploration."),
 dict(id="P24", title="Curve arithmetic is exact for every operand",
  statement="Field, point and scalar operations return exactly the mathematically defined result for every operand, including values at the edges of their representation, the field prime and the group order. Decoding accepts exactly the encodings of points.",
  over=[I], text="all field elements, points and scalars, with emphasis on carries, edges and non-canonical encodings",
  why="Tests never reach the rare carry patterns in which limb arithmetic goes wrong.",
  files=["ecc/edwards25519/edwards25519.go", "ecc/edwards25519/const.go"],
  mech=M(("limb arithmetic", "ecc/edwards25519/edwards25519.go")),
  observe=["results of arithmetic functions"],
  tech="differential monitor against arbitrary-precision arithmetic",
  note="Each result is recomputed with math/big. Exploration with edge-biased operands."),
 dict(id="P25", title="Key agreement and derivation are exact and agree on both sides",
  statement="Both sides of a Diffie-Hellman, of a session key agreement (with and without one-time prekey) and of the symmetric agreement between two online parties derive identical root and chain keys, and these, all HKDF outputs of every length, root and chain steps and message keys are exactly those the specifications define, whatever was derived before. Deriving from a key never changes it.",
  over=[I], text="all keys, salts, infos, lengths and roles, including base keys that agree in their first bytes",
  why="The tests check a few fixed vectors or none.",
  files=["kdf/hkdf.go", "ratchet/ratchet.go", "ratchet/symmetric.go", "keys/root/key.go", "keys/chain/key.go", "keys/message/key.go", "ecc/curve.go"],
  mech=M(("HKDF", "kdf/hkdf.go"), ("agreements", "ratchet/ratchet.go")),
  observe=["derived keys on both sides"],
  tech="differential monitor against an independent implementation",
  note="All derivations are recomputed independently. Exploration."),
 dict(id="P26", title="Safety numbers are equal on both sides and exact",
  statement="For any two fingerprints both sides display the same text of sixty digits, which is exactly the prescribed encoding of the first thirty bytes of the two fingerprints in sorted order. An identity key's own fingerprint text is exactly its encoded bytes in hexadecimal.",
  over=[I], text="all pairs of fingerprints in either order, including pairs that share leading digits, are equal or hold extreme bytes",
  why="The test compares one pair.",
  files=["fingerprint/display.go", "fingerprint/fingerprint.go", "keys/identity/key.go"],
  mech=M(("display text", "fingerprint/display.go")),
  observe=["displayed text from both sides"],
  tech="differential and symmetry monitor",
  note="Compared with an independent computation from both sides. Exploration."),
 dict(id="P27", title="Provisioning opens genuine envelopes only, and never crashes",
  statement="A provisioning envelope sealed to a device's key by a conforming peer opens to exactly its content; any envelope that is altered, truncated, badly versioned, badly padded, sealed to another key or malformed in any way gives an error and no content. No envelope or key text causes a panic.",
  over=[I], text="all envelopes: genuine ones of every length, every alteration, arbitrary text",
  why="There is no test of provisioning.",
  files=["provision/cipher.go", "cipher/cbc.go", "kdf/hkdf.go"],
  mech=M(("envelope opening", "provision/cipher.go")),
  observe=["opened content", "errors"],
  tech="differential monitor with an independent sealer and opener",
  note="An independent opener gives the expected outcome. Exploration."),
 dict(id="P28", title="Independent work in parallel is free of races and interference",
  statement="Conversations and groups of devices with separate stores, and one device's sessions with different peers over a thread-safe store, may run in parallel goroutines without data races and with the same results as one after the other, and no operation waits for one on another device, such as one whose store is slow. The same holds for stateless helpers and read-only objects shared by goroutines; replacing the logger meanwhile is excluded.",
  over=[S], text="all schedules of goroutines working on separate peers or devices",
  why="The tests run in one goroutine and not under the race detector.",
  files=["logger/logger.go", "logger/default.go", "session/cipher.go", "groups/cipher.go", "serialize/serializer.go", "ecc/curve.go"],
  mech=M(("package-level state", "logger/logger.go")),
  observe=["race detector reports", "results of every operation"],
  tech="Go race detector with exact models under stress",
  note="The race detector sees the schedules that occur; results are judged by the models. Exploration."),
 dict(id="P29", title="Asynchronous operations complete exactly once with the right outcome",
  statement="Every asynchronous key generation, signing and verification calls its completion exactly once: success with the correct value, or failure exactly when the operation fails (entropy missing, signature invalid). They are free of data races and leave nothing running.",
  over=[S, F], text="all schedules and batch sizes, valid and invalid inputs, failing entropy",
  why="The asynchronous functions have no tests.",
  files=["util/keyhelper/key.go", "ecc/curve.go"],
  mech=M(("asynchronous wrappers", "ecc/curve.go")),
  observe=["completion calls", "race detector reports"],
  tech="exactly-once completion monitor under the race detector",
  note="Every handler call is recorded and counted. Exploration."),
 dict(id="P30", title="Secrets never reach logs, output or error texts",
  statement="With the default logging nothing written to the log, standard output or standard error and no returned error text contains a private key, root, chain, message or sender key, or plaintext, in any notation, whatever succeeds or fails.",
  over=[H, F, I], text="all operations and all kinds of failure",
  why="No test looks at what is printed.",
  files=["logger/default.go", "logger/logger.go", "session/cipher.go", "session/session.go", "groups/cipher.go", "protocol/signal_message.go", "ecc/curve.go"],
  mech=M(("default logger", "logger/default.go"), ("error texts", "session/cipher.go")),
  observe=["captured log, stdout, stderr, errors"],
  tech="taint-style output monitor over known secrets",
  note="All output is searched for every secret seen in several notations. Exploration."),
 dict(id="P31", title="Generated keys are well-formed and carry all their entropy",
  statement="Every generated key pair has a clamped private key and the matching public key, differs from all others, and depends on all the entropy of a 256-bit key however the entropy source delivers it; the same holds for sender keys and for the ephemeral, ratchet and group keys made inside the protocol, and without entropy key generation fails. Signed prekeys carry the requested ID, a current timestamp and a signature that verifies under the identity, prekeys carry consecutive IDs, and the last-resort prekey carries its reserved ID.",
  over=[I, F], text="all entropy streams: whole, in pieces, failing, with each single bit changed; all IDs",
  why="Tests cannot tell a weak key from a strong one by its looks.",
  files=["ecc/curve.go", "util/keyhelper/key.go", "util/medium/medium.go", "session/session.go", "keys/root/key.go", "groups/session_builder.go"],
  mech=M(("key generation", "ecc/curve.go"), ("helpers", "util/keyhelper/key.go")),
  observe=["generated keys under controlled entropy"],
  tech="scripted-entropy influence monitor and independent curve oracle",
  note="Each consumed entropy bit is flipped and its influence counted. Exploration; the quality of the system's entropy is outside."),
 dict(id="P32", title="The caller's data and the library's state never share memory",
  statement="No operation changes the bytes its caller passes in or the memory around them, and once it has returned, the caller may overwrite all buffers it passed in or received without changing stored records, parsed messages or later results. A saved message key verifies its message and decrypts it to the same plaintext any number of times, without changing itself or stored state.",
  over=[I, H], text="all operations that take or return bytes, buffers placed anywhere in larger ones, at every point of a history",
  why="The tests never reuse a buffer.",
  files=["cipher/cbc.go", "cipher/cipher.go", "session/cipher.go", "serialize/proto.go", "serialize/json.go", "protocol/signal_message.go", "protocol/prekey_signal_message.go", "protocol/sender_key_message.go", "util/bytehelper/byte.go", "groups/cipher.go"],
  mech=M(("copies of inputs", "util/bytehelper/byte.go"), ("in-place ciphers", "cipher/cbc.go")),
  observe=["buffers and their surroundings", "stored records after overwriting buffers"],
  tech="canary-memory and aliasing monitor",
  note="Inputs lie in patterned memory that is checked and then overwritten. Exploration."),
 dict(id="P33", title="Operations touch only the peer, prekey or chain they are about",
  statement="A session operation with a peer device reads and writes only that address's session and identity, plus the device's own keys and the one-time prekey an opening message names; a group operation reads and writes only the record of that group and sender. Devices with look-alike names, other device numbers, other groups and other devices in the same process are never affected.",
  over=[H, C], text="all mixes of succeeding and failing operations among devices and groups with similar names",
  why="The tests have two devices and one group.",
  files=["session/cipher.go", "session/session.go", "groups/cipher.go", "groups/session_builder.go", "protocol/signal_protocol_address.go", "protocol/sender_key_name.go"],
  mech=M(("addresses", "protocol/signal_protocol_address.go"), ("store access", "session/cipher.go")),
  observe=["all devices' stored entries before and after each operation", "store writes"],
  tech="before/after footprint monitor over all stores",
  note="Everything every device stores is compared around each operation. Exploration."),
 dict(id="P34", title="Sessions and messages carry the true facts about both devices",
  statement="Every stored session, current or archived, on both sides, records protocol version 3, the identity keys and registration IDs both devices had when it was set up, and the base key both sides share; an unacknowledged one names the prekeys of the bundle that opened it. Every parsed message reports exactly the values its sender put in, and an opening message carries its sender's identity, the registration ID its session records, and the prekey IDs of the bundle. The same holds for group messages, key descriptions and stored sender keys: chain ID, position, signing key, and a private signing key at the sender only.",
  over=[H, C], text="all ways of setting up, archiving, promoting, reloading and using sessions",
  why="The tests do not look at session facts after the first exchange.",
  files=["session/session.go", "ratchet/ratchet.go", "state/record/state_session.go", "state/record/session.go", "state/record/unacknowledged_prekey.go", "protocol/prekey_signal_message.go", "protocol/signal_message.go"],
  mech=M(("session facts", "state/record/state_session.go"), ("message fields", "protocol/prekey_signal_message.go")),
  observe=["session accessors", "message accessors"],
  tech="online monitor of session metadata on both sides",
  note="The facts of both sides are compared with the devices' own after each step; devices are also installed anew, with other identities. Exploration."),
 # Not claimed.
 dict(id="P90", title="Secret-dependent operations take constant time",
  statement="The time taken by operations on secret keys, authentication codes and padding does not depend on the secrets.",
  over=[I], text="all secrets and inputs",
  why="Tests do not measure time.",
  files=["ecc/edwards25519/edwards25519.go", "protocol/signal_message.go", "cipher/cbc.go"],
  mech=M(("comparison and table lookup", "ecc/edwards25519/edwards25519.go")),
  observe=["timing"], na="Observing executions gives timing only statistically, on shared hardware: a verdict would rest on wall-clock noise and could raise false alarms or miss small leaks; no sound runtime oracle is available here."),
 dict(id="P91", title="Ciphertexts are indistinguishable to an adversary",
  statement="No efficient adversary without the keys learns anything about plaintexts from messages, or forges a message, with more than negligible advantage.",
  over=[I], text="all efficient adversaries",
  why="Tests cannot quantify over adversaries.",
  files=["session/cipher.go", "kdf/hkdf.go"],
  mech=M(("encryption", "session/cipher.go")),
  observe=["messages"], na="A claim about all adversaries rests on cryptographic reductions; executions of the code cannot decide it. The observable parts (exact algorithms, fresh keys, authenticity) are P03, P05, P12, P16 and P31."),
]
