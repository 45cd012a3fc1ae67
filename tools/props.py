#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl. Run: python3 tools/props.py"""
import json, os

DES, DESI = "pkg/des/des.go", "pkg/des/des_internal.go"
AES, AESI = "pkg/aes/aes.go", "pkg/aes/aes_internal.go"
UTIL = "pkg/util.go"
ECBA, ECBD = "encryption/aes_ecb.go", "encryption/des_ecb.go"
SVC, REPO, WRAP, MACH = ("pkg/server/service.go", "pkg/server/repository.go",
                         "pkg/server/wrapper.go", "pkg/server/machine.go")
HND, RTE = "pkg/server/handlers.go", "pkg/server/routing.go"
CLI = "cmd/dukptcli/main.go"

P = []

def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)

# ------------------------------------------------------------------ TDES
p("D01", "TDES initial key is the ANSI X9.24-1 derivation for every BDK and KSN",
  "For every 16-byte base derivation key and every key serial number of at most 10 bytes (a shorter one counts as left-padded with FF bytes), the TDES initial key is TDES of the 8 left-most serial-number bytes with the 21 counter bits cleared, under the base key for the left half and under the base key XOR C0C0C0C0 00000000 C0C0C0C0 00000000 for the right half. In particular the transaction counter never influences it.",
  ["inputs"], "all 16-byte BDKs x all KSNs of 0..10 bytes",
  "One BDK and one KSN family are sampled; 2^128 x 2^80 inputs, incl. counter bits set, are not.",
  [DES, DESI, ECBD], [("initial key derivation", DES), ("KSN padding and counter masking", DESI)],
  observe=["des.DerivationOfInitialKey"])

p("D02", "TDES transaction key follows ANSI X9.24-1 for every counter value",
  "For every 16-byte initial key and every key serial number of at most 10 bytes (shorter: left-padded with FF), the transaction key is the result of applying the ANSI X9.24-1 non-reversible key generation process once per set counter bit, from the most significant of the 21 bits to the least, each time with the serial number holding only the counter bits processed so far. A zero counter leaves the initial key unchanged.",
  ["inputs"], "all initial keys x all KSNs, all 2^21 counters",
  "Tests follow counters 1..5 of one device; a wrong bit order, mask or carry-over above bit 3 is never seen.",
  [DES, DESI], [("shift-register loop", DES), ("non-reversible key generation", DESI)],
  observe=["des.DeriveCurrentTransactionKey"])

p("D03", "TDES MAC is the retail MAC under the direction's MAC key variant",
  "For every 16-byte transaction key and every message, the MAC is the 8-byte ISO 9797-1 algorithm 3 value over the zero-padded message: single-DES CBC with zero IV under the left half, then decrypt under the right half and encrypt under the left half. The key is the transaction key with bytes 6 and 14 inverted for requests and bytes 4 and 12 inverted for responses; any other action string behaves as request.",
  ["inputs"], "all keys x all messages x all actions",
  "One 17-byte message is tested; block-boundary lengths, empty messages, long messages and unknown actions are not.",
  [DES], [("MAC key variant, CBC loop, final D/E", DES)], observe=["des.GenerateMac"])

p("D04", "TDES data encryption is TDES-CBC under the direction's data key",
  "For every 16-byte transaction key, IV and message, encrypted data is TDES-CBC of the zero-padded message under the data key obtained by TDES-encrypting both halves of the transaction key variant (bytes 5 and 13 inverted for requests, bytes 3 and 11 for responses, unknown actions count as request) under that variant itself. A missing IV is all zero, a short IV is right-padded with zeros and only the first 8 bytes of a longer one are used; decryption uses the same key and IV rules, treats a partial last block as zero-padded, and returns the whole decrypted block sequence.",
  ["inputs"], "all keys x IVs (absent/short/exact/long) x messages x actions",
  "Only the nil IV and one 17-byte message are tested; every explicit IV is outside the tests.",
  [DES], [("data key variant and CBC", DES)], observe=["des.EncryptData", "des.DecryptData"])

p("D05", "TDES data decryption inverts encryption for every key, IV and message",
  "Whenever TDES data encryption succeeds, decrypting the result with the same key, IV and action returns the original message followed only by the zero bytes that fill the last 8-byte block. This holds for every IV length, including absent, short and over-long IVs, and for both actions.",
  ["inputs"], "all keys x messages x IVs x actions",
  "Tests check the prefix only, on one message without IV.",
  [DES], [("IV normalisation and padding on both sides", DES)], observe=["des.EncryptData", "des.DecryptData"])

p("D06", "TDES PIN encryption is TDES of the PIN block under the PIN variant",
  "For every 16-byte transaction key, every valid PIN and PAN and every documented 8-byte PIN block format (format names are case-insensitive), the encrypted PIN is exactly one block: TDES, under the transaction key with bytes 7 and 15 inverted, of a PIN block laid out as that format prescribes. Unknown formats and PINs of fewer than 4 digits are rejected with an error.",
  ["inputs", "configurations"], "all keys, PINs, PANs x formats x random fill",
  "Only ISO-0 with one PIN/PAN is tested; the other 12 formats and their random fill never run.",
  [DES, DESI], [("PIN block formatter call", DES), ("PIN key variant", DESI)], observe=["des.EncryptPin"])

p("D07", "TDES PIN decryption returns the PIN that was encrypted, in every format",
  "For every 16-byte transaction key and PAN and each documented 8-byte PIN block format, decrypting an encrypted PIN with the same key, PAN and format (in any letter case) returns exactly the PIN digits the format carries. That is the whole PIN of 4 to 12 digits, or its first 4 digits for ECI2 and first 6 for ECI3 and VISA2.",
  ["inputs", "configurations"], "all keys, PINs of 4..12 digits, PANs x formats x random fill",
  "One ISO-0 PIN round-trips in tests; other formats and lengths are never decrypted.",
  [DES, DESI], [("formatter decode on the decrypted block", DES)], observe=["des.EncryptPin", "des.DecryptPin"])

p("D08", "TDES operations refuse key material that is not 16 bytes long",
  "Deriving TDES keys, encrypting or decrypting PINs or data and computing MACs with a base key, initial key or transaction key whose length is not exactly 16 bytes returns an error and no result. No operation silently pads, truncates or replaces a key.",
  ["inputs"], "all key lengths 0..40 except 16, all contents, all other arguments",
  "Tests only use 16-byte keys.",
  [DES, DESI], [("key length checks", DES)],
  observe=["des.DerivationOfInitialKey", "des.DeriveCurrentTransactionKey", "des.EncryptPin", "des.DecryptPin", "des.GenerateMac", "des.EncryptData", "des.DecryptData"])

# ------------------------------------------------------------------ AES
p("A01", "AES initial key is the X9.24-3 derivation, with the BDK's length",
  "For every base derivation key of 16, 24 or 32 bytes and every serial number of at least 8 bytes, the AES initial key is the left-most bytes, as many as the base key has, of AES-ECB under the base key over derivation blocks 01 | block counter | 8001 | algorithm | key bits | first 8 serial-number bytes, with the block counter starting at 1. Base keys of any other length are rejected with an error.",
  ["inputs"], "all BDKs of every length 0..40, all KSNs",
  "Only AES-128 with one key is tested; AES-192 and AES-256 never run.",
  [AES, AESI, ECBA], [("derivation data layout", AESI), ("key block loop", AESI)], observe=["aes.DerivationOfInitialKey"])

p("A02", "AES transaction key follows X9.24-3 for every counter and key size",
  "For every initial key of 16, 24 or 32 bytes and every 12-byte serial number, the transaction key has the initial key's length and results from one X9.24-3 key derivation step (usage 8000) per set bit of the 32-bit counter, from most to least significant, each step using the right half of the initial key ID and the counter bits processed so far. Initial keys of other lengths are rejected with an error.",
  ["inputs"], "all initial keys of the three sizes x all KSNs, all 2^32 counters",
  "Tests follow counters 1..8 for one AES-128 key; higher bits and the other key sizes never run.",
  [AES, AESI], [("counter bit loop", AES), ("derivation data layout", AESI)], observe=["aes.DeriveCurrentTransactionKey"])

p("A03", "AES CMAC is AES-CMAC under the derived generation/verification key",
  "For every transaction key of 16, 24 or 32 bytes with matching key type, every 12-byte serial number and every message, the CMAC is the RFC 4493 / SP 800-38B AES-CMAC of exactly that message under the working key derived with usage 2000 for requests and 2001 for responses. Any action other than response behaves as request.",
  ["inputs"], "all keys, KSNs, messages, actions",
  "One 17-byte message with AES-128 is tested; block-aligned, empty and long messages and larger keys are not.",
  [AES, AESI], [("working key derivation and CMAC", AES)], observe=["aes.GenerateCMAC"])

p("A04", "AES-DUKPT HMAC is HMAC-SHA-256 under the derived key",
  "For every transaction key of 16, 24 or 32 bytes with matching HMAC key type, every 12-byte serial number and every message, the HMAC is the 32-byte HMAC-SHA-256 of exactly that message under the working key of the same length derived for HMAC with usage 2000 for requests and 2001 for responses. Any action other than response behaves as request.",
  ["inputs"], "all keys, KSNs, messages, actions",
  "One message with a 128-bit key is tested.",
  [AES, AESI], [("HMAC key derivation", AES)], observe=["aes.GenerateHMAC"])

p("A05", "AES data encryption is AES-CBC under the direction's derived data key",
  "For every transaction key of 16, 24 or 32 bytes with matching key type, every 12-byte serial number, IV and message, encrypted data is AES-CBC of the zero-padded message under the working key derived with usage 3000 for requests and 3001 for responses (unknown actions count as request). A missing IV is all zero, a short IV is right-padded with zeros and only the first 16 bytes of a longer one are used; decryption uses the same key and IV rules, treats a partial last block as zero-padded, and returns the whole decrypted block sequence.",
  ["inputs"], "all keys, KSNs, IVs, messages, actions",
  "Only the nil IV, one message and AES-128 are tested.",
  [AES, AESI], [("data key derivation, IV handling, CBC", AES)], observe=["aes.EncryptData", "aes.DecryptData"])

p("A06", "AES data decryption inverts encryption for every key, IV and message",
  "Whenever AES data encryption succeeds, decrypting the result with the same key, serial number, IV, key type and action returns the original message followed only by the zero bytes that fill the last 16-byte block. This holds for every IV length, including absent, short and over-long IVs, for all key sizes and both actions.",
  ["inputs"], "all keys, KSNs, IVs, messages, actions",
  "Tests check one AES-128 message without IV.",
  [AES], [("IV normalisation and padding on both sides", AES)], observe=["aes.EncryptData", "aes.DecryptData"])

p("A07", "AES PIN encryption is an ISO 9564 format 4 block under the PIN key",
  "For every transaction key of 16, 24 or 32 bytes with matching key type, every 12-byte serial number, PIN of 4 to 12 digits and PAN of 12 to 19 digits, the encrypted PIN is one AES block E(E(plain PIN field) XOR PAN field) under the working key derived with usage 1000, where the plain PIN field is control nibble 4, PIN length, the PIN, fill A and 8 random bytes, and the PAN field is the PAN length minus 12, the PAN and zeros. PINs and PANs of other lengths are rejected with an error.",
  ["inputs"], "all keys, KSNs, PINs, PANs, random fill",
  "Output is randomised, so the test only checks that decryption gives the PIN back.",
  [AES, AESI], [("PIN key derivation and format 4 encoding", AES)], observe=["aes.EncryptPin"])

p("A08", "AES PIN decryption returns the PIN that was encrypted",
  "For every transaction key of 16, 24 or 32 bytes with matching key type, 12-byte serial number, PIN of 4 to 12 digits and PAN of 12 to 19 digits, decrypting an encrypted PIN with the same key, serial number, PAN and key type returns exactly that PIN. This holds whatever random fill was drawn.",
  ["inputs"], "all keys, KSNs, PINs, PANs, random fill",
  "One PIN/PAN with a 16-byte key is tested.",
  [AES], [("format 4 decoding under the PIN key", AES)], observe=["aes.EncryptPin", "aes.DecryptPin"])

p("A09", "AES working keys require a key type that matches the key length",
  "AES PIN, CMAC and data operations succeed only with key type AES128, AES192 or AES256 and a transaction key of exactly 16, 24 or 32 bytes respectively, and HMAC only with HMAC128, HMAC192 or HMAC256 and the same lengths. Every other combination of key length and key type string is an error with no result.",
  ["inputs"], "all key lengths 0..40 x all key type strings up to 8 bytes",
  "Only matching pairs with 16-byte keys are tested.",
  [AES, AESI], [("length/type checks", AESI)],
  observe=["aes.EncryptPin", "aes.DecryptPin", "aes.GenerateCMAC", "aes.GenerateHMAC", "aes.EncryptData", "aes.DecryptData"])

# ------------------------------------------------------------------ KSN
p("K01", "Next TDES KSN is the next counter with at most ten set bits",
  "For every TDES key serial number, advancing it replaces only the 21-bit counter, by the smallest larger counter value that has at most 10 set bits, and keeps length and all other bits. If no such counter exists the call fails with an error instead of wrapping around or returning an unusable serial number.",
  ["inputs", "histories"], "all KSNs of 4..10 bytes, all 2^21 counters",
  "One increment (1 to 2) is tested; counters needing the skip and the exhausted region are not.",
  [UTIL], [("skip loop and exhaustion checks", UTIL)], observe=["pkg.GenerateNextDesKsn"])

p("K02", "Next AES KSN is the next counter with at most sixteen set bits",
  "For every 12-byte AES key serial number, advancing it keeps the 8-byte initial key ID and replaces the 32-bit counter by the smallest larger value that has at most 16 set bits. If no such counter exists (the counter has reached FFFF0000) the call fails with an error instead of wrapping around or returning an unusable serial number.",
  ["inputs", "histories"], "all 12-byte KSNs, all 2^32 counters",
  "Counters 0..8 are tested; skips and the exhausted region are not.",
  [UTIL], [("skip loop and exhaustion checks", UTIL)], observe=["pkg.GenerateNextAesKsn"])

p("K03", "AES KSN validity: counter non-zero with at most sixteen set bits",
  "An AES key serial number of at least 5 bytes is reported valid exactly when its last four bytes, read big-endian, are non-zero and have at most 16 set bits. Every serial number produced by successfully advancing another is valid, and the counter read from a TDES serial number is its low 21 bits.",
  ["inputs"], "all KSNs, all 2^32 counters",
  "Only small counters are checked.",
  [UTIL], [("bit counting", UTIL)], observe=["pkg.IsValidAesKsn", "pkg.GetAesTcFromKsn", "pkg.GetDesTcFromKsn"])

# ------------------------------------------------------------------ cross-cutting
p("R01", "TDES operations never panic, whatever the arguments",
  "No TDES key derivation, PIN, MAC or data operation panics for any byte slices (nil, empty, short or long) and strings passed to it. Malformed input produces an error or a defined result.",
  ["inputs"], "all byte-slice lengths in the bound, all contents, all strings in the bound",
  "Tests only pass well-formed arguments.",
  [DES, DESI], [("argument checks", DES)], observe=["every exported function of pkg/des"])

p("R02", "AES operations never panic, whatever the arguments",
  "No AES key derivation, PIN, CMAC, HMAC or data operation panics for any byte slices (nil, empty, short or long) and strings passed to it. Malformed input produces an error or a defined result.",
  ["inputs"], "all byte-slice lengths in the bound, all contents, all strings in the bound",
  "Tests only pass well-formed arguments.",
  [AES, AESI], [("argument checks", AES)], observe=["every exported function of pkg/aes"])

p("R03", "KSN and hex helpers never panic, whatever the arguments",
  "No serial-number helper (reading, validating or advancing counters) and no hex conversion panics for any byte slice or string, including nil and ones shorter than a counter. A serial number too short to be advanced yields an error.",
  ["inputs"], "all lengths in the bound, all contents",
  "Tests only pass 12-byte and 10-byte serial numbers.",
  [UTIL], [("length checks", UTIL)], observe=["every exported function of pkg"])

p("R04", "No operation modifies the caller's byte slices",
  "Key derivation, PIN, MAC, data and serial-number operations leave every byte slice passed to them unchanged when they return, including the memory between a slice's length and its capacity. Results never share memory with the arguments in a way that lets a later call change an earlier argument or result.",
  ["inputs", "histories"], "all contents, slices with and without spare capacity",
  "Tests reuse slices without looking at them afterwards, and never with spare capacity.",
  [DES, AES, AESI, UTIL], [("copies before in-place edits and appends", AESI)],
  observe=["every exported function of pkg, pkg/des, pkg/aes"])

p("L01", "Library calls are independent: no earlier or concurrent call affects one",
  "The result of a key-derivation, PIN, MAC, data, serial-number or single-block cipher operation depends only on its own arguments (and, for random PIN fills, on the random source): it is the same whatever operations were called before it and whatever the caller did with their results, and the same when other operations run at the same time, also when these are given the same key, serial-number or data slices or use the same cipher object. Concurrent operations do not race with each other.",
  ["inputs", "histories", "schedules"], "pairs of operations with arbitrary arguments, one after the other and at the same time",
  "Every test calls one operation at a time and never repeats a call after a different one.",
  [DES, DESI, AES, AESI, UTIL, ECBA, ECBD], [("absence of package-level mutable state and of writes to arguments", DESI)],
  observe=["every exported function of pkg, pkg/des, pkg/aes, encryption"])

p("E01", "ECB wrappers compute exactly one block of the right cipher or fail",
  "The DES, two-/three-key TDES and AES single-block wrappers accept exactly the key sizes 8, 16/24 and 16/24/32 bytes, use K1-K2-K1 for a 16-byte TDES key, and encrypt or decrypt exactly one block of 8 or 16 bytes, any other length being an error. Decrypting an encrypted block, or encrypting a decrypted one, gives it back, and neither call changes its input.",
  ["inputs"], "all keys of lengths 0..40, all blocks of lengths 0..40",
  "The package has no tests of its own.",
  [ECBD, ECBA], [("key expansion and length checks", ECBD)], observe=["encryption.NewDesECB", "encryption.NewTripleDesECB", "encryption.NewAesECB"])

p("U01", "Hex decoding inverts encoding and rejects malformed text as a whole",
  "Encoding any bytes gives two lower-case hex digits per byte, and decoding that text, in either letter case, gives the bytes back. Text of odd length or containing any non-hex character decodes to nothing, never to a partial value.",
  ["inputs"], "all byte strings and all texts within the length bound",
  "Helpers are only exercised on well-formed constants.",
  [UTIL], [("hex codec", UTIL)], observe=["pkg.HexEncode", "pkg.HexDecode"])

# ------------------------------------------------------------------ service
p("S01", "Creating a machine stores it under its derived initial key",
  "Creating a machine from a supported algorithm, a valid base key and serial number succeeds exactly when both derivations do; the machine then carries the initial key and the transaction key of its serial number as lower-case hex and can be found under that initial key with all its fields. When the algorithm is unknown, the key is unusable or the machine is nil, creation returns an error and nothing is stored.",
  ["inputs", "histories"], "all algorithms, BDKs, KSNs",
  "One DES and one AES machine are created in tests.",
  [SVC, WRAP, MACH], [("create flow", SVC), ("algorithm dispatch", WRAP)],
  state=[("machines", "stored machines keyed by initial key hex", REPO)], observe=["Service.CreateMachine", "Service.GetMachine", "Service.GetMachines"])

p("S02", "A rejected duplicate creation leaves the existing machine untouched",
  "Creating a machine whose initial key is already present fails with the already-exists error, and the stored machine keeps its current serial number, transaction key and configuration. This holds however far the existing machine has advanced and even if the caller passes the same machine object again.",
  ["inputs", "histories"], "all machines x any number of advances before the duplicate",
  "Tests check the error only, never the state afterwards.",
  [SVC, REPO], [("existence check under lock", REPO)], observe=["Service.CreateMachine", "Service.GetMachine"])

p("S03", "Advancing a machine moves to the next KSN with its transaction key",
  "Advancing a machine sets its serial number to the next valid one for its algorithm and its transaction key to the derivation of that serial number from the machine's initial key, and returns exactly that state, which later look-ups also see. When the counter is exhausted it returns an error and the machine keeps its serial number and transaction key.",
  ["inputs", "histories"], "any machine state (arbitrary current KSN), any number of advances",
  "One advance from counter 1 to 2 is tested, and the transaction key is not checked.",
  [SVC, UTIL], [("advance flow", SVC)], state=[("CurrentKSN/TransactionKey", "must always belong together", MACH)],
  observe=["Service.MakeNextKSN", "Service.GetMachine"])

p("S04", "Service operations use the named machine's current key and KSN",
  "Each PIN, MAC and data operation of the service returns exactly what the library operation of the machine's algorithm returns for that machine's current transaction key, serial number and key type and the caller's arguments, in hex where the library returns bytes. An empty PIN format means ISO-0, an HMAC request on an AES machine uses the HMAC key type of the machine's key size, and the operation changes no machine.",
  ["inputs", "histories"], "all machines in any advanced state, all arguments",
  "Each operation is tested once on a fresh machine; none after an advance.",
  [SVC, WRAP], [("parameter assembly", SVC), ("dispatch", WRAP)],
  observe=["Service.EncryptPin", "Service.DecryptPin", "Service.GenerateMac", "Service.EncryptData", "Service.DecryptData"])

p("S05", "The service behaves as a map from initial key to machine",
  "After any sequence of create, look-up, list, advance and delete calls, look-up and list return exactly the machines created and not yet deleted, each in its latest state, and an operation on one machine never changes another. A deleted initial key can be created again and starts fresh, and deleting an unknown key changes nothing.",
  ["histories"], "all call sequences within the bound, all initial keys",
  "Tests run one create/list/delete sequence.",
  [REPO, SVC], [("keyed store", REPO)], state=[("machines", "stored machines keyed by initial key hex", REPO)],
  observe=["Service", "Repository"])

p("S06", "Operations on an unknown machine fail without any effect",
  "Every service operation naming an initial key that is not stored returns an error that identifies the not-found condition and no result. The set of machines and their states stay as they were, and look-up by initial key is an exact match.",
  ["inputs", "histories"], "all initial key strings x any stored machines",
  "No test names an unknown machine.",
  [SVC, REPO], [("look-up before use", SVC)], observe=["Service"])

p("S07", "Algorithm dispatch: each unified call runs exactly the named algorithm",
  "Each unified operation (initial key, transaction key, PIN, MAC, data) with algorithm aes or des returns exactly the hex or text of the corresponding AES or TDES library call on the hex-decoded arguments, and returns its error when that call fails. Only the names des and aes pass algorithm validation, and an AES MAC type other than cmac or hmac is an error.",
  ["inputs", "configurations"], "all parameter sets within the length bounds",
  "Wrappers are only reached through a few service tests.",
  [WRAP], [("dispatch", WRAP)], observe=["server.InitialKey", "server.TransactionKey", "server.EncryptPin", "server.DecryptPin", "server.GenerateMac", "server.EncryptData", "server.DecryptData"])

p("S08", "Concurrent advances never hand out the same KSN or a torn key",
  "When several callers advance the same machine at the same time, every successful call returns a different serial number together with the transaction key of that same serial number, and no advance is lost. Operations running at the same time use a serial number and transaction key that belong together.",
  ["schedules"], "all interleavings of two concurrent calls within the context-switch bound",
  "Every test is single-threaded.",
  [SVC, REPO, MACH], [("locking around read-modify-write of the machine", SVC)],
  state=[("CurrentKSN/TransactionKey", "pair updated by advance", MACH)], observe=["Service.MakeNextKSN", "Service.GetMachine"])

p("S09", "Concurrent creates, look-ups and deletes are atomic and race-free",
  "When two callers create machines with the same initial key at the same time exactly one succeeds, and creates, deletes, look-ups and listings of machines running concurrently each take effect at one instant. No interleaving makes two callers touch the machine table without mutual exclusion.",
  ["schedules"], "all interleavings of two concurrent repository/service calls within the context-switch bound",
  "Every test is single-threaded.",
  [REPO], [("RW lock", REPO)], state=[("machines", "map guarded by mtx", REPO)], observe=["Repository", "Service"])

# ------------------------------------------------------------------ HTTP
p("H01", "Each HTTP route performs its own operation with the request's values",
  "Every documented route invokes exactly the service operation it is named after, once, with the initial key from the path and each body field in its own argument position, and answers 200 with the operation's result in the documented field of a JSON object whose error field is null. Decrypt routes decrypt, encrypt routes encrypt. A request whose method and path are not in the route table invokes no operation and gets an error status.",
  ["inputs", "configurations"], "all routes x all field values",
  "Tests reach only ping, create, list and find.",
  [HND, RTE], [("request decoding", HND), ("route table", RTE)], observe=["HTTP responses"])

p("H02", "A failed operation is never answered as a success over HTTP",
  "When a service operation behind a route fails, the response status is 404 for an unknown machine, 400 for an already existing one (wrapped errors included) and 500 otherwise, and the JSON body carries the error text in its error field and no result. A request body that is not valid JSON, breaks off, cannot be read, or holds something other than text in a field of the operation gets an error status and invokes no operation.",
  ["inputs", "fault_sequences"], "all routes x all errors the service can return",
  "No test sends a failing request.",
  [RTE, HND], [("error encoding and status mapping", RTE)], observe=["HTTP responses"])

p("H03", "Machines created over HTTP can be read back and used over HTTP",
  "A successful POST of a base key answers with the initial key under which the machine then answers to find, list, KSN generation and every cryptographic route, with the state the service holds. Encrypting then decrypting data or a PIN over HTTP with the same parameters gives the original back.",
  ["inputs", "histories"], "all base keys, messages and PINs within the bound",
  "Tests create and find one DES machine; no cryptographic route is tested.",
  [HND, RTE, SVC], [("request/response structs", HND)], observe=["HTTP responses"])

p("H04", "Every successful response allows exactly the request's own Origin (CORS)",
  "Every successful response of the HTTP API, including ping, pre-flight OPTIONS requests and all machine routes, allows exactly the Origin the request carried when that is a secure page (https://) or a local one (http://localhost:), and carries no allow-origin header for any other origin or none. Serving one request never leaks another request's origin.",
  ["inputs", "histories"], "all origins x all routes",
  "One origin on three routes is tested.",
  [RTE], [("origin saved in and read from the request context", RTE)], observe=["HTTP response headers"])

# ------------------------------------------------------------------ CLI
p("C01", "The CLI runs one operation, by documented priority, on its own flags",
  "With any set of main flags the CLI performs exactly one operation, the first in the order version, ik, tk, ep, dp, gm, en, de, passing the values of that operation's own flags and the algorithm flags to the matching library operation, and prints its result as one RESULT line with exit status 0. Flags belonging to other operations never influence the result.",
  ["inputs", "configurations"], "all subsets of main flags x all flag values",
  "The CLI has no tests.",
  [CLI], [("flag dispatch", CLI)], observe=["stdout and exit status of dukptcli"])

p("C02", "The CLI refuses missing or invalid parameters and never prints a result",
  "If a flag required by the selected operation and algorithm is empty, the algorithm is unknown, or the operation fails, the CLI exits with a non-zero status, prints a message and prints no RESULT line. With no main flag at all it prints usage and exits non-zero.",
  ["inputs", "configurations"], "all operations x all subsets of missing flags x both algorithms",
  "The CLI has no tests.",
  [CLI], [("parameter checks", CLI)], observe=["stdout and exit status of dukptcli"])

p("C03", "The CLI's documented AES key types and MAC types all work",
  "With the aes algorithm, every documented key type (aes128, aes192, aes256, in any letter case) works with a transaction key of that size for PIN, MAC and data operations, for both cmac and hmac, and gives the same result as the library with the corresponding key type. The documented default key type works with 16-byte keys.",
  ["inputs", "configurations"], "all key types x MAC types x key values",
  "The CLI has no tests.",
  [CLI, WRAP], [("key type flag handling", CLI)], observe=["stdout of dukptcli"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    print(len(P), "properties")
