#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

AES = ["pkg/aes/aes.go", "pkg/aes/aes_internal.go"]
DES = ["pkg/des/des.go", "pkg/des/des_internal.go"]
UT = ["pkg/util.go"]
SRV = ["pkg/server/service.go", "pkg/server/repository.go", "pkg/server/machine.go"]
WR = ["pkg/server/wrapper.go"]
HT = ["pkg/server/routing.go", "pkg/server/handlers.go"]
CLI = ["cmd/dukptcli/main.go"]

p("P01", "AES initial and transaction keys follow the X9.24-3 derivation tree",
  "For every base derivation key of 16, 24 or 32 bytes and every key serial number, the AES initial key is derived with derivation data that names the first 8 key serial number bytes, and the AES transaction key is derived from the initial key by exactly one derivation step per set bit of the 32-bit counter, from the most to the least significant bit. Each step is keyed with the previous key and its derivation data carries key serial number bytes 5 to 8 and the counter bits consumed so far; a zero counter yields the initial key.",
  ["inputs"], "every key of each size, every 12-byte key serial number (every counter value), every initial key id of 8 bytes or more",
  "Tests derive 8 AES-128 keys with counters 1 to 8, so 28 of the 32 counter bits and both other key sizes are never exercised.",
  AES + UT, [("counter-bit loop", "aes.DeriveCurrentTransactionKey"), ("derivation data", "aes.createDerivationData"), ("block loop", "aes.derivationKey")], observe=["aes.DerivationOfInitialKey", "aes.DeriveCurrentTransactionKey"])
p("P02", "AES working keys are bound to purpose, direction, key type and serial number",
  "The key an AES operation works with is derived from the transaction key with derivation data that encodes the operation's purpose (PIN encryption, MAC generation for requests and verification for responses, data encryption for requests and decryption for responses), the algorithm and length of the requested key type, key serial number bytes 5 to 8 and its counter. Encrypting and decrypting use the same working key for the same action, different purposes never share one, and every action other than response counts as a request.",
  ["inputs", "configurations"], "every transaction key, key serial number, key type (AES128/192/256, HMAC128/192/256), action string",
  "Tests only reach AES128/HMAC128 working keys and the two documented action strings.",
  AES + UT, [("usage selection", "aes.EncryptPin, DecryptPin, GenerateCMAC, GenerateHMAC, EncryptData, DecryptData"), ("derivation data", "aes.createDerivationData")])
p("P03", "Every derived AES or HMAC key has exactly the length its type names",
  "Initial keys and transaction keys have exactly the length of the key they are derived from, and AES128/192/256 and HMAC128/192/256 working keys have exactly 16, 24 and 32 bytes. A longer or shorter key is never returned nor used with a cipher or MAC.",
  ["inputs", "configurations"], "every supported key length and key type",
  "Tests only derive 16-byte keys, where one cipher block is the whole key.",
  AES, [("block-wise derivation, truncated to the key length", "aes.derivationKey")])
p("P04", "TDES initial and transaction keys follow X9.24-1",
  "For every 16-byte base derivation key and every key serial number of up to 10 bytes, left-padded with FF bytes, the TDES initial key is the TDES encryption of the first 8 bytes of the serial number with its 21 counter bits cleared, under the base key (left half) and under the base key XOR C0C0C0C000000000C0C0C0C000000000 (right half). The transaction key applies the non-reversible key generation process once per set counter bit, from bit 21 down to bit 1, on the key and on the serial number holding exactly the counter bits consumed so far.",
  ["inputs"], "every 16-byte key, every key serial number of 0 to 10 bytes, every value of the 21-bit counter",
  "Tests use counters 1 to 5: 18 of the 21 counter bits, and padded serial numbers for transaction keys, are never exercised.",
  DES, [("shift register loop", "des.DeriveCurrentTransactionKey"), ("key generation process", "des.makeNonReversibleKey"), ("initial key", "des.DerivationOfInitialKey")])
p("P05", "TDES working keys are the purpose variants of the transaction key",
  "TDES PIN, MAC and data operations work with the transaction key XORed with the X9.24-1 table A-1 variant of their purpose and direction (PIN: bytes 7 and 15; MAC request 6 and 14, response 4 and 12; data request 5 and 13, response 3 and 11, each with FF), the data variant being encrypted under itself half by half. Encrypting and decrypting use the same working key for the same action, and every action other than response counts as a request.",
  ["inputs", "configurations"], "every 16-byte transaction key and every action string",
  "Tests sample five transaction keys and the two documented actions.",
  DES, [("variant masks", "des.EncryptData, DecryptData, GenerateMac, encryptPinblock, decryptPinblock")])
p("P06", "A MAC authenticates every byte of the message",
  "The TDES MAC is the 8-byte CBC-MAC of the zero-padded message under the left half of the MAC key followed by a decryption under the right half and an encryption under the left half. The AES CMAC and HMAC are AES-CMAC and HMAC-SHA256 over exactly the message bytes, returned in full.",
  ["inputs"], "every message (empty, partial last block, any length) and every key",
  "Tests use one 17-byte message.",
  AES + DES, [("CBC-MAC loop", "des.GenerateMac"), ("cmac/hmac", "aes.GenerateCMAC, aes.GenerateHMAC")])
p("P07", "Decrypting data returns what was encrypted",
  "For both algorithms, decrypting with the same transaction key, serial number, initial vector, key type and action what data encryption returned yields the plaintext, zero-padded on the right to a whole number of blocks and otherwise unchanged.",
  ["inputs"], "every plaintext, initial vector (absent, short, exact, long), key size and action",
  "Tests round-trip one 17-byte plaintext with no initial vector and AES-128/TDES keys.",
  AES + DES, [("CBC encrypt / CBC decrypt siblings", "aes.EncryptData/DecryptData, des.EncryptData/DecryptData")])
p("P08", "Data encryption is CBC over the zero-padded data with the normalized IV",
  "Ciphertext is the CBC encryption of the plaintext zero-padded to whole cipher blocks (an empty plaintext gives an empty ciphertext), and decryption is the CBC decryption of the given ciphertext under the same conventions. An absent initial vector is all zeros, a short one is padded with zeros on the right and a long one is cut to the block size, identically for encryption and decryption and without failing.",
  ["inputs"], "every plaintext or ciphertext length and every initial vector length",
  "Tests pass no initial vector at all and one data length.",
  AES + DES, [("IV normalization", "aes.serializeInitialVector, des.serializeInitialVector"), ("padding", "EncryptData, DecryptData")])
p("P09", "PIN encryption and decryption are mirror images",
  "PIN encryption encrypts exactly the PIN block the selected format builds from the given PIN and account number (ISO 9564 format 4 keyed with the PIN working key for AES, the named format regardless of letter case for TDES), and PIN decryption decodes the decryption of the given ciphertext with the same format, account number and key. A format that is unknown, or whose block is not one cipher block, is an error.",
  ["inputs", "configurations"], "every PIN, account number, format name and key",
  "Tests cover one PIN, one account number and ISO-0/ISO-4 only.",
  AES + DES, [("formatter choice", "des.EncryptPin/DecryptPin, aes.EncryptPin/DecryptPin"), ("PIN variant", "des.encryptPinblock/decryptPinblock")])
p("P10", "Keys of the wrong size or type are refused",
  "Every key derivation, PIN, MAC and data operation returns an error and no result when the key it is given is not a 16-byte key (TDES) or not of the 16, 24 or 32 bytes that the requested AES or HMAC key type names, and when the key type is not one the operation supports. A key is never silently padded, truncated or replaced.",
  ["inputs", "configurations"], "every key length (0 and up), every key type string, every operation",
  "No test passes a key of a wrong length or an unknown or mismatched key type.",
  AES + DES + ["encryption/aes_ecb.go", "encryption/des_ecb.go"], [("length checks", "aes.checkWorkingKeyLength, checkWorkingKeyLengthHmac, getDerivationKeyType; des.* entry checks")])
p("P11", "Library operations end and never panic",
  "No exported function of the key derivation, AES, TDES, block cipher and serial number packages panics or runs for ever, whatever the lengths and contents of its arguments; input it cannot process is reported as an error, or as an empty or false result where there is no error to return.",
  ["inputs"], "every combination of argument lengths, including nil and empty keys, serial numbers, initial vectors, plaintexts and ciphertexts",
  "Tests only pass well-formed arguments.",
  AES + DES + UT + ["encryption/aes_ecb.go", "encryption/des_ecb.go"], [("length checks before indexing, slicing and CBC set-up", "all exported functions")])
p("P12", "Library operations leave their arguments and shared state untouched",
  "No exported function of the key derivation, AES, TDES, block cipher and serial number packages writes to the byte slices it is given (including capacity beyond their length) or to package-level state, and no returned slice shares memory with an argument. The same arguments can therefore be reused, and used concurrently, without changing any result.",
  ["inputs", "schedules"], "every call, every slice capacity, any number of concurrent callers sharing the same slices",
  "Tests compare returned values only and hand every call slices they do not inspect afterwards.",
  AES + DES + UT + ["encryption/aes_ecb.go", "encryption/des_ecb.go"], [("defensive copies", "serializeKeySerialNumber, serializeInitialVector, GenerateNextAesKsn, GenerateNextDesKsn, createDerivationData, pinKey/dataKey copies")])
p("P13", "Advancing a serial number gives the next valid counter",
  "Advancing a key serial number returns one of the same length whose non-counter bits are unchanged and whose counter is the smallest one greater than before that has at most 16 (AES, the last 32 bits) or 10 (TDES, the last 21 bits) one bits. No valid counter is skipped, repeated or reached out of order, and a serial number is reported valid for AES exactly when its counter is non-zero with at most 16 one bits.",
  ["inputs", "histories"], "every key serial number, hence every sequence of advances from any starting counter",
  "Tests advance eight times from zero (AES) and once (TDES); no carry past a run of one bits is ever taken.",
  UT, [("increment and skip loop", "pkg.GenerateNextAesKsn, pkg.GenerateNextDesKsn"), ("validity", "pkg.IsValidAesKsn")])
p("P14", "An exhausted or malformed serial number is an error, never a wrap-around",
  "When no greater valid counter exists, advancing a serial number returns an error and no serial number; it never wraps around, returns a counter above 0xFFFF0000 (AES) or 0x1FF800 (TDES), or lets the counter spill into the other bits. A serial number too short or too long to be used (AES: not 12 bytes; TDES: 3 bytes or less, or more than 10) is refused, and key derivation refuses AES serial numbers that are not 12 bytes (initial key: at least 8) and TDES ones of more than 10.",
  ["inputs"], "every counter at and around the end of the counter space, every serial number length",
  "No test comes near the end of the counter space or passes a serial number of another length.",
  UT + AES + DES, [("bounds checks", "pkg.GenerateNextAesKsn, pkg.GenerateNextDesKsn; aes.checkKeySerialNumberLength; des length checks")])
p("P15", "Malformed hexadecimal input is refused",
  "A unified operation returns an error and no result when any key, serial number, initial vector or ciphertext that it uses is a non-empty string that is not hexadecimal; such a value is never treated as empty or as some other bytes. Hex decoding accepts both letter cases and returns nothing for a malformed string, and encoding is lower case and inverse to decoding.",
  ["inputs"], "every string in every hexadecimal parameter of every unified operation",
  "Tests only pass valid hexadecimal strings.",
  WR + UT, [("validation before decoding", "server.validateHex and its callers"), ("decoding", "pkg.HexDecode, pkg.HexEncode")])
p("P16", "Unified operations dispatch to the selected algorithm with the right arguments",
  "Each unified operation (initial key, transaction key, PIN, MAC and data operations) calls exactly the operation of the same name of the selected algorithm, with every parameter in its own position, and returns its result hex-encoded (or as is for decrypted text). The MAC operation uses CMAC or HMAC as selected, HMAC with the HMAC key type of the AES key size, and refuses any other MAC type for AES.",
  ["inputs", "configurations"], "every parameter set and every algorithm / MAC type / key type combination",
  "Service tests pass one parameter set per operation, with an empty initial vector.",
  WR, [("algorithm switch", "server.InitialKey .. server.DecryptData")])
p("P17", "A failure below is an error above, with no result",
  "In the derivation, cipher, unified operation and service layers, whenever a called operation fails the caller returns a non-nil error together with an empty result (empty string, nil slice or nil machine). No error is dropped, replaced by a success or returned along with usable output.",
  ["inputs", "fault_sequences"], "every point at which a called operation can fail, in every function of the library, unified operation and service layers",
  "Tests check success paths and a single error (already exists).",
  AES + DES + WR + SRV + ["encryption/aes_ecb.go", "encryption/des_ecb.go"], [("error returns", "every fallible call")])
p("P18", "Machine creation derives everything from the base key or stores nothing",
  "Creating a machine stores, under its initial key, a machine whose initial key and transaction key are those its algorithm derives from its base derivation key and key serial number and whose current serial number is that key serial number. When the machine is missing, its algorithm is not des or aes, a derivation fails or a machine with that initial key already exists, an error is returned and the stored machines are unchanged.",
  ["inputs", "histories", "fault_sequences"], "every machine (also one built without NewMachine) and every prior content of the store",
  "Tests create two well-formed machines and one duplicate.",
  SRV + WR, [("creation", "service.CreateMachine"), ("duplicate check", "repositoryInMemory.StoreMachine")])
p("P19", "Advancing a machine's serial number is all or nothing",
  "A successful advance moves the machine to the serial number that follows its current one under its own algorithm, replaces the transaction key with the one derived from its initial key and that new serial number, and returns that state. A failed advance (unknown machine, exhausted counter, failed derivation) leaves the stored serial number and transaction key as they were.",
  ["inputs", "histories", "fault_sequences"], "every machine state and every failure point within the advance",
  "Tests advance a fresh machine once and never fail an advance.",
  SRV + UT, [("compute, then update both fields", "service.MakeNextKSN")], state=[("CurrentKSN, TransactionKey", "the machine's current key state", "server.Machine")])
p("P20", "Concurrent requests never get the same serial number",
  "Reading a machine's current serial number, computing its successor and storing it happens inside one critical section, so that concurrent advances of the same machine are serialized and each successful one returns a different serial number. The transaction key that goes with a serial number is stored in the same critical section.",
  ["schedules"], "every interleaving of any number of concurrent advances and other requests",
  "The tests are single-threaded.",
  SRV, [("exclusive lock around read-modify-write", "service.MakeNextKSN")], state=[("CurrentKSN, TransactionKey", "the machine's current key state", "server.Machine")])
p("P21", "Stored machines are only touched under their lock",
  "Every read or write of the machine table happens while holding the lock that guards it, every read or write of a stored machine's fields while holding the lock that guards them, and writes only while holding it exclusively; the same lock guards the same data everywhere. Service calls can therefore run concurrently without data races, and every operation works on a serial number and transaction key that belong together.",
  ["schedules"], "every interleaving of service calls",
  "The tests are single-threaded and the race detector only sees the schedules a test runs.",
  SRV, [("table lock", "repositoryInMemory.mtx"), ("machine lock", "service.mtx")])
p("P22", "Machines handed in or out are copies",
  "The machine passed to create and the machines returned by get, list and advance never share memory with the stored ones: changing them afterwards does not change the service, and later service calls do not change them.",
  ["histories", "schedules"], "every sequence of service calls interleaved with uses of the machines passed in and returned",
  "Tests never modify or re-read a machine after the call.",
  SRV, [("copies", "service.CreateMachine, GetMachine, GetMachines, MakeNextKSN")])
p("P23", "Create, get, list and delete agree on what is stored",
  "Getting or listing returns exactly the machines created and not deleted, each under its own initial key with its current state; a duplicate creation fails with the already-exists error and leaves the existing machine unchanged; an unknown machine is reported with the not-found error. Deleting removes exactly the named machine and no other.",
  ["histories"], "every sequence of creates, gets, lists and deletes, from any store content",
  "Tests run three short fixed sequences with at most two machines.",
  SRV, [("table operations", "repositoryInMemory.StoreMachine, FindMachine, FindAllMachines, DeleteMachine")])
p("P24", "Every lock taken is released, and none is taken twice",
  "Every service and repository call releases, on every return path including every error path, exactly the locks it took, in the mode it took them, and never acquires a lock it already holds. A call that fails therefore never blocks later calls.",
  ["schedules", "fault_sequences"], "every path through every service and repository call",
  "Tests only take a few paths, one call at a time.",
  SRV, [("deferred unlocks", "repositoryInMemory.*, service.*")])
p("P25", "Service operations use the named machine's current key state",
  "PIN, MAC and data operations of the service run the unified operation of the same name with the algorithm, key type, current transaction key and current serial number of the named machine and with the caller's own arguments, an empty PIN format meaning ISO-0, and return its outcome unchanged. For an unknown machine they return an error that is recognizable as the not-found error and run nothing.",
  ["inputs", "histories"], "every machine state and every argument of the five operations",
  "Tests call each operation once on a fresh machine and never on an unknown one.",
  SRV + WR, [("parameter set-up", "service.EncryptPin .. service.DecryptData")])
p("P26", "Each HTTP route performs the operation it names",
  "Every documented method and route decodes its own request fields (letter for letter from the path and the JSON body), calls exactly the service operation it names with them, and returns that operation's result in its own response field. In particular the decrypt routes decrypt and the encrypt routes encrypt, no GET, HEAD or OPTIONS request creates, deletes or advances a machine, and no request of another method or path than the documented ones reaches a service operation.",
  ["inputs", "configurations"], "every other method and path; every documented route (GET /ping, /machines, /machine/{ik}; POST /machine, /generate_ksn, /encrypt_pin, /decrypt_pin, /generate_mac, /encrypt_data, /decrypt_data) and every request",
  "Tests exercise four of the routes with one request each; none of the cryptographic routes.",
  HT, [("route table", "server.MakeHTTPHandler"), ("decoders and endpoints", "pkg/server/handlers.go")])
p("P27", "A failed request is never answered as a success",
  "When the request cannot be decoded or the service operation fails, the HTTP response has an error status (404 for an unknown machine, 400 for an already existing one, otherwise 400 or above) and a JSON body (content type application/json) with the error text, and carries no result. Success answers have status 200.",
  ["inputs", "fault_sequences"], "every route and every failure of its decoder or service operation",
  "Tests only send requests that succeed.",
  HT, [("error encoding", "server.encodeResponse, encodeError, codeFrom, error() methods")])
p("P28", "The command line runs one operation, with that operation's own flags",
  "The command line tool runs at most one operation per invocation, the first selected in the order ik, tk, ep, dp, gm, en, de (the version flag, which prints the version, before all), with the selected algorithm and key type (the key type in either letter case) and with the values of that operation's own flags in their proper place. Flags left out default to off, to algorithm des, key type aes128, action request and MAC type cmac, and to the empty string otherwise.",
  ["configurations"], "every combination of flags and flag values",
  "The command line tool has no tests.",
  CLI, [("flag dispatch", "main.main")])
p("P29", "The command line reports failure by exit status and prints no result",
  "A result line is printed only when the selected operation succeeded, and then the exit status is zero. When a flag the operation requires is missing or invalid, the algorithm is unknown, no operation is selected, or the operation fails, the tool exits with a non-zero status without running the operation or printing a result, and it says why: a message is printed before every failing exit, with the operation's own error when the operation failed.",
  ["configurations", "fault_sequences"], "every combination of flags, flag values and outcomes",
  "The command line tool has no tests.",
  CLI, [("required flags and exit codes", "main.main, main.makeFuncCall")])
p("P30", "Keys, PINs and plaintext never reach errors or logs",
  "No error message, log line or diagnostic output built by this code contains any part of a base derivation key, transaction key, working key, PIN, account number or plaintext it handles; the only key-derived value that may be quoted is the machine identifier the caller supplied.",
  ["inputs"], "every error, log or diagnostic output on every path of the library, service, HTTP, command line and server code",
  "Tests do not look at error texts or logs.",
  AES + DES + UT + WR + SRV + HT + CLI + ["cmd/server/main.go", "encryption/aes_ecb.go", "encryption/des_ecb.go"], [("error construction sites", "fmt.Errorf / errors.New calls, logger calls")])
p("P31", "Block ciphers transform exactly one block under exactly the given key",
  "The AES and DES block ciphers accept exactly the key sizes of their algorithm (a 16-byte TDES key standing for K1 K2 K1), encrypt or decrypt exactly one block into fresh memory, and report any other key or block length as an error with no output. Decrypting an encrypted block yields the block.",
  ["inputs"], "every key and block, of every length",
  "The package has no tests; other tests reach it with well-formed keys and blocks only.",
  ["encryption/aes_ecb.go", "encryption/des_ecb.go"], [("constructors and length checks", "encryption.NewAesECB, NewDesECB, NewTripleDesECB, Encrypt, Decrypt")])
p("P32", "The server process serves this API, over TLS whenever it is configured",
  "The server process serves the HTTP API of one service on the configured address (the environment overriding the flag), with read, header, write and idle timeouts set, and serves TLS of version 1.2 or later, never plain HTTP, whenever both a certificate and a key file are configured. A termination signal or a failed listener (of the API or of the admin server) ends it through a graceful shutdown, which lets the requests in flight finish, and the admin server is bound to its own configured address (again the environment overriding the flag) and stays up as long as the API is served; when it cannot be bound, the error is reported and the exit status is not zero, and the process does not crash.",
  ["configurations", "fault_sequences"], "every setting of the flags and environment variables, and each of the termination causes",
  "The server command has no tests.",
  ["cmd/server/main.go"], [("wiring", "main.main")])
p("P37", "Browsers are let in from the request's own secure or local origin only",
  "Every pre-flight (OPTIONS) answer, every GET /ping answer and every answer to a documented request that could be decoded carries Access-Control-Allow-Origin with exactly the request's own Origin when that is an https:// or http://localhost: origin. No answer to any request names an origin of another kind, an origin other than the request's, or every origin, nor allows credentials without naming the origin, and a pre-flight request runs no operation.",
  ["inputs", "configurations"], "every method, path, Origin header and outcome of the operation",
  "Tests send one origin to four routes and look at the allowed origin of two answers.",
  HT, [("origin kept in the request context", "server.saveCORSHeadersIntoContext, respondWithSavedCORSHeaders"), ("pre-flight", "server.preflightHandler")])
p("P38", "Requests are handled independently of each other",
  "Handling a request writes no memory that the handling of another request can read or write at the same time (variables captured by the handlers, package variables), unless every access holds a lock; requests meet only in the service. Concurrent requests can therefore neither race nor see parts of each other's input, result or error.",
  ["inputs", "schedules"], "every pair of concurrent requests of any route",
  "Tests send one request at a time; a shared response variable or header shows only under concurrent requests.",
  HT, [("per-request values", "endpoints, decoders and encoders of pkg/server/handlers.go and routing.go")])
p("P34", "Which instructions run and which memory is used does not depend on secret values",
  "Within the library packages (pkg, pkg/aes, pkg/des, encryption), which way a branch goes, how often a loop runs, which element of a table, slice or map is used and how much memory is allocated depends on the lengths of keys, PINs, account numbers and plaintext at most, never on their content; only serial numbers, key types, actions, formats and whether a call failed may decide. Two keys, PINs or plaintexts of one length therefore take the same path. Excepted are the conversion from and to hexadecimal, and what the standard library's ciphers and pinblock do inside.",
  ["inputs"], "every pair of secret inputs of equal lengths", "Tests compare results; a shortcut for zero bytes or equal key halves gives the same results.",
  AES + DES, [("straight-line processing", "des.makeNonReversibleKey, des.GenerateMac, aes.derivationKey, encryption.DesECB, AesECB")])
p("P39", "No request and no command line crashes the program",
  "Handling an HTTP request of any method, path, headers and body, calling a unified operation or a service method with any arguments against any store of machines, running the command line tool with any flags, and starting and stopping the server process never panics (an index or slice out of range, a nil pointer, a failed type assertion, an explicit panic) and never loops without end, whether the operation succeeds or fails.",
  ["inputs", "configurations", "histories"], "every request, argument, flag, environment setting and store content",
  "Tests send well-formed requests for existing machines; the panics are on the ways taken by failures.",
  SRV + HT + CLI + WR + ["cmd/server/main.go"], [("failure paths", "endpoints, decoders and encoders of pkg/server, service methods, main functions")])
p("P40", "The same call gives the same result, anywhere and at any time",
  "The result and error of every library function and unified operation are a function of its arguments, and those of a service operation (and the machines it stores) of its arguments and the stored machines, the order of the machine list and creation times aside: they do not depend on the clock, randomness, the environment, files, or on which calls were made before, and computing them touches nothing outside the program: no file, network, process, environment or standard output. The two ends of an exchange therefore always derive the same keys.",
  ["inputs", "configurations", "histories"], "every argument, environment and sequence of earlier calls",
  "Tests run one call after another in one environment; a dependency shows only where that differs.",
  AES + DES + UT + WR + SRV + ["encryption/aes_ecb.go", "encryption/des_ecb.go"], [("operations", "exported functions of pkg, pkg/aes, pkg/des, encryption, unified operations, service methods")])
# not claimed
p("P33", "Compromising a transaction key reveals no other key",
  "From a transaction key and everything sent on the wire, earlier and sibling transaction keys, the initial key and the base derivation key cannot be computed with feasible effort.",
  ["inputs"], "every adversary and every key", "A computational security claim about the primitives; no test can settle it.",
  AES + DES, [("one-way derivation", "aes.derivationKey, des.makeNonReversibleKey")])
p("P35", "PIN blocks are encoded as their format specifies",
  "For each of the 14 formats, the PIN block built for a valid PIN and account number is the one its specification defines, decoding returns the PIN, and no ciphertext makes decoding panic.",
  ["inputs"], "every PIN, account number and format", "Tests use one PIN and account number with ISO-0 and ISO-4.",
  DES + AES, [("formatters", "github.com/moov-io/pinblock/formats (dependency)")])
p("P36", "A serial number is not reissued after a restart",
  "A machine's serial number is never issued again after the process restarts or crashes.",
  ["crash_points", "histories"], "every crash point and restart", "Tests never restart the service.",
  SRV, [("in-memory repository", "server.NewRepositoryInMemory")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in P: f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(P))
