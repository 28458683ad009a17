import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
K="signify/key.go"; C="signify/common.go"; S="signify/signature.go"; X="crypto/crypto.go"; B="base64/coding.go"; M="cmd/psignify/main.go"; E="signify/internal/edwards25519/edwards25519.go"; EC="signify/internal/edwards25519/const.go"

p("C01","Every signature that is made verifies",
 "Whenever signing a message with a secret key succeeds, verifying that message against the written signature with the matching public key succeeds, whether the signature path is given or left to its default of the message path plus '.sig'. With intact keys, the right passphrase, a readable message and a writable output, signing does succeed. This holds for every message content and length, every generated key (plain or passphrase-protected) and every legal file name.",
 ["inputs","configurations"],"all message lengths/contents, keys, passphrases, key/message/signature path names, fresh or pre-existing output files",
 "TestSign signs one text file with one key; lengths, key bytes, path forms and overwritten outputs are unbounded input space.",
 [K,S,C],[("Sign/Verify","signify/key.go: Sign, Verify"),("data file encode/parse","signify/common.go")],["signify.Sign","signify.Verify"])
p("C02","Verification accepts only the exact signed message under the right key",
 "Verification succeeds only when the signature file decodes to exactly one complete record tagged Ed25519 whose key number equals the public key's and whose 64-byte value is a valid Ed25519 signature of exactly the message's bytes under that public key. Any other signature, key or message, including ones differing in a single bit, truncated, extended, spliced or re-signed under another key with the same key number, is refused with an error.",
 ["inputs"],"all (public key, message, signature) triples, enumerated as every single-byte/bit/length mutation of each and all cross products of a small set of keys and messages",
 "The tests never verify anything invalid: no negative case exists at all.",
 [K,S,C],[("verifyEd25519 comparisons","signify/key.go"),("readSignatureData","signify/signature.go")],["signify.Verify"])
p("C03","Malformed key, signature and encrypted files are refused without crashing",
 "For every byte content of a key file, signature file or encrypted file, each operation that reads it either succeeds or returns an error; it never panics or hangs. A file whose decoded record does not have exactly the length of its kind (public key 42, secret key 104, signature 74 bytes), or whose algorithm tag is not Ed25519 (or, for a key still encrypted under a passphrase, whose KDF tag is not bcrypt), is never used successfully to verify, sign, encrypt or decrypt.",
 ["inputs"],"all file contents; enumerated as every truncation, every single-byte substitution, every record length, every two-byte tag, and all short sequences of line kinds",
 "Tests read only well-formed fixtures.",
 [K,S,C,X],[("record length and tag checks","signify/key.go readPublicKeyData/readPrivateKeyData, signify/signature.go readSignatureData"),("line scanner","signify/common.go readDataFileBytes")],["signify.LoadPublicKey","signify.LoadPrivateKey","signify.Verify","signify.Sign","crypto.Seal","crypto.Open"])
p("C04","Key and signature files follow the OpenBSD signify format in both directions",
 "Every generated key file and signature file is an 'untrusted comment: ' line followed by one base64 line holding the signify record (algorithm 'Ed'; for secret keys the KDF 'BK', big-endian rounds, salt, SHA-512 checksum prefix, key number, key; for signatures the key number and plain Ed25519 signature), with the signature comment naming the public key file. Conversely files written by another conforming implementation, with any comment line of up to signify's 1024 bytes, plain or bcrypt_pbkdf-protected, load and give identical signatures.",
 ["inputs","configurations"],"all key contents, round counts, comments and messages",
 "One OpenBSD fixture is read; nothing checks the bytes that are written, and a change made symmetrically to reader and writer is invisible to round-trip tests.",
 [K,S,C],[("encode/readXData","signify/key.go, signify/signature.go"),("dataFile","signify/common.go")],["files written by signify.GenerateKey and signify.Sign","signify.Verify","signify.Sign"])
p("C05","Generated key pairs are consistent and freshly random",
 "A generated public key is exactly the Ed25519 public key of the generated secret key, both carry the same key number, and the secret key's checksum matches its key material. The key seed, the key number and the KDF salt are each drawn in full from the system's random source, from disjoint output of it, so separate generations never share them.",
 ["inputs","histories"],"all outputs of the random source, with and without passphrase, all round counts, sequences of generations in one process",
 "Tests generate a few random keys and never look at salt, key number or reuse between generations.",
 [K],[("GenerateKeypair","signify/key.go")],["signify.GenerateKeypair","signify.GenerateKey"])
p("C06","A protected key opens with exactly its passphrase, at any attempt",
 "A key generated with a non-empty passphrase never has its secret stored in the clear, and signing or decrypting with it succeeds with exactly that passphrase and fails, leaving no output signature or plaintext, with every other one. A failed attempt on a loaded key changes nothing: a later attempt with the right passphrase on the same key still succeeds, and another wrong one still fails. Round counts that the key format cannot hold (below 1 or above 32 bits) are refused for a protected key.",
 ["inputs","histories"],"all pairs of generation passphrase and attempted passphrase (short strings over a small alphabet with NUL and space, long ones, one-character edits), all attempt sequences up to a depth",
 "Tests use one passphrase and never a wrong one; attempt histories are not exercised.",
 [K],[("decrypt + Check","signify/key.go"),("bcrypt_pbkdf","signify/key.go GenerateKeypair")],["signify.Sign","Private.ToBox","crypto.Open"],
 state=[("Private.key","secret, XOR-masked until the passphrase was accepted","signify/key.go")])
p("C07","Encrypting then decrypting returns the original message",
 "For every message, including the empty one and any length relative to the internal chunk size, encrypting to a public key succeeds and decrypting the result with the matching secret key succeeds and yields a file with exactly the original bytes, including when the output files already existed. The encrypted file defaults to the message path plus '.enc'.",
 ["inputs","configurations"],"all message lengths and contents, keys (plain or protected), path forms, chunk counts",
 "One 20-odd-chunk text is round-tripped; the empty message, chunk multiples and nonce-carry sizes are not.",
 [X,B,K],[("seal/open chunk loops","crypto/crypto.go"),("base64 framing","base64/coding.go")],["crypto.Seal","crypto.Open"])
p("C08","Decryption yields only authentic plaintext for the intended recipient",
 "Decryption reports success only if the bytes it wrote are exactly a message that was encrypted in full under the authenticated header to the holder of the secret key used. For a file whose header or announced chunks were altered, truncated, reordered, duplicated or spliced, or with another recipient's key, it reports an error, and whatever it wrote before is a prefix of the authentic message (nothing if the header does not authenticate).",
 ["inputs"],"all attacker edits, enumerated as every bit/byte change, every truncation, and every sequence of up to 4 blocks (5 thorough) drawn from two files' chunks under each header, and all sender/recipient pairs",
 "The tests only decrypt untouched files with the right key.",
 [X],[("header authenticator, per-chunk box with counter nonce","crypto/crypto.go open")],["crypto.Open"])
p("C09","Encrypted files follow the documented layout and never reuse a nonce",
 "An encrypted file is a comment line, then base64 in lines of at most 72 characters of: a 72-byte header (big-endian 64-bit chunk count, 32-byte ephemeral public key, 32-byte authenticator of the first 40 bytes under the box shared key) and the message in 16385-byte chunks (the last one shorter), chunk number i boxed under the 24-byte big-endian nonce i. Each encryption uses a fresh ephemeral key from the system's random source, so no two boxes share key and nonce. Any file of that layout made by another implementation decrypts.",
 ["inputs","histories"],"all messages, chunk counts across nonce carries (256, 65536), sequences of encryptions",
 "Round-trip tests cannot see a symmetric change, a repeated nonce or a reused ephemeral key; the fixture has fewer than 256 chunks.",
 [X,B],[("header layout","crypto/crypto.go seal"),("incrementNonce","crypto/crypto.go")],["files written by crypto.Seal","crypto.Open"])
p("C10","Signing keys convert to encryption keys exactly as specified",
 "Converting a public key yields the Curve25519 point u = (1+y)/(1-y) of its Ed25519 point, and converting the matching secret key yields the clamped SHA-512 scalar whose Curve25519 public key is that same point. Bytes that are not a curve point, and points of small order (for which the shared secret would be predictable), are refused.",
 ["inputs"],"all keys; enumerated over families of seeds and of point encodings (small, near-prime, powers of two, non-canonical, both signs, all small-order points)",
 "Tests convert a handful of random keys and check only mutual agreement, never an invalid point or a reference value.",
 [K,E,EC],[("Public.ToBox / Private.ToBox","signify/key.go"),("field arithmetic","signify/internal/edwards25519")],["Public.ToBox","Private.ToBox"])
p("C11","The base64 encoder is a correct line-breaking writer for every write pattern",
 "However the data is split into writes, the encoder's output after closing is the standard base64 of the concatenated data in lines of 72 characters (the last one possibly shorter), ending in a newline. Each write reports exactly the number of bytes it was given unless it returns an error, and an error of the underlying writer is returned by the write or close that met it, never swallowed.",
 ["inputs","fault_sequences"],"all splits of short data into writes, all cut pairs of data spanning line breaks, an error at every underlying write",
 "One 72-byte write is tested, without Close.",
 [B],[("Encoder.Write/Close","base64/coding.go")],["base64.NewEncoder"],state=[("index/line","bytes pending in the current quantum / on the current line","base64/coding.go Encoder")])
p("C12","The base64 decoder is a correct reader for every buffer and source behaviour",
 "For a source holding well-formed base64 broken by newlines anywhere, successive reads with buffers of any sizes return exactly the decoded bytes and then end-of-file, whatever the source's read behaviour allowed by the reader contract (data with end-of-file, empty reads). Reads never panic or return more than fits, an error of the source is returned, and input that is truncated inside a base64 group or contains characters other than base64 and line breaks ends in an error rather than in a clean end-of-file.",
 ["inputs","fault_sequences"],"all buffer-size sequences over a small size set for short streams, all newline placements, every source answer pattern and an error at every byte",
 "One 72-byte read with a 72-byte buffer is tested.",
 [B],[("Decoder.Read","base64/coding.go")],["base64.NewDecoder"])
p("C13","Streaming encryption never silently loses part of a message",
 "When encrypting from a stream reports success, the ciphertext decrypts to everything the stream held up to its end, however the stream splits its data into reads and even when the stream holds more or less than the size announced beforehand. A read error of the source or a write error of the destination makes encryption, and likewise decryption, return an error.",
 ["inputs","fault_sequences"],"all read-split patterns within a bound of deviations from full reads, announced sizes around the true size, an error at every read and write",
 "Tests use in-memory buffers that always fill the request.",
 [X],[("seal/open read and write loops","crypto/crypto.go")],["crypto.Seal","crypto.Open","package-level streaming functions behind them"],hook="harness overlay exports the package's seal/open (names pinned by the existing tests)")
p("C14","Success is only reported when the whole output reached storage",
 "If any system call on an input or output file fails, or storage for an output runs out after any number of bytes, then generating keys, signing, encrypting and decrypting report failure (an error, or a non-zero exit of the command) unless the output is nevertheless complete and correct. Verification never reports success because of such a failure.",
 ["fault_sequences"],"an I/O error at every file system call of each command and exhaustion of space at every byte of each output",
 "Tests never inject a fault.",
 [X,K,C,B,M],[("error propagation on write, flush and close","crypto/crypto.go Seal/Open, signify/common.go writeDataFile")],["process exit status","returned errors"])
p("C15","A crash leaves no half-made output that passes for a finished one",
 "If the process generating a new key pair, under names not in use, is killed at any point, a public key file that loads is always accompanied by its complete matching secret key file. At no moment does key material of the secret key sit in a file that group or others could open. A signature or encrypted file torn at any byte is either refused or, if accepted, verifies and decrypts to exactly the full original.",
 ["crash_points"],"every prefix of the file-operation log of each command with every torn byte prefix of each write",
 "Tests never interrupt anything.",
 [K,C,X],[("write order .sec before .pub","signify/key.go GenerateKey")],["files left behind","signify.Verify","crypto.Open"])
p("C16","Secret key files are private to their owner",
 "After key generation succeeds, the secret key file grants no permission to group or others and can be read by its owner, whatever the process umask and whether or not a file with wider permissions already existed there.",
 ["configurations"],"all 512 umasks, pre-existing file modes, plain and protected keys",
 "No test looks at file modes.",
 [K,C],[("file creation mode","signify/common.go writeDataFile, signify/key.go GenerateKey")],["file mode of the .sec file"])
p("C17","Operations change only their output and do not influence each other",
 "Each operation creates or replaces only its designated output files (key generation: the two key files; sign: the signature; encrypt: the encrypted file; decrypt: the message), fully replacing previous content even when that was longer, and verification changes nothing. The result of each operation in any sequence depends only on the current contents of the files it names, the passphrase given and fresh randomness, not on earlier operations in the same process or on other files.",
 ["histories"],"all operation sequences up to a depth over two key pairs, two messages, shared output paths and tampering steps, compared step by step with a reference model",
 "Tests perform at most two operations in a row on fresh outputs.",
 [K,X,C,M],[("stateless functions over named files","signify/key.go, crypto/crypto.go")],["file system content after each step","returned errors"])
p("C18","The command's exit status tells the truth",
 "Given one of -G, -S, -V, -E and -D, the command exits 0 only if that operation was carried out in full and successfully on the files named by the options (for -V: the signature is valid), printing OK on standard output for -V, -E and -D. In every other case (failed operation, missing required argument, no mode, unknown option) it exits non-zero, with a message on standard error and no OK; only an explicit help request (-h) may exit 0 without doing anything. Valid arguments in any order lead to exit 0.",
 ["configurations","inputs"],"all combinations of one mode flag (or none) with each path option absent, valid, wrong or missing, option orders, and unknown options at every position",
 "The command has no tests.",
 [M],[("main dispatch and os.Exit","cmd/psignify/main.go")],["exit status, stdout, stderr and files of the psignify command"])
p("C19","Default key paths are the same key for every mode",
 "When key options are omitted the command uses <home>/.signify/<user>.sec and <home>/.signify/<user>.pub: keys generated without -p are the ones that -S, -V, -E and -D use without -s and -p. An explicit option always takes precedence, and -G -p NAME writes exactly NAME.sec and NAME.pub. If home and user cannot be determined and a needed key option is missing, the command fails.",
 ["configurations","histories"],"all subsets of omitted options across generate/sign/verify/encrypt/decrypt sequences, environments with and without home and user",
 "The command has no tests.",
 [M],[("defaultKeyBase and defaulting","cmd/psignify/main.go")],["files created and exit status of the psignify command"])
p("C20","Concurrent operations on unrelated data do not interfere",
 "When a program runs two library operations concurrently (generate, sign, verify, encrypt, decrypt, key conversion, base64 coding) on separate objects and output files (they may read the same files), each produces the same result and output as when it runs alone, under every interleaving, and without a data race.",
 ["schedules"],"all interleavings, at every file, stream, prompt and random-source interaction, of all pairs of operations within a preemption bound; plus a race-detector run of the same bodies",
 "Tests are single-threaded.",
 [K,X,B,S,C],[("no shared mutable state","all packages")],["results and outputs of the exported functions"])
p("C21","Passphrases are asked for exactly when needed and wiped after use",
 "Signing and decrypting ask for a passphrase exactly once per operation, without confirmation, when the secret key is protected and still locked, and never otherwise; a passphrase that cannot be obtained makes the operation fail without producing its output content. When the operation returns, successfully or not, the passphrase bytes it was handed have been overwritten with zeros. Generating with the command asks for confirmation and creates no files if the two entries differ.",
 ["histories","fault_sequences"],"all combinations of key kind, prompt answer (right, wrong, empty, error), operation and operation sequences on one loaded key",
 "Tests stub the prompt with a constant and never look at how often it is called or what becomes of the bytes.",
 [K,X,C,M],[("PassphrasePrompt, zero","signify/key.go Sign/ToBox, signify/common.go zero")],["calls of signify.PassphrasePrompt and the slice it returned","terminal interaction of psignify -G"])
p("C22","Curve arithmetic agrees with integer arithmetic modulo the prime and order",
 "The field, scalar and group operations of the curve package compute what integer arithmetic modulo 2^255-19 (and modulo the group order) and the Edwards addition law define, for every operand within their documented bounds, including when source and destination overlap; encodings of field elements are canonical.",
 ["inputs"],"all operands built from boundary limbs (bounded number of limbs away from a base value), families of field elements, points and scalars",
 "The package has no tests; random keys practically never hit carry boundaries.",
 [E,EC],[("FeMul/FeSquare/FeInvert/FeToBytes/FromBytes/ScMulAdd/...","signify/internal/edwards25519/edwards25519.go")],["exported functions of the curve package"])
p("C23","A damaged or substituted secret key is never used",
 "A secret key whose key material does not match its stored checksum (a plain key with any damaged byte of key or checksum, or a protected key with any damaged byte of salt, checksum or encrypted key even under the right passphrase) is refused by signing, decryption and key conversion with an error, without asking for a passphrase when the key is not protected, and no signature or plaintext is produced.",
 ["inputs"],"every single-byte substitution (and pairs within a set) of the checksummed fields of plain and protected key files, each operation",
 "Tests only load intact keys.",
 [K],[("Check","signify/key.go Check, decrypt, ToBox, Sign")],["signify.Sign","Private.ToBox","crypto.Open"])
p("C24","Signatures are unforgeable and ciphertexts secret against computing adversaries",
 "Without the secret key nobody can produce a signature that verifies for a message that was not signed, nor learn anything but the length of an encrypted message.",
 ["inputs"],"all computationally bounded adversaries",
 "A computational security claim quantifies over adversary algorithms, not over inputs a test can sample.",
 [K,X],[("Ed25519, nacl/box","golang.org/x/crypto")],["signify.Verify","crypto.Open"])
p("C25","Running time does not depend on secrets",
 "Signing, key conversion and decryption take time and touch memory independently of secret key and passphrase bytes.",
 ["inputs"],"all pairs of secrets",
 "Timing is not observed by any test.",
 [K,X,E],[("constant-time primitives","golang.org/x/crypto, signify/internal/edwards25519")],["execution time"])
p("C26","Secrets never show up in anything an operation emits",
 "Apart from the owner-only secret key file and the decrypted message themselves, nothing an operation writes, prints or returns, on success or failure (public key files, signatures, encrypted files and their comments, other files, standard output and error, error texts), contains the passphrase, the secret key or keys derived from it, the ephemeral secret of an encryption or the plaintext of an encrypted file, or depends on them beyond what the formats define; a protected secret key file shows neither its key nor its passphrase. Passphrases typed at a terminal are not echoed, and its settings are afterwards as before.",
 ["inputs","configurations"],"all keys, passphrases, messages and ways to succeed or fail; all pairs of secrets",
 "Tests never look at error texts, comments or terminal output, and a leak does not change any result they compare.",
 [K,C,S,X,M],[("error texts","signify/key.go, crypto/crypto.go"),("PassphrasePrompt","signify/key.go"),("comments","signify/key.go Sign, GenerateKey")],["errors, files, standard output and error of every operation","the terminal"])
p("C27","Operations release everything they take, however they end",
 "When a library operation returns, successfully or with an error at any point, every file it opened is closed and nothing of the caller's was, no goroutine it started goes on running, no temporary or other undesignated file is left behind, and working directory, umask, environment and resource limits are as before; so any number of operations can follow in one process.",
 ["inputs","histories"],"all operations, keys and single faults (inputs missing or malformed, outputs unwritable or full, no descriptors, no randomness, wrong or no passphrase, failing streams), and long repetitions",
 "Tests run each operation once in a short-lived process and hardly make any fail.",
 [K,C,X],[("defer Close","crypto/crypto.go Seal, Open"),("explicit close","signify/common.go writeSecretFile")],["the process's descriptors, goroutines and files around each operation"])
p("C28","Messages of any size are encrypted and decrypted in bounded memory",
 "Encrypting and decrypting work through the message a chunk at a time: memory use does not grow with the length of the message, and output follows input closely instead of only after all of it was read, so that messages larger than memory can be processed.",
 ["inputs"],"all message lengths",
 "The tests' message is 450 KB; nothing observes memory.",
 [X,B],[("chunk loops","crypto/crypto.go seal, open"),("streaming coder","base64/coding.go")],["memory use of crypto.Seal and crypto.Open, order of reads and writes"])
with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
