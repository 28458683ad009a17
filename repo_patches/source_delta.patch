From 72c1612609a22898aca84ce0ca8de831edaa69b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 01/17] fix: refuse signature records of the wrong length

A short record made Verify panic (fewer than 10 bytes) or was completed
with zero bytes, a long one was accepted with its tail ignored.
---
 signify/signature.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/signify/signature.go b/signify/signature.go
index 9308cf7..8985f77 100644
--- a/signify/signature.go
+++ b/signify/signature.go
@@ -2,6 +2,7 @@ package signify
 
 import (
 	"bytes"
+	"fmt"
 	"io/ioutil"
 
 	"golang.org/x/crypto/ed25519"
@@ -25,6 +26,10 @@ func (sig *Signature) encode() []byte {
 }
 
 func readSignatureData(data []byte) (*Signature, error) {
+	if len(data) != (keyAlgoLength + keyNumLength + signatureLength) {
+		return nil, fmt.Errorf("signify: invalid signature length %d", len(data))
+	}
+
 	sig := &Signature{}
 	copy(sig.pkAlgo[:], data[:2])
 	copy(sig.keyNum[:], data[2:keyNumLength+2])
-- 
2.43.0


From bd9a3d252331089cdee8cf9c0a9dd49eaa6414e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 02/17] fix: refuse private key records of the wrong length

A truncated record was completed with zero bytes because
bytes.Buffer.Read returns what is left without an error, and a longer
one was accepted with its tail ignored.
---
 signify/key.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 7e49e25..c1a14fa 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -134,6 +134,10 @@ func (priv *Private) sign(message []byte) (*Signature, error) {
 }
 
 func readPrivateKeyData(data []byte) (*Private, error) {
+	if len(data) != (keyAlgoLength + kdfAlgoLength + 4 + saltLength + checksumLength + keyNumLength + secretKeyLength) {
+		return nil, fmt.Errorf("signify: invalid private key length %d", len(data))
+	}
+
 	buf := bytes.NewBuffer(data)
 	priv := &Private{}
 
-- 
2.43.0


From e3a9d1ebfe7d95cca9efe679bcdc54a055df902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 03/17] fix: do not sign, encrypt or decrypt with keys of
 another algorithm

Only Verify looked at the algorithm tag of a key. Signing with a key of
another algorithm produced a signature that never verifies, and sealing
treated any 32 bytes as an Ed25519 point.
---
 signify/key.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index c1a14fa..55fd19a 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -146,6 +146,10 @@ func readPrivateKeyData(data []byte) (*Private, error) {
 		return nil, err
 	}
 
+	if string(priv.keyAlgo[:]) != "Ed" {
+		return nil, errors.New("signify: not an Ed25519 private key")
+	}
+
 	_, err = buf.Read(priv.kdfAlgo[:])
 	if err != nil {
 		return nil, err
@@ -323,6 +327,10 @@ func (pub *Public) ToBox() (*[32]byte, error) {
 	var oneMinusY = &edwards25519.FieldElement{}
 	var x = &edwards25519.FieldElement{}
 
+	if string(pub.keyAlgo[:]) != "Ed" {
+		return nil, errors.New("signify: not an Ed25519 public key")
+	}
+
 	edpub := [32]byte{}
 	copy(edpub[:], pub.key[:])
 
-- 
2.43.0


From 7a2e997d0f147052e2d814f543de785af10ca247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 04/17] fix: never use an unprotected private key whose
 checksum is wrong

Sign did not look at the checksum of an unprotected key and produced
signatures that do not verify; ToBox asked for a passphrase and then
used the damaged key anyway.
---
 signify/key.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 55fd19a..cd19076 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -227,6 +227,11 @@ func Sign(privatePath, messagePath, signaturePath string) error {
 		}
 	}
 
+	err = priv.Check()
+	if err != nil {
+		return err
+	}
+
 	message, err := ioutil.ReadFile(messagePath)
 	if err != nil {
 		return err
@@ -255,6 +260,10 @@ func Sign(privatePath, messagePath, signaturePath string) error {
 func (priv *Private) ToBox() (*[32]byte, error) {
 	err := priv.Check()
 	if err != nil {
+		if !priv.IsEncrypted() {
+			return nil, err
+		}
+
 		var passphrase []byte
 		passphrase, err = PassphrasePrompt(false)
 		if err != nil {
-- 
2.43.0


From 1e79e6bcd495f712dd0d4c43d2cdc129845e97fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 05/17] fix: a wrong passphrase no longer spoils the loaded
 private key

decrypt left the key XORed with the wrong mask, so the right passphrase
failed on the same key afterwards.
---
 signify/key.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index cd19076..31add16 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -115,6 +115,10 @@ func (priv *Private) decrypt(password []byte) error {
 
 	err = priv.Check()
 	if err != nil {
+		// Leave the key as it was, so that another passphrase can be tried.
+		for i := range priv.key[:] {
+			priv.key[i] ^= xorkey[i]
+		}
 		return err
 	}
 
-- 
2.43.0


From 6bff6f6d1cc308488f8288aa4f88b198253c9a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 06/17] fix: wipe the passphrase in ToBox as Sign does

---
 signify/key.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/signify/key.go b/signify/key.go
index 31add16..fe12e8c 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -273,6 +273,7 @@ func (priv *Private) ToBox() (*[32]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		defer zero(&passphrase)
 
 		err = priv.decrypt(passphrase)
 		if err != nil {
-- 
2.43.0


From ed8f9eff82c28af0f2b50ac2fda9aab273f2292b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 07/17] fix: keep the signature comment on one line

A key file name with a newline in it broke the signature file: the rest
of the name was taken for the signature.
---
 signify/key.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signify/key.go b/signify/key.go
index fe12e8c..dab7b2e 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -251,7 +251,7 @@ func Sign(privatePath, messagePath, signaturePath string) error {
 	}
 
 	pubKeyPath := strings.TrimSuffix(privatePath, ".sec") + ".pub"
-	comment := "untrusted comment: verify with " + filepath.Base(pubKeyPath)
+	comment := "untrusted comment: verify with " + strings.Replace(filepath.Base(pubKeyPath), "\n", " ", -1)
 	err = writeDataFile(signaturePath, comment, sig.encode())
 	if err != nil {
 		return err
-- 
2.43.0


From 3d98c00f5f9ec87c57cf0452632e5d6d495d8dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 08/17] fix: refuse round counts that the private key format
 cannot hold

A negative count became billions of rounds, one above 32 bits was cut to
its low bits, leaving a much weaker key than asked for.
---
 signify/key.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index dab7b2e..c8a13c2 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"path/filepath"
 	"strings"
 
@@ -453,6 +454,8 @@ func GenerateKeypair(passphrase []byte, opts *GenerateOptions) (*Private, *Publi
 
 	if len(passphrase) == 0 {
 		priv.kdfRounds = 0
+	} else if opts.Rounds < 1 || int64(opts.Rounds) > math.MaxUint32 {
+		return nil, nil, errors.New("signify: invalid number of KDF rounds")
 	} else {
 		priv.kdfRounds = uint32(opts.Rounds)
 	}
-- 
2.43.0


From 189719f16ccb5f3a9c48f4fa936ea53de176853e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 09/17] fix: make the private key file readable by its owner
 only

It was created with mode 0644.
---
 signify/common.go | 20 ++++++++++++++++++++
 signify/key.go    |  2 +-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/signify/common.go b/signify/common.go
index eb8cbd2..b7ae48d 100644
--- a/signify/common.go
+++ b/signify/common.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"encoding/base64"
 	"io/ioutil"
+	"os"
 	"strings"
 )
 
@@ -59,6 +60,25 @@ func writeDataFile(path, comment string, data []byte) error {
 	return ioutil.WriteFile(path, dataFile.Encode(), 0644)
 }
 
+// writeSecretFile is writeDataFile for a file that only its owner may read.
+func writeSecretFile(path, comment string, data []byte) error {
+	file, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0600)
+	if err != nil {
+		return err
+	}
+
+	// An existing file keeps its mode, and the umask may have removed bits.
+	err = file.Chmod(0600)
+	if cerr := file.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		return err
+	}
+
+	return writeDataFile(path, comment, data)
+}
+
 func zero(buf *[]byte) {
 	if buf == nil {
 		return
diff --git a/signify/key.go b/signify/key.go
index c8a13c2..27e1a92 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -502,7 +502,7 @@ func GenerateKey(keyPath string, passphrase []byte, opts *GenerateOptions) error
 		return err
 	}
 
-	err = writeDataFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode())
+	err = writeSecretFile(keyPath+".sec", "untrusted comment: signify private key", priv.encode())
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 60e80636a73d3f7796336df6a60d1d31cb0f6bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 10/17] fix: report the number of bytes written by the base64
 encoder

Write returned the number of bytes encoded so far, a multiple of three:
fewer than it was given without an error, or more when completing a
group begun by an earlier Write.
---
 base64/coding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base64/coding.go b/base64/coding.go
index a309128..0540f09 100644
--- a/base64/coding.go
+++ b/base64/coding.go
@@ -73,7 +73,7 @@ func (w *Encoder) Write(p []byte) (int, error) {
 		}
 	}
 
-	return written, nil
+	return len(p), nil
 }
 
 // Decoder is a base64 decoder that handles sources with newlines.
-- 
2.43.0


From 263c32ebfc17aeb7a4e5e32d499a30e5ea275e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 11/17] fix: make the base64 decoder a proper io.Reader

Read panicked when the buffer was smaller than a decoded group, never
returned io.EOF, lost the last byte of a source that returns it together
with io.EOF, and repeated a byte after an empty read.
---
 base64/coding.go | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/base64/coding.go b/base64/coding.go
index 0540f09..f289ea5 100644
--- a/base64/coding.go
+++ b/base64/coding.go
@@ -78,7 +78,8 @@ func (w *Encoder) Write(p []byte) (int, error) {
 
 // Decoder is a base64 decoder that handles sources with newlines.
 type Decoder struct {
-	r io.Reader
+	r    io.Reader
+	rest []byte // decoded bytes that did not fit in the buffer of the last Read
 }
 
 // NewDecoder returns a new Decoder over a Reader.
@@ -93,6 +94,16 @@ func (r *Decoder) Close() error {
 }
 
 func (r *Decoder) Read(p []byte) (int, error) {
+	if len(p) == 0 {
+		return 0, nil
+	}
+
+	if len(r.rest) > 0 {
+		n := copy(p, r.rest)
+		r.rest = r.rest[n:]
+		return n, nil
+	}
+
 	enclen := base64.StdEncoding.EncodedLen(len(p))
 	buf := make([]byte, 0, enclen)
 	c := make([]byte, 1)
@@ -103,21 +114,27 @@ func (r *Decoder) Read(p []byte) (int, error) {
 			break
 		}
 
-		_, err := r.r.Read(c)
+		m, err := r.r.Read(c)
+		if m > 0 && c[0] != 0xa {
+			buf = append(buf, c[0])
+			n++
+		}
+
 		if err != nil {
 			if err == io.EOF {
 				break
 			}
 			return 0, err
 		}
+	}
 
-		if c[0] == 0xa {
-			continue
-		}
-
-		buf = append(buf, c[0])
-		n++
+	if n == 0 {
+		return 0, io.EOF
 	}
 
-	return base64.StdEncoding.Decode(p, buf)
+	out := make([]byte, base64.StdEncoding.DecodedLen(n))
+	m, err := base64.StdEncoding.Decode(out, buf)
+	n = copy(p, out[:m])
+	r.rest = out[n:m]
+	return n, err
 }
-- 
2.43.0


From d5966f3b951aa149904169e3923d71b4754946af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 12/17] fix: seal the empty message too

Sealing it wrote no header, so the result could not be opened although
Seal reported success.
---
 crypto/crypto.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index d476fc0..a2dd0ab 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -51,10 +51,6 @@ func incrementNonce(nonce *[24]byte) error {
 }
 
 func seal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) error {
-	if messageLen == 0 {
-		return nil
-	}
-
 	var shared [32]byte
 	edpub, err := pub.ToBox()
 	if err != nil {
-- 
2.43.0


From 8db86997052da14cb003835fe63309d069a24677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 13/17] fix: seal all of a message that comes in short reads or
 has grown

Each read was taken for a full chunk, so after a short one the end of
the message was left out of the sealed file without an error. The same
happened to what a message holds beyond the size the file system gave
for it: pipes and /proc files have size 0.
---
 crypto/crypto.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index a2dd0ab..4e47c03 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -93,8 +93,8 @@ func seal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) e
 	chunk := make([]byte, chunkSize)
 	nonce := [24]byte{}
 	for i := 0; i < chunks; i++ {
-		n, err := message.Read(chunk)
-		if err != nil {
+		n, err := io.ReadFull(message, chunk)
+		if err != nil && err != io.ErrUnexpectedEOF {
 			return err
 		}
 
@@ -110,6 +110,15 @@ func seal(pub *signify.Public, message io.Reader, messageLen int, w io.Writer) e
 		}
 	}
 
+	// The length was measured before reading; do not drop the rest of
+	// a message that is longer than that.
+	_, err = io.ReadFull(message, chunk[:1])
+	if err == nil {
+		return errors.New("signify/crypto: message is longer than expected")
+	} else if err != io.EOF {
+		return err
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 3dc9d7199439f4428e4269181a3047f55f844b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 14/17] fix: report errors of the last write and of closing the
 output

Seal ignored the errors of flushing the encoder and, like Open, of
closing its output, and reported success for an incomplete file.
---
 crypto/crypto.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crypto/crypto.go b/crypto/crypto.go
index 4e47c03..0f5f4c9 100644
--- a/crypto/crypto.go
+++ b/crypto/crypto.go
@@ -156,9 +156,14 @@ func Seal(publicPath, messagePath, encryptedPath string) error {
 	}
 
 	encoder := base64.NewEncoder(encrypted)
-	defer encoder.Close()
-
-	return seal(pub, message, messageLen, encoder)
+	err = seal(pub, message, messageLen, encoder)
+	if cerr := encoder.Close(); err == nil {
+		err = cerr
+	}
+	if cerr := encrypted.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
 
 func open(priv *signify.Private, message io.Reader, w io.Writer) error {
@@ -237,5 +242,9 @@ func Open(privatePath, encryptedPath, messagePath string) error {
 	}
 	defer message.Close()
 
-	return open(priv, decoder, message)
+	err = open(priv, decoder, message)
+	if cerr := message.Close(); err == nil {
+		err = cerr
+	}
+	return err
 }
-- 
2.43.0


From 4cfad72f6fba0de733f27b4ef17351ba3610a1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 15/17] fix: exit non-zero on a bad option

flag.Usage also runs after a parse error, so its os.Exit(0) made
'psignify -V -bogus ...' succeed without verifying anything. The flag
package exits with 0 after -h and with 2 after an error.
---
 cmd/psignify/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cmd/psignify/main.go b/cmd/psignify/main.go
index 600a919..88fd9a9 100644
--- a/cmd/psignify/main.go
+++ b/cmd/psignify/main.go
@@ -25,7 +25,6 @@ Usage: %s -S -s seckey -m message [-x sigfile]
 func init() {
 	flag.Usage = func() {
 		usage(os.Stdout)
-		os.Exit(0)
 	}
 }
 
-- 
2.43.0


From 768f60713efd54ea2f76008ad33f348fd1b9695e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 16/17] fix: generate the default keypair under its default
 name

-G without -p wrote USER.pub.sec and USER.pub.pub, which no other mode
looks for.
---
 cmd/psignify/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/psignify/main.go b/cmd/psignify/main.go
index 88fd9a9..1c08dd9 100644
--- a/cmd/psignify/main.go
+++ b/cmd/psignify/main.go
@@ -77,6 +77,10 @@ func main() {
 
 	if pubKeyFile == "" && keyBase != "" {
 		pubKeyFile = keyBase + ".pub"
+		if generate {
+			// -G takes the base name of the pair.
+			pubKeyFile = keyBase
+		}
 	}
 
 	if generate {
-- 
2.43.0


From f67ed1da8c7f82b765337a6c37cc85c7d40c33ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 17/17] fix: refuse public keys of small order for encryption

As libsodium's conversion does. The shared secret with such a point is
known to everyone, so the message was not protected at all.
---
 signify/key.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/signify/key.go b/signify/key.go
index 27e1a92..6be0aae 100644
--- a/signify/key.go
+++ b/signify/key.go
@@ -353,6 +353,17 @@ func (pub *Public) ToBox() (*[32]byte, error) {
 		return nil, errors.New("signify: invalid public key")
 	}
 
+	// Anyone can compute the secret shared with a point of small order.
+	var B = *A
+	for i := 0; i < 3; i++ {
+		var D edwards25519.CompletedGroupElement
+		B.Double(&D)
+		D.ToExtended(&B)
+	}
+	if edwards25519.FeIsNonZero(&B.X) == 0 {
+		return nil, errors.New("signify: invalid public key")
+	}
+
 	edwards25519.FeOne(oneMinusY)
 	edwards25519.FeSub(oneMinusY, oneMinusY, &A.Y)
 	edwards25519.FeOne(x)
-- 
2.43.0

