From 7114ee4d335ba5cb020b5059d41c3512ed626551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:57 +0000
Subject: [PATCH 01/14] fix: authenticate empty payloads

An empty plaintext was encrypted to nothing and an empty payload was
accepted as an empty plaintext, so any file could be truncated to its
header and nonce without being noticed.
---
 src/age/stream.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/age/stream.py b/src/age/stream.py
index 9a34a08..44646fd 100644
--- a/src/age/stream.py
+++ b/src/age/stream.py
@@ -24,6 +24,10 @@ def stream_encrypt(key: bytes, data: bytes) -> bytes:
     aead = ChaCha20Poly1305(key)
     blocks = math.ceil(len(data) / PLAINTEXT_BLOCK_SIZE)
 
+    if not data:
+        # an empty plaintext is sealed as a single, empty, final block
+        return aead.encrypt(nonce=_pack_nonce(0, last_block=True), data=b"", associated_data=None)
+
     encrypted = b""
     for nonce, block in enumerate(_chunk(data, PLAINTEXT_BLOCK_SIZE)):
         last_block = nonce == blocks - 1
@@ -40,6 +44,10 @@ def stream_decrypt(key: bytes, data: bytes) -> bytes:
     aead = ChaCha20Poly1305(key)
     blocks = math.ceil(len(data) / CIPHERTEXT_BLOCK_SIZE)
 
+    if not data:
+        # even an empty plaintext has a final block, so this payload was truncated
+        raise ValueError("Payload is truncated")
+
     decrypted = b""
     for nonce, block in enumerate(_chunk(data, CIPHERTEXT_BLOCK_SIZE)):
         last_block = nonce == blocks - 1
-- 
2.43.0


From f0e8fb4c244c8972d22d16585d7a267245fbf009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 02/14] fix: refuse a payload that ends in an empty block

The final block may only be empty if the whole payload is.
---
 src/age/stream.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/age/stream.py b/src/age/stream.py
index 44646fd..f8bd8cf 100644
--- a/src/age/stream.py
+++ b/src/age/stream.py
@@ -55,4 +55,8 @@ def stream_decrypt(key: bytes, data: bytes) -> bytes:
 
         decrypted += aead.decrypt(nonce=packed_nonce, data=block, associated_data=None)
 
+    if blocks > 1 and len(decrypted) == (blocks - 1) * PLAINTEXT_BLOCK_SIZE:
+        # only an empty plaintext may end in an empty block
+        raise ValueError("Last block of the payload is empty")
+
     return decrypted
-- 
2.43.0


From ad13cf528ff0989327c0481315ceea6e55c1ba2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 03/14] fix: keep trying when an SSH key does not match a
 recipient

The SSH algorithms report a foreign fingerprint with ValueError, which
aborted decryption although another stanza or identity matched.
---
 src/age/recipients/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/age/recipients/helpers.py b/src/age/recipients/helpers.py
index 4814876..f8a40c0 100644
--- a/src/age/recipients/helpers.py
+++ b/src/age/recipients/helpers.py
@@ -31,7 +31,8 @@ def decrypt_file_key(
         for key in _filter_keys_for_recipient(recipient, keys):
             try:
                 return recipient.decrypt(key)
-            except InvalidTag:
+            except (InvalidTag, ValueError):
+                # this key does not open this recipient, but another one might
                 continue
 
     raise NoIdentity("No matching key")
-- 
2.43.0


From ead030b580f886d9a99eadfafaa9bc6ee5d91bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 04/14] fix: hash HMAC keys only if they exceed the block size

Keys of 33 to 64 bytes produced a MAC that differs from RFC 2104.
---
 src/age/primitives/hmac.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/age/primitives/hmac.py b/src/age/primitives/hmac.py
index 018f6e8..f4aa57c 100644
--- a/src/age/primitives/hmac.py
+++ b/src/age/primitives/hmac.py
@@ -7,7 +7,8 @@ __all__ = ["HMAC"]
 
 
 def _reduce_key(key: bytes) -> bytes:
-    if len(key) > 32:
+    # RFC 2104: only keys longer than the block size (64 bytes for SHA-256) are hashed
+    if len(key) > 64:
         digest = hashes.Hash(hashes.SHA256(), backend=default_backend())
         digest.update(key)
         key = digest.finalize()
-- 
2.43.0


From 013dbd7a98400146dd867b252aa12a6fa8206e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 05/14] fix: check operand sizes before the X25519 scalar
 multiplication

A stanza with a short ephemeral share made libsodium read past the end
of the buffer, and excess bytes of a long share were ignored.
---
 src/age/primitives/x25519.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/age/primitives/x25519.py b/src/age/primitives/x25519.py
index 7a4be3d..6ec4d7a 100644
--- a/src/age/primitives/x25519.py
+++ b/src/age/primitives/x25519.py
@@ -23,6 +23,10 @@ def x25519_scalarmult(secret_scalar: ECScalar, point: ECPoint) -> ECPoint:
     :returns: New point on curve: :math:`nP = P + P + P + P + P + \\text{...}` (`n` times)
     """
 
+    # libsodium reads 32 bytes from either argument, whatever its length
+    if len(secret_scalar) != 32 or len(point) != 32:
+        raise ValueError("Scalar and point must be 32 bytes long")
+
     k = crypto_scalarmult(secret_scalar, point)
     assert any(k), "All-zeros-check failed (see RFC 7748, section 6.1)"
     return ECPoint(k)
-- 
2.43.0


From 5d632c7f20e6432bbdb94978c05d1821a3031d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 06/14] fix: flush armored text to the underlying stream on
 close

---
 src/age/utils/asciiarmor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index 238cd07..286fe88 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -113,6 +113,7 @@ class AsciiArmoredOutput(io.RawIOBase, typing.BinaryIO):
 
     def _encode_buffer(self):
         write_ascii_armored(self._text_stream, self._label, self._plaintext_buffer)
+        self._text_stream.flush()
         self._plaintext_buffer = b""
 
 
-- 
2.43.0


From 3febe3c461d8ad9db6780e22606a1fd09ca70548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 07/14] fix: refuse truncated strings in OpenSSH private keys

---
 src/age/openssh_keys.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/age/openssh_keys.py b/src/age/openssh_keys.py
index b382024..3b6aae9 100644
--- a/src/age/openssh_keys.py
+++ b/src/age/openssh_keys.py
@@ -38,7 +38,10 @@ def _read_struct(stream: typing.BinaryIO, fmt: str) -> tuple:
 
 def _sshbuf_get_cstring(stream: typing.BinaryIO) -> bytes:
     (length,) = _read_struct(stream, ">I")  # read data in the format: 32-bit length, data[length]
-    return stream.read(length)
+    data = stream.read(length)
+    if len(data) != length:
+        raise InvalidKeyFile("Unexpected end of data")
+    return data
 
 
 def _sshbuf_get_bignum2(stream: typing.BinaryIO) -> int:
-- 
2.43.0


From 806b724a0d86889bbcfc02ef1403945854139d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 08/14] fix: check all padding bytes of OpenSSH private keys

Only the first seven bytes after the comment were checked, anything
behind them was ignored.
---
 src/age/openssh_keys.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/age/openssh_keys.py b/src/age/openssh_keys.py
index 3b6aae9..8062ca1 100644
--- a/src/age/openssh_keys.py
+++ b/src/age/openssh_keys.py
@@ -263,14 +263,9 @@ def load_openssh_private_key(
     # discard key comment
     _sshbuf_get_cstring(decrypted_stream)
 
-    # check deterministic padding: \x01\x02\x03\x04.. up til max. \x07
-    for i in range(1, 8):
-        try:
-            (pad,) = _read_struct(decrypted_stream, "B")
-        except struct.error:
-            # EOF
-            break
-        if pad != i:
+    # check deterministic padding: \x01\x02\x03\x04.. up to the end of the file
+    for i, pad in enumerate(decrypted_stream.read(), start=1):
+        if pad != i & 0xFF:
             raise InvalidKeyFile("Broken file padding")
 
     return key
-- 
2.43.0


From f274cfbf4d867671be004730885b3807eaf96479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 09/14] fix: skip SSH keys that cannot be loaded

A single passphrase-protected or unsupported key in ~/.ssh made every
decryption fail, even if another identity matched.
---
 src/age/keyloader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/age/keyloader.py b/src/age/keyloader.py
index 64ce240..3a27e6e 100644
--- a/src/age/keyloader.py
+++ b/src/age/keyloader.py
@@ -2,6 +2,7 @@ import collections
 import glob
 import os.path
 import re
+import sys
 import typing
 
 import requests
@@ -70,7 +71,12 @@ def load_ssh_keys(root="~/.ssh") -> typing.Collection[DecryptionKey]:
     keys = []
 
     for filename in glob.glob(os.path.join(root, "id_*")):
-        key = load_ssh_private_key(filename)
+        try:
+            key = load_ssh_private_key(filename)
+        except Exception as e:
+            # e.g. passphrase-protected, unsupported or malformed
+            print(f"Ignoring SSH key '{filename}': {e}", file=sys.stderr)
+            continue
         if key:
             keys.append(key)
 
-- 
2.43.0


From 39ae0e44a20215a621358cb25d5793b41bb4eeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 10/14] fix: do not look up GitHub names found in recipient
 lists

Lines of files and URLs are resolved with read_urls=False, which the
"github:" branch ignored.
---
 src/age/keyloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/age/keyloader.py b/src/age/keyloader.py
index 3a27e6e..47dce66 100644
--- a/src/age/keyloader.py
+++ b/src/age/keyloader.py
@@ -126,7 +126,7 @@ def resolve_public_key(
         return resolved_from_alias
 
     # resolve "github:" links
-    if keystr.startswith("github:"):
+    if read_urls and keystr.startswith("github:"):
         _, _, username = keystr.partition(":")
         github_url = f"https://github.com/{username}.keys"
         return resolve_public_key(github_url)
-- 
2.43.0


From 4369a2f3c5b00c60dc1ac83e4ddf5f821e0ce25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:26 +0000
Subject: [PATCH 11/14] fix: refuse to encrypt if a recipient cannot be
 resolved

An unresolvable recipient was dropped silently if another one resolved.
---
 src/age/cli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index 9337a64..7b6ebd4 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -65,7 +65,11 @@ def encrypt(
 
     keys = []
     for recipient in recipients:
-        keys.extend(resolve_public_key(recipient, aliases=aliases))
+        recipient_keys = resolve_public_key(recipient, aliases=aliases)
+        if not recipient_keys:
+            print(f"Could not resolve recipient '{recipient}'.", file=sys.stderr)
+            sys.exit(1)
+        keys.extend(recipient_keys)
 
     if ask_password:
         if recipients:
-- 
2.43.0


From 0d8f944bd820d6edc4709a64b2f795932cd0463a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 12/14] fix: refuse whitespace inside of stanza bodies

Re-wrapping the body for the MAC dropped white space at the line ends, so
joining two body lines with a space changed a stanza's body without
changing the MAC of the header.
---
 src/age/format.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/age/format.py b/src/age/format.py
index de9e866..dffb57f 100644
--- a/src/age/format.py
+++ b/src/age/format.py
@@ -51,7 +51,10 @@ def load_header(stream: typing.BinaryIO) -> typing.Tuple[Header, bytes]:
         elif line.startswith(FOOTER_PREFIX):
             break
         elif len(header.recipients) > 0:
-            header.recipients[-1].body += line.strip()
+            body_line = line.strip()
+            if len(body_line.split()) > 1:
+                raise ParserError("Whitespace inside of a stanza body.")
+            header.recipients[-1].body += body_line
 
     assert line.startswith(FOOTER_PREFIX)
     prefix, encoded_mac = line.split()
-- 
2.43.0


From 63663904ea5f95acdb59325f3ff0ed28bfebfc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 13/14] fix: bech32_decode refuses characters outside ASCII
 that str.lower() maps to it

---
 src/age/primitives/bech32.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/age/primitives/bech32.py b/src/age/primitives/bech32.py
index 041fc55..4fe60d1 100644
--- a/src/age/primitives/bech32.py
+++ b/src/age/primitives/bech32.py
@@ -149,6 +149,10 @@ def bech32_encode(hrp: str, payload: bytes) -> str:
 def bech32_decode(bech: str) -> typing.Tuple[str, bytes]:
     """Validate a Bech32 string, and determine HRP and data."""
 
+    # str.lower() maps some other characters to ASCII, e.g. the Kelvin sign to "k"
+    if any(ord(c) < 33 or ord(c) > 126 for c in bech):
+        raise ValueError("invalid character in Bech32 string")
+
     if not (bech.upper() == bech or bech.lower() == bech):
         raise ValueError("Bech32 string must either be all-lowercase or all-uppercase")
 
-- 
2.43.0


From 183fb2d0305b6828c3bd83389fdef786321586ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:31 +0000
Subject: [PATCH 14/14] fix: report errors when writing armored output

---
 src/age/cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/age/cli.py b/src/age/cli.py
index 7b6ebd4..5ad5e05 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -93,6 +93,10 @@ def encrypt(
     with Encryptor(keys, outfile) as encryptor:
         encryptor.write(infile.read())
 
+    if ascii_armored:
+        # write the armored text now, so that errors are not lost in the garbage collector
+        outfile.close()
+
 
 def decrypt(
     infile: typing.Optional[typing.BinaryIO] = None,
-- 
2.43.0

