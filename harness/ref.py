"""Independent reference implementation of the age v1 format (oracle).

Written from the specification; shares no code with /repo.  Cryptographic
building blocks come from the standard library or from `cryptography`, X25519
and the Ed25519 conversions are written out in integer arithmetic.
"""

import base64
import hashlib
import hmac as _hmac
import struct

from cryptography.exceptions import InvalidTag
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import ed25519, padding, rsa, x25519
from cryptography.hazmat.primitives.ciphers.aead import ChaCha20Poly1305

P = 2**255 - 19
L = 2**252 + 27742317777372353535851937790883648493


# ------------------------------------------------------------------ X25519


def x25519_mult(k, u):
    """RFC 7748 Montgomery ladder"""
    k = bytearray(k)
    k[0] &= 248
    k[31] &= 127
    k[31] |= 64
    n = int.from_bytes(k, "little")
    x1 = int.from_bytes(u, "little") & ((1 << 255) - 1)
    x2, z2, x3, z3, swap = 1, 0, x1, 1, 0
    for t in range(254, -1, -1):
        kt = (n >> t) & 1
        if swap ^ kt:
            x2, x3, z2, z3 = x3, x2, z3, z2
        swap = kt
        a, b = (x2 + z2) % P, (x2 - z2) % P
        aa, bb = a * a % P, b * b % P
        e = (aa - bb) % P
        c, d = (x3 + z3) % P, (x3 - z3) % P
        da, cb = d * a % P, c * b % P
        x3, z3 = (da + cb) ** 2 % P, x1 * (da - cb) ** 2 % P
        x2, z2 = aa * bb % P, e * (aa + 121665 * e) % P
    if swap:
        x2, x3, z2, z3 = x3, x2, z3, z2
    return (x2 * pow(z2, P - 2, P) % P).to_bytes(32, "little")


BASE = (9).to_bytes(32, "little")


def x25519_pub(k):
    return x25519_mult(k, BASE)


# ------------------------------------------------------------------ MAC / KDF


def hmac256(key, msg):
    if len(key) > 64:
        key = hashlib.sha256(key).digest()
    key = key + bytes(64 - len(key))
    inner = hashlib.sha256(bytes(b ^ 0x36 for b in key) + msg).digest()
    return hashlib.sha256(bytes(b ^ 0x5C for b in key) + inner).digest()


def hkdf(salt, info, ikm, length):
    prk = hmac256(salt, ikm)
    out, t, i = b"", b"", 1
    while len(out) < length:
        t = hmac256(prk, t + info + bytes([i]))
        out += t
        i += 1
    return out[:length]


def seal(key, pt):
    return ChaCha20Poly1305(key).encrypt(bytes(12), pt, None)


def unseal(key, ct):
    return ChaCha20Poly1305(key).decrypt(bytes(12), ct, None)


def b64(x):
    return base64.b64encode(x).decode().replace("=", "")


def unb64(s):
    return base64.b64decode(s + "=" * (-len(s) % 4), validate=True)


# ------------------------------------------------------------------ STREAM

CHUNK = 65536


def stream_chunks(pt):
    return [pt[i:i + CHUNK] for i in range(0, len(pt), CHUNK)] or [b""]


def seal_chunk(key, n, last, chunk):
    return ChaCha20Poly1305(key).encrypt(n.to_bytes(11, "big") + (b"\1" if last else b"\0"), chunk, None)


def stream_encrypt(key, pt):
    ch = stream_chunks(pt)
    return b"".join(seal_chunk(key, i, i == len(ch) - 1, c) for i, c in enumerate(ch))


def stream_decrypt(key, ct):
    """the plaintext or None"""
    parts = [ct[i:i + CHUNK + 16] for i in range(0, len(ct), CHUNK + 16)]
    if not parts:
        return None
    out = []
    for i, c in enumerate(parts):
        last = i == len(parts) - 1
        try:
            out.append(ChaCha20Poly1305(key).decrypt(i.to_bytes(11, "big") + (b"\1" if last else b"\0"), c, None))
        except Exception:
            return None
    if len(parts) > 1 and not out[-1]:
        return None
    return b"".join(out)


# ------------------------------------------------------------------ Bech32

ALPHABET = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"


def bech_polymod(vals):
    chk = 1
    for v in vals:
        top = chk >> 25
        chk = ((chk & 0x1FFFFFF) << 5) ^ v
        for i, g in enumerate((0x3B6A57B2, 0x26508E6D, 0x1EA119FA, 0x3D4233DD, 0x2A1462B3)):
            if (top >> i) & 1:
                chk ^= g
    return chk


def bech_expand(hrp):
    return [ord(c) >> 5 for c in hrp] + [0] + [ord(c) & 31 for c in hrp]


def bech_checksum(hrp, data):
    p = bech_polymod(bech_expand(hrp) + data + [0] * 6) ^ 1
    return [(p >> 5 * (5 - i)) & 31 for i in range(6)]


def bech_raw(hrp, data5):
    return hrp + "1" + "".join(ALPHABET[v] for v in data5 + bech_checksum(hrp, data5))


def bech_groups(payload):
    bits = "".join(format(b, "08b") for b in payload)
    bits += "0" * (-len(bits) % 5)
    return [int(bits[i:i + 5], 2) for i in range(0, len(bits), 5)]


def bech_encode(hrp, payload):
    return bech_raw(hrp, bech_groups(payload))


def bech_decode(s):
    """(hrp, payload) or None"""
    if any(not 33 <= ord(c) <= 126 for c in s):
        return None
    if s.lower() != s and s.upper() != s:
        return None
    s = s.lower()
    if "1" not in s:
        return None
    hrp, rest = s.rsplit("1", 1)
    if not 1 <= len(hrp) <= 83 or len(rest) < 6 or any(c not in ALPHABET for c in rest):
        return None
    vals = [ALPHABET.index(c) for c in rest]
    if bech_polymod(bech_expand(hrp) + vals) != 1:
        return None
    bits = "".join(format(v, "05b") for v in vals[:-6])
    pad = len(bits) % 8
    if pad >= 5 or "1" in bits[len(bits) - pad:]:
        return None
    payload = bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits) - pad, 8))
    return hrp, payload


# ------------------------------------------------------------------ SSH keys


def sshstr(b):
    return struct.pack(">I", len(b)) + b


def mpint(n):
    return sshstr(n.to_bytes(n.bit_length() // 8 + 1, "big") if n else b"")


def ssh_ed25519_wire(pub):
    return sshstr(b"ssh-ed25519") + sshstr(pub)


def ssh_rsa_wire(n, e):
    return sshstr(b"ssh-rsa") + mpint(e) + mpint(n)


def ed_pub(seed):
    return ed25519.Ed25519PrivateKey.from_private_bytes(seed).public_key().public_bytes(
        serialization.Encoding.Raw, serialization.PublicFormat.Raw)


def ed_pk_to_mont(pk):
    y = int.from_bytes(pk, "little") & ((1 << 255) - 1)
    return ((1 + y) * pow(1 - y, P - 2, P) % P).to_bytes(32, "little")


def ed_sk_to_mont(seed):
    h = bytearray(hashlib.sha512(seed).digest()[:32])
    h[0] &= 248
    h[31] &= 127
    h[31] |= 64
    return bytes(h)


# ------------------------------------------------------------------ stanzas: (type, [args], body bytes)

X_LABEL = b"age-encryption.org/v1/X25519"
ED_LABEL = b"age-encryption.org/v1/ssh-ed25519"
RSA_LABEL = b"age-encryption.org/v1/ssh-rsa"
SCRYPT_LABEL = b"age-encryption.org/v1/scrypt"


def wrap_x25519(pub, fk, eph):
    share = x25519_pub(eph)
    key = hkdf(share + pub, X_LABEL, x25519_mult(eph, pub), 32)
    return ("X25519", [b64(share)], seal(key, fk))


def unwrap_x25519(sk, args, body):
    share = unb64(args[0])
    assert len(args) == 1 and len(share) == 32
    key = hkdf(share + x25519_pub(sk), X_LABEL, x25519_mult(sk, share), 32)
    return unseal(key, body)


def ed_tweak(wire):
    return (int.from_bytes(hkdf(wire, ED_LABEL, b"", 64), "little") % L).to_bytes(32, "little")


def wrap_ed25519(pub, fk, eph):
    wire = ssh_ed25519_wire(pub)
    tweaked = x25519_mult(ed_tweak(wire), ed_pk_to_mont(pub))
    _, args, body = wrap_x25519(tweaked, fk, eph)
    return ("ssh-ed25519", [b64(hashlib.sha256(wire).digest()[:4])] + args, body)


def unwrap_ed25519(seed, args, body):
    pub = ed_pub(seed)
    wire = ssh_ed25519_wire(pub)
    assert len(args) == 2 and args[0] == b64(hashlib.sha256(wire).digest()[:4])
    share = unb64(args[1])
    assert len(share) == 32
    t = ed_tweak(wire)
    sk = ed_sk_to_mont(seed)
    tweaked = x25519_mult(t, x25519_pub(sk))
    secret = x25519_mult(t, x25519_mult(sk, share))
    key = hkdf(share + tweaked, X_LABEL, secret, 32)
    return unseal(key, body)


def _oaep():
    return padding.OAEP(mgf=padding.MGF1(hashes.SHA256()), algorithm=hashes.SHA256(), label=RSA_LABEL)


def rsa_wire_of(pub):
    n = pub.public_numbers()
    return ssh_rsa_wire(n.n, n.e)


def wrap_rsa(pub, fk):
    return ("ssh-rsa", [b64(hashlib.sha256(rsa_wire_of(pub)).digest()[:4])], pub.encrypt(fk, _oaep()))


def unwrap_rsa(sk, args, body):
    assert len(args) == 1 and args[0] == b64(hashlib.sha256(rsa_wire_of(sk.public_key())).digest()[:4])
    return sk.decrypt(body, _oaep())


def scrypt(salt, logn, password):
    return hashlib.scrypt(password, salt=SCRYPT_LABEL + salt, n=1 << logn, r=8, p=1, dklen=32,
                          maxmem=(1 << logn) * 1024 * 2 + (1 << 24))


def wrap_scrypt(password, fk, salt, logn):
    if logn == 0:  # OpenSSL and cryptography need N > 1
        raise ValueError
    return ("scrypt", [b64(salt), str(logn)], seal(scrypt(salt, logn, password), fk))


def unwrap_scrypt(password, args, body):
    assert len(args) == 2
    salt = unb64(args[0])
    assert len(salt) == 16 and args[1] == str(int(args[1])) and 0 < int(args[1]) <= 22
    return unseal(scrypt(salt, int(args[1]), password), body)


# ------------------------------------------------------------------ header


def header_text(stanzas, bodies_text=False):
    """up to and including the --- of the footer"""
    out = "age-encryption.org/v1\n"
    for t, args, body in stanzas:
        out += "-> " + " ".join([t] + list(args)) + "\n" if args else "-> " + t + " \n"
        b = body if bodies_text else b64(body)
        for i in range(0, len(b), 64):
            out += b[i:i + 64] + "\n"
    return (out + "---").encode()


def header(stanzas, fk):
    t = header_text(stanzas)
    return t + b" " + b64(hmac256(hkdf(b"", b"header", fk, 32), t)).encode()


def age_file(stanzas, fk, nonce, pt):
    return header(stanzas, fk) + b"\n" + nonce + stream_encrypt(hkdf(nonce, b"payload", fk, 32), pt)


def parse_file(data):
    """(stanzas, mac, header bytes up to ---, nonce, payload); strict"""
    pos = 0

    def line():
        nonlocal pos
        i = data.index(b"\n", pos)
        r = data[pos:i]
        pos = i + 1
        return r

    assert line() == b"age-encryption.org/v1", "version line"
    stanzas = []
    while True:
        start = pos
        ln = line()
        if ln.startswith(b"-> "):
            parts = ln[3:].decode().split(" ")
            body = ""
            while True:
                save = pos
                ln2 = line().decode("ascii", "replace")
                if ln2.startswith("->") or ln2.startswith("---"):
                    pos = save
                    break
                assert len(ln2) <= 64 and ln2, "body line length"
                body += ln2
                if len(ln2) < 64:
                    break
            stanzas.append((parts[0], parts[1:], unb64(body)))
            continue
        assert ln.startswith(b"--- "), "footer expected, got %r" % ln
        mac = unb64(ln[4:].decode())
        return stanzas, mac, data[:start + 3], data[pos:pos + 16], data[pos + 16:]


# ------------------------------------------------------------------ ASCII armor


def armor(label, data, width=64):
    b = base64.b64encode(data).decode()
    return "-----BEGIN %s-----\n" % label + "".join(b[i:i + width] + "\n" for i in range(0, len(b), width)) + "-----END %s-----\n" % label


# ------------------------------------------------------------------ OpenSSH private key files


def ssh_private_section(fields, check=(7, 7), pad=None, block=8, comment=b"c"):
    s = struct.pack(">II", *check) + fields + sshstr(comment)
    n = -len(s) % block
    return s + (bytes((i + 1) & 255 for i in range(n)) if pad is None else pad)


def ssh_key_file(private, pub=b"pub", cipher=b"none", kdf=b"none", kdfopts=b"", nkeys=1, magic=b"openssh-key-v1\0",
                 length=None, tail=b"", label="OPENSSH PRIVATE KEY", width=70):
    d = magic + sshstr(cipher) + sshstr(kdf) + sshstr(kdfopts) + struct.pack(">I", nkeys) + sshstr(pub)
    d += struct.pack(">I", len(private) if length is None else length) + private + tail
    return armor(label, d, width).encode()


def ed_fields(seed, pub=None, pub2=None):
    p = ed_pub(seed)
    return sshstr(b"ssh-ed25519") + sshstr(p if pub is None else pub) + sshstr(seed + (p if pub2 is None else pub2))


def rsa_fields(sk):
    n = sk.private_numbers()
    pn = n.public_numbers
    return sshstr(b"ssh-rsa") + mpint(pn.n) + mpint(pn.e) + mpint(n.d) + mpint(n.iqmp) + mpint(n.p) + mpint(n.q)
