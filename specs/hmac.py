"""RFC 2104 HMAC over SHA-256 (block 64)."""
from specs import sha256 as S


def hmac(key, msg):
    if len(key) > 64:
        key = S.sha256(key)
    key = key.ljust(64, b"\0")
    return S.sha256(bytes(k ^ 0x5C for k in key) + S.sha256(bytes(k ^ 0x36 for k in key) + msg))
