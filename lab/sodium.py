"""ctypes bindings for the few libsodium calls the controller needs."""
import ctypes, ctypes.util
_l = ctypes.CDLL(ctypes.util.find_library("sodium") or "libsodium.so.23")
_l.sodium_init()
SEAL = 48
_l.crypto_box_seal_open.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_ulonglong, ctypes.c_char_p, ctypes.c_char_p]
_l.crypto_box_seal.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_ulonglong, ctypes.c_char_p]

def seed_keypair(seed32):
    pk, sk = ctypes.create_string_buffer(32), ctypes.create_string_buffer(32)
    _l.crypto_box_seed_keypair(pk, sk, seed32)
    return pk.raw, sk.raw

def seal(msg, pk):
    out = ctypes.create_string_buffer(len(msg) + SEAL)
    assert _l.crypto_box_seal(out, msg, len(msg), pk) == 0
    return out.raw

def seal_open(ct, pk, sk):
    if len(ct) < SEAL:
        return None
    out = ctypes.create_string_buffer(max(1, len(ct) - SEAL))
    if _l.crypto_box_seal_open(out, ct, len(ct), pk, sk) != 0:
        return None
    return out.raw[:len(ct) - SEAL]

def scalarmult_base(sk):
    out = ctypes.create_string_buffer(32)
    _l.crypto_scalarmult_base(out, sk)
    return out.raw
