"""Unicode facts used by the oracles.

Character categories, simple lower-casing and NFC come from the same utf8proc library the tools are
linked with (trusted base); word-break properties are a copy of the Unicode 8.0.0 data file.
"""
import ctypes, ctypes.util, os
from functools import lru_cache

_lib = None
for _n in ("libutf8proc.so.3", "libutf8proc.so", "libutf8proc.so.2", ctypes.util.find_library("utf8proc")):
    if not _n: continue
    try:
        _lib = ctypes.CDLL(_n); break
    except OSError: pass
if _lib is None: raise ImportError("libutf8proc not found")
_lib.utf8proc_category.restype = ctypes.c_int
_lib.utf8proc_category.argtypes = [ctypes.c_int32]
_lib.utf8proc_tolower.restype = ctypes.c_int32
_lib.utf8proc_tolower.argtypes = [ctypes.c_int32]
_lib.utf8proc_NFC.restype = ctypes.c_void_p
_lib.utf8proc_NFC.argtypes = [ctypes.c_char_p]
_libc = ctypes.CDLL(None)
_libc.free.argtypes = [ctypes.c_void_p]

CATS = ["Cn", "Lu", "Ll", "Lt", "Lm", "Lo", "Mn", "Mc", "Me", "Nd", "Nl", "No", "Pc", "Pd", "Ps", "Pe",
        "Pi", "Pf", "Po", "Sm", "Sc", "Sk", "So", "Zs", "Zl", "Zp", "Cc", "Cf", "Cs", "Co"]

@lru_cache(maxsize=1 << 18)
def cat(cp): return CATS[_lib.utf8proc_category(cp)]

@lru_cache(maxsize=1 << 18)
def lower(cp): return _lib.utf8proc_tolower(cp)

@lru_cache(maxsize=1 << 15)
def nfc_bytes(b):
    p = _lib.utf8proc_NFC(b)
    try: return ctypes.string_at(p)
    finally: _libc.free(p)

def enc(cp):
    return chr(cp).encode("utf-8")

_here = os.path.dirname(os.path.abspath(__file__))
WB = {}
WB_MEMBERS = {}
for _l in open(os.path.join(_here, "data", "wordbreak8.txt")):
    if _l[0] == "#": continue
    _a, _b, _p = _l.split()
    for _c in range(int(_a, 16), int(_b, 16) + 1):
        WB[_c] = _p
        WB_MEMBERS.setdefault(_p, []).append(_c)

def is_mark(cp): return cat(cp)[0] == "M"
def is_graphic(cp):
    return cp == 0x20 or cat(cp)[0] in "LMNPS" or cat(cp) == "Co"
def is_blank(cp):
    if cp == 10: return False
    return cp in (9, 11, 12, 13, 0xA0) or cat(cp) in ("Zs", "Zl", "Zp")
def is_word_start(cp):
    c = cat(cp)
    return c[0] in "LMN" or c in ("Pc", "Co")

def render(cp, suspect=False, fake=False):
    """How a report shows a character."""
    s = "^" if suspect else ""
    if cp == 10: return s + ("<\\n>" if fake else "\n")
    if is_graphic(cp):
        return s + ("\u25cc" if is_mark(cp) else "") + chr(cp)
    return s + ("<%02X>" % cp if cp < 256 else "<%04X>" % cp)
