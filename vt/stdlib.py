"""Contracts of the standard library that can be decided by enumeration.

The base64 contracts used by hooks.py are checked on every run: encoding and
decoding work on groups of three bytes (RFC 4648), and all groups and all
endings are tried.  That longer texts are treated group by group is part of
the trusted base.
"""

import base64
import time

ALPHA = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


class Broken(Exception):
    pass


def need(ok, what):
    if not ok:
        raise Broken(what)


def groups():
    """All 2**24 groups of three bytes: the text by the table of RFC 4648, and back."""
    n = 0
    for first in range(0, 256, 64):     # quarters keep the memory small
        a = b"".join(bytes([x]) * 65536 for x in range(first, first + 64))
        b = b"".join(bytes([x]) * 256 for x in range(256)) * 64
        c = bytes(range(256)) * (256 * 64)
        data = bytearray(3 * len(a))
        data[0::3], data[1::3], data[2::3] = a, b, c
        text = base64.b64encode(data)
        q = first // 4
        need(text[0::4] == b"".join(ALPHA[i:i + 1] * 262144 for i in range(q, q + 16)), "first characters")
        need(text[1::4] == b"".join(ALPHA[i:i + 1] * 4096 for i in range(64)) * 16, "second characters")
        need(text[2::4] == b"".join(ALPHA[i:i + 1] * 64 for i in range(64)) * 1024, "third characters")
        need(text[3::4] == ALPHA * 65536, "fourth characters")
        need(base64.b64decode(text + b"==") == data, "decoding")
        n += len(a)
    return n


def endings():
    """One and two bytes at the end, behind a group and alone; more padding than necessary."""
    n = 0
    for head, ht in ((b"", ""), (b"\x00\x10\x83", "ABCD")):
        for v in range(65536 + 256):
            tail = bytes([v - 65536]) if v >= 65536 else v.to_bytes(2, "big")
            bits = int.from_bytes(tail, "big") << (4 if len(tail) == 1 else 2)
            k = len(tail) + 1
            t = ht + "".join(chr(ALPHA[bits >> 6 * (k - 1 - i) & 63]) for i in range(k)) + "=" * (4 - k)
            need(base64.b64encode(head + tail).decode("utf-8") == t, "end of the text")
            need(base64.b64decode(t) == base64.b64decode(t + "==") == head + tail, "end of the bytes")
            n += 1
    return n


def foreign():
    """Characters outside the alphabet: skipped when ASCII, refused when not."""
    n = 0
    t = "ABCDEFg="
    b = base64.b64decode(t)
    for i in range(128):
        if chr(i).encode() in ALPHA + b"=":
            continue
        for p in range(len(t) + 1):
            need(base64.b64decode(t[:p] + chr(i) + t[p:] + "==") == b, f"character {i} at {p}")
            n += 1
    for i in range(128, 0x110000):
        try:
            base64.b64decode(chr(i))
        except ValueError:
            n += 1
            continue
        raise Broken(f"code point {i}")
    return n


def check():
    t = time.time()
    return {
        "base64: groups of three bytes, text by RFC 4648 and decoded again": groups(),
        "base64: endings of one and two bytes, with and without more padding": endings(),
        "base64: characters outside the alphabet (ASCII skipped, others refused)": foreign(),
        "seconds": round(time.time() - t, 2),
    }


if __name__ == "__main__":
    print(check())
