"""Floats as [hi, lo], the representation of spec/Float64.tla."""
import struct


def enc(x):
    b = struct.pack('>d', x) if x == x else b'\x7f\xf8\0\0\0\0\0\0'
    return list(struct.unpack('>ii', b))


def encv(v):
    return [enc(x) for x in v]


def dec(p):
    return struct.unpack('>d', struct.pack('>ii', p[0], p[1]))[0]


def num(x):
    """The number the driver reads from an option ('1e-3', 'inf', 5)"""
    return float(x)


BIG = 10 ** 9


def cap(i):
    """Integers for TLC: large limits stay far away from its 32 bits"""
    return None if i is None else min(int(i), BIG)
