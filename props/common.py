import os, sys
import z3
from core import *
from core import I
import core, harness
import ctypes
from ctypes import c_int, c_uint8, c_uint16, c_uint32, c_uint64, c_int8, c_int16, c_int32, c_int64, c_void_p, c_char_p, POINTER, byref
from harness import Z, cfg_ok

And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
Sel = z3.Select


def ForAll(i, body, *pats):
    return z3.ForAll([i] if not isinstance(i, list) else i, body, patterns=list(pats)) if pats else z3.ForAll([i] if not isinstance(i, list) else i, body)


def zabs(x):
    return If(x < 0, -x, x)


def copy(c, **kw):
    d = {k: v for k, v in c.__dict__.items()}
    d.update(kw)
    n = Contract.__new__(Contract)
    n.__dict__.update(d)
    return n


def arr(ty, vals):
    return (ty * max(1, len(vals)))(*vals)
