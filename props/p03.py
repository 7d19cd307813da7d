"""P03 hash table identity: one index per monomial, whatever was inserted before."""
from common import *
import tables as T

IMPORTS = [T.divmask]
CONTRACTS = [T.ins, T.ins_alias]
import htlib

BOUND = "histories of up to 12 operations on two tables with up to 40 variables, colliding hash values, exponents up to 60"
ASSUMPTIONS = ["exponents stay below 2^16 (exp_t)", "array accesses in bounds",
               "probing k, k+1, k+3, k+6, ... modulo a power of two reaches a free slot while one exists"]
SIGS = {"insert_in_hash_table": "neogb"}


def concrete(ctx):
    L = htlib.HT(ctx.lib("neogb", "none", [], htlib.EXTRA))
    if L.ok:
        htlib.run_tables(ctx, L, .6)
        htlib.run_tests(ctx, L)
