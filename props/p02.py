"""P02 divisibility, coprimality and lcm of monomials."""
from common import *
import tables as T

IMPORTS = []
CONTRACTS = [T.divmask, T.div, T.upd, T.prime]
import htlib

BOUND = "tables with up to 40 variables, any block size, random divisor-mask thresholds, up to 200 entries, exponents up to 40"
ASSUMPTIONS = ["exponents stay below 2^16 (exp_t)", "array accesses in bounds"]
SIGS = {n: "neogb" for n in ("generate_short_divmask", "check_monomial_division", "check_monomial_division_in_update", "prime_monomials")}


def concrete(ctx):
    L = htlib.HT(ctx.lib("neogb", "none", [], htlib.EXTRA))
    if L.ok:
        htlib.run_tests(ctx, L)
