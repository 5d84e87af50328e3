"""Client programs are type-checked and borrow-checked against the crates built from /repo's current tree."""
from core import *
RULE = "each forbidden client program is rejected by the compiler at the marked construct; its one-line-different allowed twin compiles"
LEVEL = "other"
def run(ctx):
    n = run_witnesses(ctx, "oops".split())
    floor(ctx, "witness_families", n, 20)
