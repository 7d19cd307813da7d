"""Nothing to build: the framework is Python plus clang/gcc; check that the tools are there."""
import shutil, sys
missing = [t for t in ("clang", "gcc", "cvc5") if not shutil.which(t)]
import z3  # noqa: F401
print("ok" if not missing else f"missing tools: {missing}")
sys.exit(1 if missing else 0)
