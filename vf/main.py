import sys, os, importlib
from . import drive, wrap


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("vf.props." + pid.lower())
    items = mod.scenarios(tier)
    kinds = getattr(mod, "SURROUNDINGS", [])
    if os.environ.get("VF_WRAP"):
        kinds = os.environ["VF_WRAP"].split(",")
    if kinds:
        items = wrap.extend(items, kinds, tier if not os.environ.get("VF_WRAP") else "all", getattr(mod, "SKIP", lambda n, k: False))
    only = os.environ.get("VF_ONLY")
    if only:
        items = [i for i in items if only in i.name]
    c = drive.Check(pid, items, notes=COMMON + list(getattr(mod, "NOTES", [])), bounds=list(mod.BOUNDS), tier=tier, seed=seed)
    sys.exit(c.run())


COMMON = [
    "the C library is modelled (memory, strings, stdio, printf, strto*, getopt_long); malloc succeeds up to 1 GiB; files not listed do not exist",
    "LLVM IR produced by clang -O1 from the current sources stands for the program; sampled paths are replayed on the gcc -O2 build and compared byte for byte",
    "finite-domain characters are carried as value tables over one input variable (at most 8 bits) or as bit-vector terms; z3 decides every requirement on every path",
]

if __name__ == "__main__":
    main()
