"""writes engine/baseline_accessors.txt from an extracted IR of the reference tree: every function, '+' for those that are read through"""
import sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
import sym
P = sym.Prog(sys.argv[1])
out = {}
for f in P.fn.values():
    if f["n"].startswith("printemps"):
        k = sym.acc_key(f)
        out[k] = out.get(k, False) or bool(sym.accessor_shape(P, f))
with open(os.path.join(V, "engine", "baseline_accessors.txt"), "w") as o:
    for k in sorted(out):
        o.write("%s %s\n" % ("+" if out[k] else "-", k))
print(len(out), sum(out.values()))
