"""debug: show one refactor alarm in depth. onerf.py FILE:qual PROP substring [--mut]"""
import sys, os
sys.path[:0] = ["/verif/tools", "/verif"]
from mutate import mutants
from refactor import rewrites
import speyver.project as PJ, speyver.framework as F
from speyver import rules, terms as T
F.short.__defaults__ = (6000, 14)
F.EVID = "/tmp/speyver_mut"
F.describe = lambda d: "PATH:\n  " + "\n  ".join(f"{v} {F.short(x, 2000, 9)}" for x, v in d.path) + f"\nCODE {F.short(d.a, 5000, 14)}\nSPEC {F.short(d.b, 5000, 14)}"
path, _, q = sys.argv[1].partition(":")
path = "/repo/src/spey/" + path
gen = mutants if "--mut" in sys.argv else rewrites
for r in gen(open(path).read(), q):
    if r and sys.argv[3] in r[0]:
        if "--show" in sys.argv:
            print(r[1])
        print(r[0])
        PJ.OVERLAY = {path: r[1]}
        F.main([sys.argv[2]])
        break
