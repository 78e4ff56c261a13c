"""Loads a program with embedded scripts through the Python interface: ground, solve, print."""
import sys
from clingo import Control
from clingo.script import enable_python


def go(path):
    enable_python()
    ctl = Control(["0"], logger=lambda c, m: print("LOG", c.name, m.replace("\n", " ")))
    try:
        ctl.load(path)
        ctl.ground([("base", [])])
    except RuntimeError as e:
        print("ERR", str(e).replace("\n", " "))
        return
    with ctl.solve(yield_=True) as h:
        for m in h:
            print("ANSWER")
            for x in m.symbols(atoms=True): print("A", x)
            for x in m.symbols(terms=True): print("T", x)


go(sys.argv[1])
