"""Modules that keep files: logs and trained scores."""
from vt import *
def check():
    C = []; d = TIER != "quick"
    def c(nm, covers=(), w=10, **k): k.setdefault("alpha", "u"); C.append(Cfg(nm, "logmod.c", k, defs=("SYM_PRINT",), weight=w, time=3000 if d else 300, covers=covers, steps=20000000))
    for x in ("from", "to"):
        c("log-" + x, ("log",), fn=x, n=3 + d)
        c("log-%s-env" % x, ("log", "refused", "fault"), fn=x, n=1, env=1, faults=1)
    c("output", ("log",), fn="output", k=2, max=3 + d)
    c("train", ("trained",), fn="train", n=3 + d); c("train-any", ("trained",), fn="train", n=2 + d, alpha="*"); c("train-cut", ("trained",), fn="train", n=2, cut=1)
    c("train-own", ("trained",), fn="train", n=2 + d, own=1); c("train-env", ("trained", "refused", "fault"), fn="train", n=1, env=1, faults=2)
    c("score", ("scored",), fn="score", n=3 + d); c("score-any", ("scored",), fn="score", n=2 + d, alpha="*", old=255, olds=2); c("score-as", ("scored",), fn="score", n=2, own=1, cut=1); c("score-env", ("scored",), fn="score", n=1, env=1, faults=1, old=1)
    c("score-name", ("scored",), fn="score", n=2, **{"as": 1})
    return Check("C32", C, 
        bounds="logs: " + str(3 + d) + " arbitrary bytes resp. " + str(3 + d) + " items, cut into chunks anywhere; scores: up to " + str(3 + d) + " characters out of 6 kinds or " + str(2 + d) + " arbitrary ASCII bytes, two earlier scores in the file (one of them arbitrary); the file named by option, by HOME (short, 300 characters long) or by nothing; up to " + str(2) + " opens failing",
        assumptions=["the files are stand-ins that record what is written; reads and writes of an open file do not fail", "remarks in parentheses behind an item of the output log are accepted as they are", "malloc does not fail", "one process at a time uses the score file"])
