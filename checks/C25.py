"""The command line tool: files are replaced whole or not at all, failures are reported."""
from vt import *
def check():
    C = []; d = TIER != "quick"
    def c(nm, covers=(), w=10, **k): C.append(Cfg(nm, "cli.c", dict(conv=k.pop("conv", "utf-8:upper:utf-8"), **k), weight=w, time=3000 if d else 300, covers=covers, steps=60000000))
    F = ("kept", "fault", "converted")
    for n in (0, 1, 2, 3)[:3 + d]: c("inplace-%d" % n, ("converted", "counted") if n else ("converted",), n=n)
    for n in (0, 1, 2): c("inplace-fault-%d" % n, F, n=n, faults=1)
    for n in (0, 1): c("inplace-fault2-%d" % n, F, n=n, faults=2 + d)
    for n in (0, 1): c("inplace-two-%d" % n, ("converted", "counted"), files=2, n=n, n2=1); c("inplace-two-fault-%d" % n, F, 20, files=2, n=n, n2=1, faults=1)
    c("inplace-three", ("converted",), files=3, n=1, n2=1, conv="ascii:upper:ascii"); c("inplace-three-fault", F, 20, files=3, n=0, n2=1, faults=1 + d)
    for p in (1022, 1023, 1024, 2047): c("inplace-block-%d" % p, ("converted",), n=2 if p == 1023 or d else 1, pad=p, buf=1000); c("inplace-block-fault-%d" % p, F, n=1, pad=p, buf=1000, faults=1)
    for cv in ("utf-8:utf-16be", "utf-8:null", "_gb18030:utf-8", "utf-8:nfc:utf-8", "utf-8:width:null"): c("inplace-" + cv, ("converted",), n=2, conv=cv); c("inplace-fault-" + cv, F, n=1, conv=cv, faults=1)
    for i in (0, 1): c("state-jis-%d" % i, ("converted",) if i else ("printed",), files=2, inplace=i, conv="jis:utf-8", prefix="1b24423021", n=1, n2=2); c("state-ebcdic-%d" % i, ("converted",) if i else ("printed",), files=2, inplace=i, conv="ibm-939:utf-8", prefix="0e", n=1, n2=1); c("state-unfinished-%d" % i, ("converted",) if i else ("printed",), files=2, inplace=i, conv="utf-8:whitespace-derail:whitespace-rerail:utf-8", prefix="2041e4b8", n=0, n2=2)
    for k in (0, 1, 2, 3):
        for n in (0, 2 if k < 3 else 1): c("print-%d-%d" % (k, n), ("printed",), files=k, n=n, n2=1 if n else 0, inplace=0)
        c("print-fault-%d" % k, ("printed", "fault"), files=k, n=1, n2=1, inplace=0, faults=1 + (d or k < 2))
        if k < 2 or d: c("print-block-%d" % k, ("printed",), files=k, n=1, n2=1, pad=1023, buf=1000, inplace=0)
    for l in (57, 249, 1017): c("inplace-name-%d" % l, ("converted",), n=1, name=l, files=2, n2=1, conv="ascii:upper:ascii")
    return Check("C25", C, bounds="one to three files (or standard input) of 0 to 3 arbitrary bytes, also behind 1022 to 2047 fixed bytes so that they span input blocks; in place and to standard output; 7 conversions; names of up to 1019 characters; any one (and any two, for one file) of the file operations failing, reads and writes also in the middle; the state after every operation that changes the file system", assumptions=["the file system and stdio are a stand-in in the harness: buffered streams, directory entries, modes and owners; operations of the tool outside it do not compile or are not seen", "a failing unlink of the temporary file is not considered", "libc memory/string functions are modelled by the engine", "malloc does not fail"])
