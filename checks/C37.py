"""An instance is used over and over: the same result every time, and no more memory."""
from vt import *
# conversion, text before and behind the symbolic byte, whether the text is also one that never ends
L = (("utf-8:utf-8", "c3a9", "61", 1), ("utf-8:nfc:utf-16be", "65cc81", "cc81", 0), ("utf-8:nfc:utf-8", "61", "62", 0), ("utf-8:nfkd:utf-8", "c3a9", "62", 0), ("utf-8:nfkc:trim-width#9:utf-8", "e38182", "e38299", 0),
     ("big5:zhtw-words:utf-8", "a440", "a441", 1), ("jis:utf-8", "1b24423021", "3022", 1), ("utf-8:ibm-939", "e4b880", "61", 1), ("escape,byte:pass#mark&for=unicode,byte|pass#unmark,utf-8:utf-8", "2575", "30", 1),
     ("ansi-control,byte:big5-defrag:byte,ansi-control", "a41b5b316d", "40", 0), ("utf-8:replace#0161.0162=0163:strings#min-len=2:count:utf-8", "6162", "61", 0), ("utf-8:whitespace-derail:upper:whitespace-rerail:utf-8", "6120", "62", 0),
     ("utf-8:width:score#with=cjk:utf-8,escape", "61", "", 1), ("utf-8:trim-width#2:insert#after=010a:utf-8", "61", "62", 0), ("utf-8:trim-width#9999:utf-8", "61", "62", 1), ("utf-8:insert#before=0162&after=010a:utf-8", "61", "62", 1),
     ("utf-8:zh-bonus:utf-8", "e4b880", "61", 1), ("ascii-named-html-entity,utf-8:ascii-html-info", "26616d", "3b", 1), ("utf-8:gb18030|gb18030:utf-8", "e4b880", "61", 1), ("utf-8:casefold:kana-phonetic:utf-8", "c39f", "e38182", 1),
     ("utf-8:alias-inter:utf-8", "4e46", "", 0), ("utf-8:alias-from:utf-8", "55544638", "", 0), ("utf-16le:ambiguous-pad:utf-16be", "6100", "d8a101", 1), ("bsdconv:bsdconv", "0161", "", 1), ("utf-32be:ambiguous-unpad:utf-8,escape", "00000061000000", "", 1),
     ("utf-8:lower:upper:half:full:utf-8,any#3f", "61", "62", 1), ("utf-8:nl2br:utf-8", "61", "0a", 0), ("cp950,any#0161:utf-8", "a440", "61", 1))
def check():
    d = TIER != "quick"
    C = [Cfg("many-%d" % i, "many.c", dict(conv=c, pre=p, post=q, stream=s, rounds=1500 if d else 200), steps=20000000000, time=3000 if d else 300, weight=20, covers=("output",)) for i, (c, p, q, s) in enumerate(L)]
    return Check("C37", C, bounds="%d conversions, %d uses of one instance, every other one given up or not, a text with one arbitrary byte; where the codecs hold nothing back also a text that goes on" % (len(L), 1500 if d else 200),
        assumptions=["sym_live counts the allocations that are not freed; growth that begins after this many uses is outside", "codecs that keep the text until they know what follows (_NFC, STRINGS) are not asked to give it up within one text"])
