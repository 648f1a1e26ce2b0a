#!/usr/bin/env python3
"""Generates spec/UnicodeTables.tla from Python's Unicode database (committed; rerun only to regenerate)."""
import unicodedata, os
nd=[c for c in range(0x110000) if unicodedata.category(chr(c))=='Nd']
starts=[c for c in nd if c-1 not in set(nd) or unicodedata.digit(chr(c))==0]
assert all(set(range(s,s+10))<=set(nd) for s in starts) and len(nd)==10*len(starts)
# only blocks that were decimal digits before Unicode 12 (the regex crate's tables may be older than Python's)
NEW={0x11950,0x1E140,0x1E2F0,0x11F50,0x1E4D0,0x1FBF0,0x11DA0}
starts=[s for s in starts if s not in NEW]
lim=0x590
rows=[]
for c in range(lim):
    f=[ord(x) for x in chr(c).casefold()]
    rows.append('<<%s>>'%','.join(map(str,f)))
# the rest, as ranges; without the letters that Unicode got after 12.1 (the tables of the library's dependencies)
LATER={0x2c2f,0xa7c0,0xa7c7,0xa7c9,0xa7d0,0xa7d6,0xa7d8,0xa7f5}|set(range(0x10570,0x105bd))
single=[(c,ord(chr(c).casefold())) for c in range(lim,0x110000) if len(chr(c).casefold())==1 and ord(chr(c).casefold())!=c and c not in LATER]
multi=[(c,[ord(x) for x in chr(c).casefold()]) for c in range(lim,0x110000) if len(chr(c).casefold())>1]
rs=[]
for c,f in single:
    for step in (1,2):
        if rs and rs[-1][3]==f-c and c-rs[-1][1]==step and rs[-1][2] in (0,step):
            rs[-1][1]=c; rs[-1][2]=step
            break
    else:
        rs.append([c,c,0,f-c])
got={c:c+d for lo,hi,st,d in rs for c in range(lo,hi+1,st or 1)}
assert got==dict(single)
o='''---- MODULE UnicodeTables ----
(* Generated by tools/mktables.py from the Unicode character database.        *)
EXTENDS Integers
\\* first code point of each block of ten decimal digits
DigitBlocks == {%s}
WhiteSpace == 9..13 \\cup {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \\cup 8192..8202
\\* case folding of code point c is FoldTable[c + 1], for c < FoldLimit
FoldLimit == %d
FoldTable == <<
%s
>>
\\* folding of the code points from FoldLimit on: <<first, last, step, distance>>, and those that fold to several
FoldRanges == {%s}
FoldMulti == <<%s>>
====
'''%(', '.join(map(str,starts)),lim,',\n'.join(', '.join(rows[i:i+16]) for i in range(0,lim,16)),
 ',\n'.join(', '.join('<<%d,%d,%d,%d>>'%(a,b,c or 1,d) for a,b,c,d in rs[i:i+8]) for i in range(0,len(rs),8)),
 ',\n'.join(', '.join('<<%d,<<%s>>>>'%(c,','.join(map(str,f))) for c,f in multi[i:i+8]) for i in range(0,len(multi),8)))
open(os.path.join(os.path.dirname(__file__),'..','spec','UnicodeTables.tla'),'w').write(o)
