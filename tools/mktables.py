#!/usr/bin/env python3
"""Compress `dmiverif dump-enums` output (stdin) into tables/enums.tsv (stdout).
Used once to draft the table; the result was then reviewed against the SMBIOS
specification and is an input of the checks, never regenerated by them."""
import sys,re
rows=[]
for l in sys.stdin:
    n,c,a,b,d=l.rstrip('\n').split('\t')
    c=int(c,16)
    def tpl(s):
        s=re.sub(r'(?<![0-9A-Za-z._])%d(?![0-9A-Za-z.])'%c,'{n}',s)
        return re.sub(r'\b0x%X$'%c,'0x{X}',s)
    ta=tpl(a)
    if '{n}' in ta: rows.append([n,c,c,ta,tpl(b),tpl(d)])
    else: rows.append([n,c,c,a,b,d])
out=[]
for r in rows:
    if out and out[-1][0]==r[0] and out[-1][2]+1==r[1] and out[-1][3:]==r[3:]:
        out[-1][2]=r[2]
    else: out.append(r)
print("# enumeration\tcode(s)\tvariant\ttext\tlong text   ({n}: the code, {X}: in hexadecimal)")
for n,lo,hi,a,b,d in out:
    print(f"{n}\t{lo:02X}"+(f"-{hi:02X}" if hi!=lo else "")+f"\t{a}\t{b}\t{d}")
