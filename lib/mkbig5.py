"""The Big5 table of the specification: the codes on which three independent decoders agree."""
import json, sys
def table():
    out=[]
    for hi in range(0x81,0xff):
        for lo in list(range(0x40,0x7f))+list(range(0xa1,0xff)):
            b=bytes([hi,lo]); r=[]
            for c in ("big5","cp950","big5hkscs"):
                try: r.append(b.decode(c))
                except UnicodeDecodeError: r.append(None)
            if r[0] and len(r[0])==1 and r[0]==r[1]==r[2]:
                out.append([hi<<8|lo, ord(r[0])])
    # one code per character only
    n={}
    for c,u in out: n.setdefault(u,[]).append(c)
    return [[c,u] for c,u in out if len(n[u])==1]
if __name__=="__main__":
    json.dump(table(),open(sys.argv[1],"w"))
