"""The Big5 table for spec/TextConv.tla, from three decoders which are independent of the code under test.

dec[code - 0x8140]  the character of a code, 0 when the decoders do not agree on one
grade[..]           3: all three agree (Big5 itself), 1: those that know the code agree (extensions), 0
has[cp]             the best grade among the codes of a character, -1 when its code is in dispute
"""
import json, sys

CODECS = ("big5", "cp950", "big5hkscs")


def table():
    dec, grade, has, dispute = [0] * (0x10000 - 0x8140), [0] * (0x10000 - 0x8140), [0] * 0x10000, set()
    for hi in range(0x81, 0xff):
        for lo in list(range(0x40, 0x7f)) + list(range(0xa1, 0xff)):
            r = []
            for c in CODECS:
                try:
                    r.append(bytes([hi, lo]).decode(c))
                except UnicodeDecodeError:
                    r.append(None)
            known = [x for x in r if x]
            ok = known and len(set(known)) == 1 and len(known[0]) == 1 and r[2]
            if not ok:
                for x in known:
                    dispute.update(x)
                continue
            u = ord(known[0])
            g = 3 if len(known) == 3 else 1
            dec[(hi << 8 | lo) - 0x8140], grade[(hi << 8 | lo) - 0x8140] = u, g
            if u < 0x10000:
                has[u] = max(has[u], g)
    for cp in range(0x80, 0x10000):
        codes = set()
        for c in CODECS:
            try:
                codes.add(chr(cp).encode(c))
            except UnicodeEncodeError:
                pass
        if chr(cp) in dispute or len(codes) > 1 or (codes and has[cp] == 0):
            has[cp] = -1
    return {"dec": dec, "grade": grade, "has": has}


if __name__ == "__main__":
    json.dump(table(), open(sys.argv[1], "w"), separators=(",", ":"))
