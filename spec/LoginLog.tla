------------------------------ MODULE LoginLog ------------------------------
(* The logs of logins.

   BBSHOME/logins.bad       a flag (" " success, "-" failure), the user id padded to 12, and
                            "[01/02/2006 15:04:05 Mon] ?@" host
   home/x/user/logins.bad   "[01/02/2006 15:04:05 Mon] " host         (failures of that user)
   logins.recent            "01/02/2006 15:04:05 " host, spaces

   Lines are hexadecimal.  Parse(line) is [k, v]: "good" - the line is in the format and holds the
   record v; "bad" - it is not in the format; "either" - it is neither clearly in the format nor
   clearly not (a weekday that is not that of the date, text around the fields): an error may be
   reported or some record. A record is [s success, id, t <<year, month, day, hour, minute, second>>, host];
   those of a user have no id. *)
EXTENDS Text

Bad0 == [k |-> "bad", v |-> <<>>]
Either0 == [k |-> "either", v |-> <<>>]
Good0(v) == [k |-> "good", v |-> v]

Sp == "20"
\* bytes that may not be there
AtB(h, i) == IF i \in 1..HLen(h) THEN HByte(h, i) ELSE ""
SubB(h, a, b) == HSub(h, a, IF b > HLen(h) THEN HLen(h) ELSE b)
DigSet == {ByteHex[x] : x \in 48..57}
\* does h match the pattern: "d" a digit, anything else itself
RECURSIVE Fit(_, _)
Fit(h, pat) == IF pat = "" THEN h = ""
               ELSE HLen(h) > 0 /\ (IF SubSeq(pat, 1, 1) = "d" THEN AtB(h, 1) \in DigSet ELSE AtB(h, 1) = CodeOf[SubSeq(pat, 1, 1)])
                    /\ Fit(SubB(h, 2, HLen(h)), SubSeq(pat, 2, Len(pat)))
RECURSIVE NumOf(_, _)
NumOf(h, acc) == IF h = "" THEN acc ELSE NumOf(SubB(h, 2, HLen(h)), acc * 10 + ByteVal[AtB(h, 1)] - 48)
Num(h) == NumOf(h, 0)

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
RealTime(t) == t[2] \in 1..12 /\ t[3] \in 1..MonthDays(t[1], t[2]) /\ t[4] \in 0..23 /\ t[5] \in 0..59 /\ t[6] \in 0..59

\* day of the week, 0 is Sunday
Weekday(y, m, d) ==
  LET yy == IF m < 3 THEN y - 1 + 400 ELSE y + 400
      o == <<0, 3, 2, 5, 0, 3, 5, 1, 4, 6, 2, 4>>
  IN (yy + (yy \div 4) - (yy \div 100) + (yy \div 400) + o[m] + d) % 7
DayNames == <<"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat">>
DayHex == TLCEval([i \in 1..7 |-> StrHex(DayNames[i])])

\* "01/02/2006 15:04:05" as a time
DateOf(h) == <<Num(SubB(h, 7, 10)), Num(SubB(h, 1, 2)), Num(SubB(h, 4, 5)),
               Num(SubB(h, 12, 13)), Num(SubB(h, 15, 16)), Num(SubB(h, 18, 19))>>
DatePat == "dd/dd/dddd dd:dd:dd"
BytesIn(h) == {AtB(h, i) : i \in 1..HLen(h)}
IsLetter(b) == ByteVal[b] \in (65..90) \cup (97..122)
CountOf(h, b) == Cardinality({i \in 1..HLen(h) : AtB(h, i) = b})
\* a spelling of a time which is not that of the format but may be understood
Loose(h) == \/ "2e" \in BytesIn(h) \/ "2c" \in BytesIn(h) \/ CountOf(h, Sp) > 2

\* "[01/02/2006 15:04:05 Mon]": <<kind, time>>
Stamp(h) ==
  LET d == SubB(h, 2, 20)
      w == SubB(h, 22, 24)
  IN IF HLen(h) # 25 THEN <<"bad", <<>>>>
     ELSE IF Fit(d, DatePat) /\ AtB(h, 1) = "5b" /\ AtB(h, 25) = "5d" /\ AtB(h, 21) = Sp
          THEN LET t == DateOf(d)
               IN IF ~RealTime(t) THEN <<"bad", <<>>>>
                  ELSE IF w = DayHex[Weekday(t[1], t[2], t[3]) + 1] THEN <<"good", t>>
                  ELSE IF \A i \in 1..3 : IsLetter(AtB(w, i)) THEN <<"either", <<>>>>
                  ELSE <<"bad", <<>>>>
          ELSE IF Loose(h) THEN <<"either", <<>>>> ELSE <<"bad", <<>>>>

RECURSIVE TrimEnd(_)
TrimEnd(h) == IF h # "" /\ AtB(h, HLen(h)) = Sp THEN TrimEnd(SubB(h, 1, HLen(h) - 1)) ELSE h
\* user ids are of visible characters
Visible(h) == \A b \in BytesIn(h) : ByteVal[b] \in 33..126

ParseStrict(l) ==
  LET f == AtB(l, 1)
      home == f \in {"20", "2d"}
      o == IF home THEN 13 ELSE 0
      id == TrimEnd(SubB(l, 2, 13))
      st == Stamp(SubB(l, o + 1, o + 25))
      rest == SubB(l, o + 27, HLen(l))
      at == SubB(rest, 1, 2) = "3f40" /\ HLen(rest) >= 2
  IN IF l = "" \/ f \notin {"20", "2d", "5b"} \/ HLen(l) < o + 26 THEN Bad0
     ELSE IF st[1] = "bad" \/ AtB(l, o + 26) # Sp THEN Bad0
     ELSE IF st[1] = "either" THEN Either0
     ELSE IF home
          THEN IF ~at \/ id = "" \/ ~Visible(id) THEN Either0
               ELSE Good0([s |-> IF f = "20" THEN 1 ELSE 0, id |-> id, t |-> st[2], host |-> SubB(rest, 3, HLen(rest))])
          ELSE IF at THEN Either0
               ELSE Good0([s |-> 0, id |-> "", t |-> st[2], host |-> rest])

\* the first of the places, 0: there is none
Least(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y
ParseRecent(l) ==
  LET sps == TLCEval({i \in 1..HLen(l) : HByte(l, i) = Sp})
      one == Least(sps)
      two == Least(sps \ {one})
      d == SubB(l, 1, two - 1)
      three == Least(sps \ {one, two})
      host == IF three = 0 THEN SubB(l, two + 1, HLen(l)) ELSE SubB(l, two + 1, three - 1)
      tail == IF three = 0 THEN "" ELSE SubB(l, three, HLen(l))
  IN IF two = 0 THEN Bad0
     ELSE IF Fit(d, DatePat)
          THEN IF ~RealTime(DateOf(d)) THEN Bad0
               ELSE IF host = "" \/ BytesIn(tail) \ {Sp} # {} THEN Either0
               ELSE Good0([s |-> 0, id |-> "", t |-> DateOf(d), host |-> host])
          \* one digit for the hour, a fraction, or what looks like one
          ELSE IF Fit(d, "dd/dd/dddd d:dd:dd") \/ Loose(d) \/ one + 1 = two THEN Either0
          ELSE Bad0

ParseLine(kind, l) ==
  LET p == IF kind = "recent" THEN ParseRecent(l) ELSE ParseStrict(l)
  IN IF l # "" /\ AtB(l, HLen(l)) = "0d" /\ p.k # "bad" THEN Either0
     ELSE IF l # "" /\ AtB(l, HLen(l)) = "0d" THEN (IF ParseStrict(SubB(l, 1, HLen(l) - 1)).k = "bad" /\ kind = "bad" THEN Bad0 ELSE Either0)
     ELSE p

-----------------------------------------------------------------------------
Dig2(n) == StrHex(ToString(n \div 10) \o ToString(n % 10))
Dig4(n) == Dig2(n \div 100) \o Dig2(n % 100)
DateHex(t) == Dig2(t[2]) \o "2f" \o Dig2(t[3]) \o "2f" \o Dig4(t[1]) \o Sp \o Dig2(t[4]) \o "3a" \o Dig2(t[5]) \o "3a" \o Dig2(t[6])
RECURSIVE PadSp(_, _)
PadSp(h, n) == IF HLen(h) >= n THEN h ELSE PadSp(h \o Sp, n)
WriteLine(r) ==
  (IF r.id = "" THEN "" ELSE (IF r.s = 1 THEN "20" ELSE "2d") \o PadSp(r.id, 12)) \o
  "5b" \o DateHex(r.t) \o Sp \o DayHex[Weekday(r.t[1], r.t[2], r.t[3]) + 1] \o "5d20" \o
  (IF r.id = "" THEN "" ELSE "3f40") \o r.host

-----------------------------------------------------------------------------
\* the lines of a file; nothing behind the last newline is no line
RECURSIVE LogCut(_, _, _)
LogCut(h, a, nls) == IF nls = {} THEN (IF a > HLen(h) THEN <<>> ELSE <<HSub(h, a, HLen(h))>>)
                     ELSE LET p == CHOOSE x \in nls : \A y \in nls : x <= y
                          IN <<HSub(h, a, p - 1)>> \o LogCut(h, p + 1, nls \ {p})
LogLines(h) == LogCut(h, 1, TLCEval({i \in 1..HLen(h) : HByte(h, i) = "0a"}))

\* may reading the file with these lines report ("err", _), or these records ("ok", vs)?
MayRead(kind, ls, r, vs) ==
  LET ps == TLCEval([i \in DOMAIN ls |-> ParseLine(kind, ls[i])])
      long == \E i \in DOMAIN ls : HLen(ls[i]) > 65000
  IN IF r = "err" THEN long \/ \E i \in DOMAIN ps : ps[i].k # "good"
     ELSE /\ Len(vs) = Len(ls)
          /\ \A i \in DOMAIN ps : ps[i].k # "bad" /\ (ps[i].k = "good" => vs[i] = ps[i].v)
=============================================================================
