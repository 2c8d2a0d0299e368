----------------------------- MODULE TextTrace -----------------------------
(* Recorded conversions of texts, by one caller or by many at once. *)
EXTENDS TextConv

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES vH, vI
vars == <<vH, vI>>
Ev == Traces[vH].ev

\* x is what was asked, y one of the answers
AnswerOK(x, y) ==
  CASE x.k = "dec" -> y.u = 1 /\ Decodes(TLCEval(HSeq(x.b)), y.t)
    [] x.k = "enc" -> LET b == TLCEval(HSeq(y.b))
                      IN /\ Encodes(x.t, b)
                         /\ y.u = 1 /\ Decodes(b, y.t)
                         /\ (Plain(x.t) => y.t = x.t)
    [] x.k = "cstr" -> LET c == CStr(x.b, HLen(x.b)) IN y.b = c /\ y.s = c
    [] x.k = "ansi" -> y.b = HexOf(TLCEval(Strip(TLCEval(HSeq(x.b)))))
EvOK(e) == /\ e.r = "ok" /\ e.mod = 0 /\ Len(e.rs) = Len(e.items)
           /\ \A i \in DOMAIN e.items : e.rs[i] # <<>> /\ \A n \in DOMAIN e.rs[i] : AnswerOK(e.items[i], e.rs[i][n])

Init == vH \in 1..Len(Traces) /\ vI = 1
Next == /\ vI <= Len(Ev)
        /\ (IOEnv.DBG = "1" => PrintT(<<"EXP", vI, IF Ev[vI].r = "ok" THEN {i \in DOMAIN Ev[vI].items : \E n \in DOMAIN Ev[vI].rs[i] : ~AnswerOK(Ev[vI].items[i], Ev[vI].rs[i][n])} ELSE {}>>))
        /\ EvOK(Ev[vI])
        /\ vI' = vI + 1 /\ vH' = vH
        /\ (vI' > Len(Ev) => PrintT(<<"ACC", Traces[vH].id>>))
        /\ (IOEnv.DBG = "1" => PrintT(<<"AT", vI'>>))
Spec == Init /\ [][Next]_vars
=============================================================================
