------------------------------- MODULE Robust -------------------------------
(* What every reading operation owes its caller, whatever is in the file it reads or in its place, and
   whatever names it is given: it ends, with data or with an error, holds no file afterwards and changes
   nothing.  A reader never returns more than the bytes can hold. *)
EXTENDS Layout, LoginLog

\* the least number of bytes of one of the things which the first reader of a file returns; the other
\* readers come to the file on the way to something else
LeastBytes == [brd |-> Board.size, pwd |-> User.size, dir |-> File.size, tdir |-> File.size, formosa |-> Formosa.size,
          text |-> 1, ttext |-> 1, draft |-> 1, fav |-> 3, recent |-> 20, bad |-> 26, sitebad |-> 26, sess |-> Info.size]
\* a record that is cut off may be shown
Most(rd, size) == (size + LeastBytes[rd] - 1) \div LeastBytes[rd]

ProbeOK(e) ==
  /\ e.r = "ok" /\ e.same = 1
  /\ Len(e.rs) = Len(e.ns) /\ Len(e.rs) > 0
  /\ \A i \in DOMAIN e.rs : e.rs[i] \in {"ok", "err"} /\ e.ns[i] >= 0
  /\ ("only" \notin DOMAIN e => (e.rs[1] = "ok" => e.ns[1] <= Most(e.rd, e.size)))
  \* texts are all that is there
  /\ (e.rd \in {"text", "ttext", "draft"} /\ "only" \notin DOMAIN e /\ e.obj = "file" => e.rs[1] = "ok" /\ e.ns[1] = e.size)

NamesOK(e) == e.r \in {"ok", "err"}

Endings == {"ok", "err"}
RobustOK(e) == /\ CASE e.op = "probe" -> IF "only" \in DOMAIN e THEN e.r \in Endings ELSE ProbeOK(e)
                    [] e.op = "names" -> NamesOK(e)
                    [] OTHER -> e.r \in Endings
               /\ ("fds" \in DOMAIN e => e.fds <= 0)

(* One failed system call within a reading: reported if it is one the reading needs.  Without the other
   calls it may do, and then returns what it returns otherwise: p is the same reading without a fault.
   No file stays open. *)
FailOK(f, p) ==
  /\ f.e.fds <= 0
  /\ IF "only" \in DOMAIN f.e THEN f.e.r = "err" \/ (f.e.r = "ok" /\ f.strict = 0 /\ f.e.ns = p.ns)
     ELSE IF "rs" \in DOMAIN f.e THEN f.e.r = "ok" /\ \A i \in DOMAIN f.e.rs : f.e.rs[i] \in Endings
     ELSE f.e.r \in Endings
=============================================================================
