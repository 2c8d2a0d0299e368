------------------------------ MODULE FavModel ------------------------------
(* All small favourites trees, grown item by item.  Every tree is printed with its bytes and is then
   read and written by the implementation (lib/p_files.py). *)
EXTENDS Fav, Json

CONSTANTS MaxItems, MaxDepth, Deep

VARIABLES tree
Boards3 == {[t |-> FBoard, attr |-> 1, id |-> <<0, 1>>, visit |-> <<0, 0>>, battr |-> <<0, 0>>],
            [t |-> FBoard, attr |-> 255, id |-> <<65535, 65535>>, visit |-> <<65535, 65535>>, battr |-> <<32768, 1>>]}
Lines == {[t |-> FLine, attr |-> 0, id |-> 0]}
Folders == {[t |-> FFolder, attr |-> 2, id |-> 0, title |-> "", items |-> <<>>],
            [t |-> FFolder, attr |-> 3, id |-> 0, title |-> "a477a4e57e", items |-> <<>>]}
           \cup (IF Deep THEN {[t |-> FFolder, attr |-> 0, id |-> 0, items |-> <<>>,
                                title |-> "41424344454647414243444546474142434445464741424344454647414243444546474142434445464741424344454647"]} ELSE {})

RECURSIVE Size(_)
Size(s) == IF s = <<>> THEN 0 ELSE 1 + (IF Head(s).t = FFolder THEN Size(Head(s).items) ELSE 0) + Size(Tail(s))

RECURSIVE Grow(_, _)
\* the trees with one more item at the end of one of the folders
Grow(s, d) ==
  {Append(s, x) : x \in Boards3 \cup Lines \cup (IF d < MaxDepth THEN Folders ELSE {})}
  \cup UNION {IF s[i].t = FFolder THEN {[s EXCEPT ![i].items = g] : g \in Grow(s[i].items, d + 1)} ELSE {} : i \in DOMAIN s}

RECURSIVE Number(_, _, _)
Number(s, nf, nl) ==
  IF s = <<>> THEN <<>>
  ELSE LET x == Head(s)
       IN CASE x.t = FBoard -> <<x>> \o Number(Tail(s), nf, nl)
            [] x.t = FLine -> <<[x EXCEPT !.id = nl + 1]>> \o Number(Tail(s), nf, nl + 1)
            [] x.t = FFolder -> <<[x EXCEPT !.id = nf + 1, !.items = Number(@, 0, 0)]>> \o Number(Tail(s), nf + 1, nl)
T == [ver |-> 3363, items |-> Number(tree, 0, 0)]
Bytes == FavEncode(T)

Init == tree = <<>>
Next == Size(tree) < MaxItems /\ tree' \in Grow(tree, 0)
Spec == Init /\ [][Next]_tree

\* what was written is read
RoundTrip == FavParse(Bytes) = [ok |-> TRUE, wf |-> TRUE, v |-> T]
RECURSIVE Kinds(_)
Kinds(s) == IF s = <<>> THEN <<>> ELSE <<Head(s).t>> \o (IF Head(s).t = FFolder THEN Kinds(Head(s).items) ELSE <<>>) \o Kinds(Tail(s))
\* the number of bytes is that of the layout
RightSize == HLen(Bytes) = 2 + 4 * (1 + Len(SelectSeq(Kinds(tree), LAMBDA k : k = FFolder)))
                           + 14 * Len(SelectSeq(Kinds(tree), LAMBDA k : k = FBoard))
                           + 52 * Len(SelectSeq(Kinds(tree), LAMBDA k : k = FFolder))
                           + 3 * Len(SelectSeq(Kinds(tree), LAMBDA k : k = FLine))
\* nothing that was cut off is taken for a tree
CutIsBad == \A n \in 0..(HLen(Bytes) - 1) : ~FavParse(HSub(Bytes, 1, n)).ok
\* what follows the tree does not matter
TailIgnored == FavParse(Bytes \o "01ff") = FavParse(Bytes)
Shown == PrintT("VAL@@@" \o ToJson([c |-> Bytes, ver |-> T.ver, items |-> T.items]))
=============================================================================
