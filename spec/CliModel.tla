------------------------------ MODULE CliModel ------------------------------
(* Argument lists of the tool, all up to a length; each is given to the real tool. *)
EXTENDS Cli, Json
CONSTANTS MaxArgs, Words

Subs == {"show_board_list", "show_user_list", "show_user_article_list", "show_user_comment_list", "show_board_article_list",
         "show_board_article", "add_board", "add_board_article", "", "show"}
\* the options of a subcommand and values for them
OptionsOf(s) == CASE s = "show_board_article_list" -> {"--board"}
                  [] s = "show_board_article" -> {"--board", "--filename"}
                  [] s \in {"show_user_article_list", "show_user_comment_list"} -> {"--user_id"}
                  [] s = "add_board" -> {"--board_id", "--title"}
                  [] s = "add_board_article" -> {"--owner", "--title"}     \* never enough
                  [] OTHER -> {"--board"}
VARIABLES s, a
Init == s \in Subs /\ a = <<>>
Next == /\ Len(a) < MaxArgs
        /\ \E w \in OptionsOf(s) \cup Words : a' = Append(a, w)
        /\ s' = s
Spec == Init /\ [][Next]_<<s, a>>

Hex(x) == [i \in DOMAIN x |-> StrHex(x[i])]
P == CliArgs(Hex(a))
\* the options given are those words that begin with -- and are not values themselves
CliGiven == LET RECURSIVE Pairs(_)
             Pairs(x) == IF Len(x) < 2 THEN <<>>
                         ELSE IF IsOption(x[1]) THEN <<<<x[1], x[2]>>>> \o Pairs(SubSeq(x, 3, Len(x))) ELSE Pairs(Tail(x))
         IN Pairs(Hex(a))
ArgsOK == /\ DOMAIN P.m = {SubSeq(CliGiven[i][1], 5, Len(CliGiven[i][1])) : i \in DOMAIN CliGiven}
          /\ \A k \in DOMAIN P.m : \E i \in DOMAIN CliGiven :
                /\ CliGiven[i] = <<"2d2d" \o k, P.m[k]>>
                /\ \A j \in (i + 1)..Len(CliGiven) : CliGiven[j][1] # CliGiven[i][1]
\* a word in front changes nothing
Lead == CliArgs(<<"78">> \o Hex(a)) = P
Shown == PrintT("VAL@@@" \o ToJson([a |-> <<StrHex(s)>> \o Hex(a)]))
=============================================================================
