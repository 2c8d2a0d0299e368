------------------------------ MODULE Settings ------------------------------
(* The settings of users: each is a bit of the userflag of the user's own account record (uflags.h of the
   BBS), and is on exactly if that bit is set.  The accounts are those last loaded. *)
EXTENDS Layout

\* setting |-> bit of userflag
UserSettings == [favNohilight |-> 0, favAddnew |-> 1, dbanner |-> 6, dbannerUsong |-> 7, dbcsAware |-> 9, dbcsNointresc |-> 10,
  dbcsDropRepeat |-> 11, noModmark |-> 12, coloredModmark |-> 13, defBackup |-> 16, newAngelPager |-> 17,
  rejOuttamail |-> 18, secureLogin |-> 19, menuLightbar |-> 24, cursorASCII |-> 25]
ASSUME \A f, g \in DOMAIN UserSettings : UserSettings[f] = UserSettings[g] => f = g

SettingsOf(flag) == {s \in DOMAIN UserSettings : Bit4(flag, UserSettings[s]) = 1}

\* what is answered about the user called id, given as bytes: accounts is a sequence of account records.  Several accounts of one name: one of them.
Told(accounts, id) ==
  LET own == {i \in DOMAIN accounts : accounts[i].userid = id}
  IN IF own = {} THEN {[r |-> "err", on |-> {}]}
     ELSE {[r |-> "ok", on |-> SettingsOf(accounts[i].userflag)] : i \in own}
=============================================================================
