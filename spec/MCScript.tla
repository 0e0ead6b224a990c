------------------------------ MODULE MCScript ------------------------------
(***************************************************************************)
(* A game is what its accepted actions make of its start: the state is a   *)
(* function of the script.  Refused attempts are steps here too; they and  *)
(* everything else that is not in the script leave no trace.               *)
(***************************************************************************)
EXTENDS MCGame, Extra

CONSTANT LEN          \* bound on the length of the script

VARIABLE log
RC(p) == << 0, (p - 1) \div W, (p - 1) % W >>

SInit == Init /\ log = <<>>
Did(m) == log' = Append(log, m)
Refused == /\ \E p \in 1..G.n : TryStone(G, RULE, s, p)[1] # OK
           /\ UNCHANGED <<s, kp, plays, log>>
           /\ act' = <<"refused">>
SNext == \/ Refused
         \/ /\ Len(log) < LEN
            /\ \/ \E p \in 1..G.n : Play(p) /\ Did(RC(p))
               \/ Pass /\ Did(<<1, 0, 0>>)
               \/ \E c \in Colors : Resign(c) /\ Did(<<2, c, 0>>)
               \/ Restart /\ Did(<<3, 0, 0>>)
SSpec == SInit /\ [][SNext]_<<vars, log>>
SView == <<View, log, s.hist>>

(* plays go on after a resignation, so that the past is complete *)
FromScript == Script(G, RULE, Norm(InitGame(EmptyBoard(G), Black)), log, 1) = s
ScriptAllowed == [][log' # log => Allowed(G, RULE, s, log'[Len(log')])]_<<vars, log>>
RefusedIsNothing == [][act' = <<"refused">> => s' = s]_<<vars, log>>
=============================================================================
