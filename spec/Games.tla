------------------------------- MODULE Games -------------------------------
(***************************************************************************)
(* Emits games (action sequences) with the state each of them leads to, as *)
(* test cases for the real code: exhaustively up to a depth on tiny boards *)
(* (model checking mode), or long random ones (simulation mode).           *)
(*   M|actions|board|turn|p1.p2|passes|verdicts|outcome kind.colour.margin| *)
(*     scores black.white|history                                          *)
(* Actions: a number is a stone, P pass, R resume, Q1/Q2 resignation of    *)
(* that colour.  Boards are strings of digits; the history is slash-       *)
(* separated boards.                                                       *)
(***************************************************************************)
EXTENDS GoGame

CONSTANTS H, W, RULE, SCO, KOMI, DEPTH, RESIGN

VARIABLES s, acts
vars == <<s, acts>>
G == Geo(H, W)

Init == s = InitGame(EmptyBoard(G), Black) /\ acts = <<>>

Next ==
  /\ Len(acts) < DEPTH
  /\ \/ \E p \in Points(s.b, Empty) :
          LET t == TryStone(G, RULE, s, p)
          IN t[1] = OK /\ s' = t[2] /\ acts' = Append(acts, ToString(p))
     \/ TryPass(s)[1] = OK /\ s' = TryPass(s)[2] /\ acts' = Append(acts, "P")
     \/ Paused(s) /\ s' = Resume(s) /\ acts' = Append(acts, "R")
     \/ /\ RESIGN /\ (s.res = NoRes \/ Len(acts) % 4 = 0)
        /\ \E c \in Colors : TryResign(s, c)[1] = OK /\ s' = TryResign(s, c)[2]
                             /\ acts' = Append(acts, "Q" \o ToString(c))

(* Simulation: fewer passes, so that the games are about stones. *)
NextSim ==
  /\ Len(acts) < DEPTH
  /\ \/ \E p \in Points(s.b, Empty) :
          LET t == TryStone(G, RULE, s, p)
          IN t[1] = OK /\ s' = t[2] /\ acts' = Append(acts, ToString(p))
     \/ /\ Legals(G, RULE, s, RULE) = {} \/ Len(acts) % 7 = 0
        /\ TryPass(s)[1] = OK /\ s' = TryPass(s)[2] /\ acts' = Append(acts, "P")
     \/ Paused(s) /\ s' = Resume(s) /\ acts' = Append(acts, "R")

Spec == Init /\ [][Next]_vars
SpecSim == Init /\ [][NextSim]_vars

----------------------------------------------------------------------------
RECURSIVE Digits(_, _)
Digits(b, i) == IF i > Len(b) THEN "" ELSE ToString(b[i]) \o Digits(b, i + 1)
Str(b) == Digits([i \in 1..G.n |-> b[i]], 1)
RECURSIVE Join(_, _, _)
Join(q, i, sep) == IF i > Len(q) THEN "" ELSE q[i] \o sep \o Join(q, i + 1, sep)

Sc == Score4(G, s.b, s.pris, KOMI, SCO)
Dot2(a) == ToString(a[1]) \o "." \o ToString(a[2])

Emit ==
  LET v == [p \in 1..G.n |-> IF Paused(s) THEN PAUSED ELSE Verdict(G, RULE, s, p)]
      o == Outcome(s, Sc)
  IN PrintT("M|" \o Join(acts, 1, " ") \o "|" \o Str(s.b) \o "|" \o ToString(s.turn) \o "|" \o
            Dot2(s.pris) \o "|" \o ToString(s.passes) \o "|" \o Digits(v, 1) \o "|" \o
            ToString(o[1]) \o "." \o ToString(o[2]) \o "." \o ToString(o[3]) \o "|" \o
            Dot2(Sc) \o "|" \o Join([i \in DOMAIN s.hist |-> Str(s.hist[i])], 1, "/"))
=============================================================================
