------------------------------- MODULE Graph -------------------------------
(***************************************************************************)
(* Emits the complete state graph of the game on a small board, as the     *)
(* oracle the real code is walked through.  One line per state:            *)
(*   N|board|turn|prev|moves      moves: point,verdict[,board',cap,own];...*)
(* and one line per board:                                                 *)
(*   B|board|black territory|white territory|black eyes|white eyes|        *)
(*     groups|empty regions|floating groups                                *)
(*                                groups: stones:liberties/...             *)
(* Boards are strings of digits, sets of points are dot-separated.         *)
(***************************************************************************)
EXTENDS GoGame

CONSTANTS H, W, RULE

VARIABLES s
G == Geo(H, W)

Norm(x) == [x EXCEPT !.past = {}, !.hist = <<>>, !.passes = 0, !.pris = <<0, 0>>]

Init == s = Norm(InitGame(EmptyBoard(G), Black))
Next == \/ \E p \in Points(s.b, Empty) :
             /\ Verdict(G, RULE, s, p) = OK
             /\ s' = Norm(PlayStone(G, RULE, s, p))
        \/ s' = Norm(PlayPass(s))
Spec == Init /\ [][Next]_s

----------------------------------------------------------------------------
RECURSIVE Digits(_, _)
Digits(b, i) == IF i > Len(b) THEN "" ELSE ToString(b[i]) \o Digits(b, i + 1)
Str(b) == Digits([i \in 1..G.n |-> b[i]], 1)

RECURSIVE Dots(_)
Dots(S) == IF S = {} THEN ""
           ELSE LET p == CHOOSE x \in S : \A y \in S : x <= y
                IN ToString(p) \o "." \o Dots(S \ {p})

RECURSIVE GroupStr(_)
GroupStr(Gs) == IF Gs = {} THEN ""
                ELSE LET X == CHOOSE x \in Gs : TRUE
                     IN Dots(X) \o ":" \o Dots(Libs(G, s.b, X)) \o "/" \o GroupStr(Gs \ {X})

RECURSIVE SetStr(_)
SetStr(Ss) == IF Ss = {} THEN ""
              ELSE LET X == CHOOSE x \in Ss : TRUE IN Dots(X) \o "/" \o SetStr(Ss \ {X})

RECURSIVE Moves(_)
Moves(p) ==
  IF p > G.n THEN ""
  ELSE LET v == Verdict(G, RULE, s, p)
           r == Place(G, s.b, p, s.turn, SuicideOK(RULE))
       IN ToString(p) \o "," \o ToString(v) \o
          (IF v = OK THEN "," \o Str(r.b) \o "," \o ToString(Cardinality(r.cap))
                          \o "," \o ToString(Cardinality(r.own))
           ELSE "") \o ";" \o Moves(p + 1)

EyesOf(c) == {p \in 1..G.n : Eye(G, s.b, p, c)}

BoardLine ==
  LET T == Territories(G, s.b)
  IN PrintT("B|" \o Str(s.b) \o "|" \o Dots(T[1]) \o "|" \o Dots(T[2]) \o "|" \o
            Dots(EyesOf(Black)) \o "|" \o Dots(EyesOf(White)) \o "|" \o GroupStr(Groups(G, s.b)) \o "|" \o
            SetStr(Partition(G, Points(s.b, Empty))) \o "|" \o
            SetStr(Floating(G, s.b, EyesOf(Black) \cup EyesOf(White))))

Emit ==
  /\ PrintT("N|" \o Str(s.b) \o "|" \o ToString(s.turn) \o "|" \o
            (IF s.prev = <<>> THEN "-" ELSE Str(s.prev[1])) \o "|" \o Moves(1))
  /\ s.turn = Black /\ s.prev = <<>> => BoardLine

----------------------------------------------------------------------------
(* Every board there is, reachable by play or not: positions that are set   *)
(* up or edited.  One B line each.                                          *)
AllBoards == {Norm(InitGame(b, Black)) : b \in [1..G.n -> {Empty, Black, White}]}
InitAll == s \in AllBoards
SpecAll == InitAll /\ [][FALSE]_s
=============================================================================
