------------------------------- MODULE MCGame -------------------------------
(***************************************************************************)
(* Exhaustive model checking of the game on small boards.  Besides the     *)
(* abstract game, the machine carries the implementation's ko point, so    *)
(* that the ko rule of the code is compared with the rule of the property. *)
(***************************************************************************)
EXTENDS GoGame

CONSTANTS H, W,       \* size of the board
          RULE,       \* restrictions of the game (bit set)
          SUPER,      \* TRUE: keep the past positions (superko, history)
          RESIGN,     \* TRUE: include resignations
          MAXPLAYS    \* bound on the number of stone plays (0: none)

VARIABLES s,      \* the game
          kp,     \* the implementation's ko point, 0 when there is none
          plays,  \* number of stone plays, only counted when MAXPLAYS > 0
          act     \* the last action (hidden by the view)

vars == <<s, kp, plays, act>>
G == Geo(H, W)

\* Without superko the past is irrelevant and prisoners are unbounded: both are hidden.
Norm(x) == IF SUPER THEN x ELSE [x EXCEPT !.past = {}, !.hist = <<>>]
View == << s.b, s.turn, s.passes, s.res, s.prev, s.past, s.hist, kp, plays,
           IF SUPER THEN s.pris ELSE <<>> >>

Init == /\ s = Norm(InitGame(EmptyBoard(G), Black))
        /\ kp = 0
        /\ plays = 0
        /\ act = <<"init">>

(* What the implementation records: the only stone of the only captured group. *)
ImplKoPoint(b, p, c) ==
  LET r == Place(G, b, p, c, SuicideOK(RULE))
      Gs == {Region(G, b, q) : q \in r.cap}
  IN IF Cardinality(Gs) = 1 /\ Cardinality(r.cap) = 1 THEN CHOOSE q \in r.cap : TRUE ELSE 0

(* The implementation's check. *)
ImplKo(p) ==
  LET near == {Region(G, s.b, q) : q \in {q \in G.nb[p] : s.b[q] # Empty}}
      atari(X) == Cardinality(Libs(G, s.b, X)) = 1
  IN /\ kp = p
     /\ \E X \in near : atari(X) /\ ColorOf(s.b, X) = Opp(s.turn)
     /\ \A X \in near : ~ (atari(X) /\ Cardinality(X) > 1)

(* Can p be played?  (Past positions are only known when SUPER.) *)
Play(p) == /\ s.passes < 2
           /\ s.res = NoRes
           /\ MAXPLAYS > 0 => plays < MAXPLAYS
           /\ Verdict(G, RULE, s, p) = OK
           /\ s' = Norm(PlayStone(G, RULE, s, p))
           /\ kp' = ImplKoPoint(s.b, p, s.turn)
           /\ plays' = (IF MAXPLAYS > 0 THEN plays + 1 ELSE 0)
           /\ act' = <<"play", p>>

Pass == /\ s.passes < 2
        /\ s.res = NoRes
        /\ s' = PlayPass(s)
        /\ kp' = 0
        /\ act' = <<"pass">>
        /\ UNCHANGED plays

Resign(c) == /\ RESIGN
             /\ s.passes < 2
             /\ s' = PlayResign(s, c)
             /\ act' = <<"resign">>
             /\ UNCHANGED <<kp, plays>>

Restart == /\ s.passes = 2
           /\ s' = Resume(s)
           /\ act' = <<"resume">>
           /\ UNCHANGED <<kp, plays>>

Next == \/ \E p \in 1..G.n : Play(p)
        \/ Pass
        \/ \E c \in Colors : Resign(c)
        \/ Restart

Spec == Init /\ [][Next]_vars

Stone(ss, p) == PlayStone(G, RULE, ss, p)
NCol(b, c) == Cardinality(Points(b, c))
StonePlayed == act'[1] = "play"

----------------------------------------------------------------------------
(* C01/C03: after every accepted play every group has a liberty. *)
EveryGroupLives == NoDeadGroup(G, s.b)

(* C01: a play only places its stone and removes; what is removed had no     *)
(* liberty left; nothing that still has a liberty goes.                      *)
PlaceIsLocal == [][
  StonePlayed =>
    LET gone == {p \in 1..G.n : s.b[p] # Empty /\ s'.b[p] = Empty}
        new  == {p \in 1..G.n : s.b[p] = Empty /\ s'.b[p] # Empty}
        c == s.turn
    IN /\ Cardinality(new) <= 1
       /\ \A p \in new : s'.b[p] = c
       /\ \A p \in 1..G.n : s.b[p] # Empty /\ s'.b[p] # Empty => s.b[p] = s'.b[p]
       /\ SuicideOK(RULE) \/ \A p \in gone : s.b[p] = Opp(c)
       /\ (\A p \in gone : s.b[p] = Opp(c)) \/ (\A p \in gone : s.b[p] = c)
       /\ \A p \in gone : Region(G, s.b, p) \subseteq gone
       /\ \A p \in gone : Libs(G, s.b, Region(G, s.b, p)) \subseteq
              (IF new # {} THEN new ELSE 1..G.n)
  ]_vars

(* C01, told by the liberties before the play alone: the opposing groups     *)
(* whose last liberty is the point go; if there is none, and nothing next to *)
(* the point is free or has another liberty, the player's groups there go.   *)
PlaceByLiberties == [][
  StonePlayed =>
    LET p == act'[2]
        c == s.turn
        near(k) == {Region(G, s.b, q) : q \in {q \in G.nb[p] : s.b[q] = k}}
        last(X) == Libs(G, s.b, X) = {p}
        foes == {X \in near(Opp(c)) : last(X)}
        dead == /\ foes = {}
                /\ \A q \in G.nb[p] : s.b[q] # Empty
                /\ \A X \in near(c) : last(X)
        gone == IF dead THEN UNION near(c) ELSE UNION foes
    IN s'.b = [q \in 1..G.n |-> IF q \in gone THEN Empty
                                ELSE IF q = p /\ ~ dead THEN c ELSE s.b[q]]
  ]_vars

(* C03 *)
SuicideMeansDead ==
  \A p \in Points(s.b, Empty) : \A c \in Colors :
     Suicidal(G, s.b, p, c) <=>
       LET b2 == Place(G, s.b, p, c, FALSE).b IN ~ NoDeadGroup(G, b2)

(* C04: the rule of the property is the rule of the implementation, and it   *)
(* never forbids more than one point.                                        *)
KoAgrees == \A p \in Points(s.b, Empty) : KoForbidden(G, s, p) <=> ImplKo(p)
KoOnePoint == Cardinality({p \in Points(s.b, Empty) : KoForbidden(G, s, p)}) <= 1
PassLiftsKo == s.passes > 0 => \A p \in Points(s.b, Empty) : ~ KoForbidden(G, s, p)

(* C05 *)
NoRepetition == [][Bit(RULE, 1) /\ StonePlayed => s'.b \notin s.past]_vars
NewIsNeverKo == SUPER =>
  \A p \in Points(s.b, Empty) :
    Place(G, s.b, p, s.turn, SuicideOK(RULE)).b \notin s.past => VerdictBy(G, RULE, s, p, 2) = OK

(* the superko verdict covers the simple ko *)
SuperCoversKo == SUPER /\ ~ SuicideOK(RULE) =>
  \A p \in Points(s.b, Empty) : KoForbidden(G, s, p) => Repeats(G, RULE, s, p)

(* The implementation's shortcut: while no stone was ever taken, only the    *)
(* suicide of a lone stone can repeat a position.                            *)
SuperShortcut == SUPER /\ s.pris = <<0, 0>> =>
  \A p \in Points(s.b, Empty) :
     Repeats(G, RULE, s, p) => Suicidal(G, s.b, p, s.turn)

(* C06 *)
LegalsConsistent == \A f \in 0..15 : SUPER \/ ~ Bit(f, 1) =>
  \A p \in 1..G.n : (p \in Legals(G, RULE, s, f)) <=> (VerdictBy(G, RULE, s, p, f) = OK)
MoreRulesFewerMoves == \A f \in 0..15 : \A i \in {0, 2, 3} : ~ Bit(f, i) /\ (SUPER \/ ~ Bit(f, 1)) =>
  Legals(G, RULE, s, f + 2^i) \subseteq Legals(G, RULE, s, f)

(* C28 *)
OffersRight ==
  \A O \in {Offers(G, RULE, s)} :
     /\ O # {}
     /\ 0 \in O => O = {0}
     /\ O \ {0} \subseteq Legals(G, RULE, s, RULE)
     /\ \A p \in Legals(G, RULE, s, RULE) : p \notin O <=> Eye(G, s.b, p, s.turn)

(* C07 *)
PassKeepsBoard == [][act'[1] = "pass" => s'.b = s.b /\ s'.pris = s.pris /\ s'.turn = Opp(s.turn)]_vars
TurnProtocol == [][IF act'[1] \in {"play", "pass"} THEN s'.turn = Opp(s.turn)
                   ELSE s'.b = s.b /\ s'.pris = s.pris /\ s'.turn = s.turn]_vars
PassCount == [][CASE act'[1] = "pass" -> s'.passes = s.passes + 1
                  [] act'[1] = "resign" -> s'.passes = s.passes
                  [] OTHER -> s'.passes = 0]_vars
PausedIsStill == [][s.passes = 2 => s'.b = s.b /\ s'.turn = s.turn /\ s'.pris = s.pris /\ s'.passes = 0]_vars
PassesBounded == s.passes \in 0..2

(* C08: what leaves the board is exactly what the prisoners grow by. *)
Conservation == [][
  LET placed == IF StonePlayed THEN 1 ELSE 0
      pl(c) == IF c = s.turn THEN placed ELSE 0
  IN /\ NCol(s.b, Black) + pl(Black) - NCol(s'.b, Black) = s'.pris[2] - s.pris[2]
     /\ NCol(s.b, White) + pl(White) - NCol(s'.b, White) = s'.pris[1] - s.pris[1]]_vars

(* C09 *)
TerritoryExact ==
  LET T == Territories(G, s.b)
  IN /\ T[1] \cap T[2] = {}
     /\ T[1] \cup T[2] \subseteq Points(s.b, Empty)
     /\ \A p \in T[1] : ~ Touches(G, s.b, Region(G, s.b, p), White)
     /\ \A p \in T[2] : ~ Touches(G, s.b, Region(G, s.b, p), Black)
     /\ \A p \in Points(s.b, Empty) \ (T[1] \cup T[2]) :
          LET R == Region(G, s.b, p)
          IN Touches(G, s.b, R, Black) <=> Touches(G, s.b, R, White)
AreaSum == LET T == Territories(G, s.b) IN
  Cardinality(T[1]) + Cardinality(T[2]) + Cardinality(Stones(s.b)) <= G.n

(* C10 *)
OutcomeIffOver == \A k \in {0, 2, 26, 30} :
  LET o == Outcome(s, Score4(G, s.b, s.pris, k, 3))
  IN (o # NoRes) <=> Over(s)
ResignStays == [][s.res # NoRes => s'.res # NoRes]_vars

(* C16 *)
HistoryDistinct == SUPER => \A i, j \in DOMAIN s.hist : s.hist[i] = s.hist[j] => i = j
HistoryGrows == [][SUPER =>
   /\ SubSeq(s'.hist, 1, Len(s.hist)) = s.hist
   /\ Len(s'.hist) <= Len(s.hist) + 1
   /\ Len(s'.hist) > Len(s.hist) => s'.hist[Len(s'.hist)] = s.b]_vars
HistoryComplete == [][SUPER /\ StonePlayed => InSeq(s.b, s'.hist)]_vars
HistoryIsPast == SUPER => \A i \in DOMAIN s.hist : s.hist[i] \in s.past

(* C18 *)
EyeSound == \A p \in 1..G.n : \A c \in Colors :
  Eye(G, s.b, p, c) => /\ s.b[p] = Empty
                       /\ \A q \in G.nb[p] : s.b[q] = c
                       /\ Allied(G, s.b, p, c) >= 2
EyeOneColor == G.n > 1 => \A p \in 1..G.n : ~ (Eye(G, s.b, p, Black) /\ Eye(G, s.b, p, White))
=============================================================================
