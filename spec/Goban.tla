------------------------------- MODULE Goban -------------------------------
(***************************************************************************)
(* The board of Go: geometry, groups, liberties, placement with capture,   *)
(* territory, eyes.  Everything here is a pure operator on a board, given  *)
(* by geometry g (see Geo) and contents b, a function 1..g.n -> {0,1,2}.   *)
(* Points are numbered in row-major order from 1.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == 0
Black == 1
White == 2
Colors == {Black, White}
Opp(c) == 3 - c

(***************************************************************************)
(* Geometry of a board of h rows and w columns: the neighbours of every    *)
(* point, and its four diagonal points in a fixed order (0 when off the    *)
(* board).                                                                 *)
(***************************************************************************)
OnBoard(h, w, r, c) == r >= 0 /\ r < h /\ c >= 0 /\ c < w
Pt(w, r, c) == r * w + c + 1

Geo(h, w) ==
  LET Row(p) == (p - 1) \div w
      Col(p) == (p - 1) % w
      At(r, c) == IF OnBoard(h, w, r, c) THEN Pt(w, r, c) ELSE 0
  IN [h |-> h, w |-> w, n |-> h * w,
      nb |-> TLCEval([p \in 1..(h * w) |->
               {At(Row(p) + 1, Col(p)), At(Row(p) - 1, Col(p)),
                At(Row(p), Col(p) + 1), At(Row(p), Col(p) - 1)} \ {0}]),
      dg |-> TLCEval([p \in 1..(h * w) |->
               << At(Row(p) + 1, Col(p) + 1), At(Row(p) - 1, Col(p) - 1),
                  At(Row(p) + 1, Col(p) - 1), At(Row(p) - 1, Col(p) + 1) >>])]

EmptyBoard(g) == [p \in 1..g.n |-> Empty]

Points(b, c) == {p \in DOMAIN b : b[p] = c}
Stones(b) == {p \in DOMAIN b : b[p] # Empty}

(***************************************************************************)
(* Connected regions.                                                      *)
(***************************************************************************)
RECURSIVE Flood(_, _, _, _)
Flood(g, S, front, acc) ==
  LET nx == ((UNION {g.nb[p] : p \in front}) \cap S) \ acc
  IN IF nx = {} THEN acc ELSE Flood(g, S, nx, acc \cup nx)

(* The region of p within the set S of points. *)
RegionIn(g, S, p) == Flood(g, S, {p}, {p})

(* The maximal connected set of points with the same contents as p. *)
Region(g, b, p) == RegionIn(g, Points(b, b[p]), p)

(* The set of regions that partition S. *)
RECURSIVE PartAcc(_, _, _, _)
PartAcc(g, S, rest, acc) ==
  IF rest = {} THEN acc
  ELSE LET R == RegionIn(g, S, CHOOSE p \in rest : TRUE)
       IN PartAcc(g, S, rest \ R, acc \cup {R})
Partition(g, S) == PartAcc(g, S, S, {})

Groups(g, b) == Partition(g, Points(b, Black)) \cup Partition(g, Points(b, White))

Around(g, G) == UNION {g.nb[p] : p \in G}
Libs(g, b, G) == {q \in Around(g, G) : b[q] = Empty}
ColorOf(b, G) == b[CHOOSE p \in G : TRUE]

NoDeadGroup(g, b) == \A G \in Groups(g, b) : Libs(g, b, G) # {}

(***************************************************************************)
(* Placement.  `suicide' tells whether the rules permit suicide.           *)
(*   b    the resulting board                                              *)
(*   cap  the opposing stones removed                                      *)
(*   own  the player's own stones removed (the placed one included)        *)
(*   dead the placed stone's group would be without liberties              *)
(***************************************************************************)
Remove(b, S) == [q \in DOMAIN b |-> IF q \in S THEN Empty ELSE b[q]]

Place(g, b, p, c, suicide) ==
  LET b1   == [b EXCEPT ![p] = c]
      foes == {q \in g.nb[p] : b[q] = Opp(c)}
      FoeS == Points(b, Opp(c))
      FoeG == {RegionIn(g, FoeS, q) : q \in foes}
      cap  == UNION {G \in FoeG : Libs(g, b1, G) = {}}
      b2   == IF cap = {} THEN b1 ELSE Remove(b1, cap)
      G0   == Region(g, b2, p)
      dead == Libs(g, b2, G0) = {}
      own  == IF dead /\ suicide THEN G0 ELSE {}
  IN [b |-> IF own = {} THEN b2 ELSE Remove(b2, own),
      cap |-> cap, own |-> own, dead |-> dead]

Suicidal(g, b, p, c) == Place(g, b, p, c, FALSE).dead
Captures(g, b, p, c) == Place(g, b, p, c, FALSE).cap

(***************************************************************************)
(* Territory and score.                                                    *)
(***************************************************************************)
Touches(g, b, R, c) == \E p \in R : \E q \in g.nb[p] : b[q] = c

Territories(g, b) ==      \* << black territory, white territory >>
  LET Rs == Partition(g, Points(b, Empty))
      T(c) == UNION {R \in Rs : Touches(g, b, R, c) /\ ~ Touches(g, b, R, Opp(c))}
  IN << T(Black), T(White) >>

(* Scoring flags: bit 0 stones, bit 1 komi, bit 2 prisoners. *)
Bit(f, i) == (f \div (2 ^ i)) % 2 = 1

(* Scores are multiplied by 4, so that quarter komi are integers. *)
Score4(g, b, pris, komi4, f) ==
  LET T == Territories(g, b)
      One(c) == 4 * (Cardinality(T[c])
                     + (IF Bit(f, 0) THEN Cardinality(Points(b, c)) ELSE 0)
                     + (IF Bit(f, 2) THEN pris[c] ELSE 0))
  IN << One(Black), One(White) + (IF Bit(f, 1) THEN komi4 ELSE 0) >>

(***************************************************************************)
(* Eyes.  Diagonals are examined in the order of g.dg.                     *)
(***************************************************************************)
Allied(g, b, p, c) == Cardinality({i \in 1..4 : g.dg[p][i] = 0 \/ b[g.dg[p][i]] = c})
EmptyDiags(g, b, p) == SelectSeq(g.dg[p], LAMBDA q : q # 0 /\ b[q] = Empty)

RECURSIVE SecondLook(_, _, _, _)
SecondLook(g, b, c, ds) ==
  IF ds = <<>> THEN FALSE
  ELSE LET d == Head(ds)
       IN IF \E q \in g.nb[d] : b[q] = Opp(c) THEN FALSE
          ELSE IF Allied(g, b, d, c) \in {2, 3} THEN TRUE
          ELSE SecondLook(g, b, c, Tail(ds))

Eye(g, b, p, c) ==
  /\ b[p] = Empty
  /\ \A q \in g.nb[p] : b[q] = c
  /\ LET k == Allied(g, b, p, c)
     IN \/ k = 4
        \/ k \in {2, 3} /\ SecondLook(g, b, c, EmptyDiags(g, b, p))

(* Groups that border fewer than two of the given eyes. *)
Floating(g, b, eyes) ==
  {G \in Groups(g, b) : Cardinality({p \in eyes : g.nb[p] \cap G # {}}) < 2}
=============================================================================
