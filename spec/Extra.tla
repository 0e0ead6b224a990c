------------------------------- MODULE Extra -------------------------------
(***************************************************************************)
(* Whole scripts of a game, the symmetries of the rules, the named rules   *)
(* and conversions, and the sets a board is kept in.                       *)
(***************************************************************************)
EXTENDS Builder

(***************************************************************************)
(* Scripts: << 0, row, col >>, << 1, 0, 0 >> a pass, << 2, colour, 0 >> a  *)
(* resignation, << 3, 0, 0 >> resuming, << 4, k, 0 >> setting the komi to  *)
(* k/4.  Act gives the state after one action of a script.                 *)
(***************************************************************************)
Point(g, m) == Pt(g.w, m[2], m[3])
Allowed(g, own, s, m) ==      \* may a checked play do it?
  CASE m[1] = 0 -> OnBoard(g.h, g.w, m[2], m[3]) /\ TryStone(g, own, s, Point(g, m))[1] = OK
    [] m[1] \in {1, 2} -> ~ Paused(s)
    [] OTHER -> TRUE
Act(g, own, s, m) ==
  CASE m[1] = 0 -> PlayStone(g, own, s, Point(g, m))
    [] m[1] = 1 -> PlayPass(s)
    [] m[1] = 2 -> PlayResign(s, m[2])
    [] m[1] = 3 -> Resume(s)
    [] OTHER -> s

RECURSIVE Script(_, _, _, _, _)
Script(g, own, s, mv, i) ==
  IF i > Len(mv) THEN s ELSE Script(g, own, Act(g, own, s, mv[i]), mv, i + 1)

(***************************************************************************)
(* Symmetries: 1..4 keep the shape, 5..8 exchange rows and columns.        *)
(***************************************************************************)
ImageRC(h, w, y, r, c) ==
  CASE y = 1 -> << r, c >>
    [] y = 2 -> << h - 1 - r, c >>
    [] y = 3 -> << r, w - 1 - c >>
    [] y = 4 -> << h - 1 - r, w - 1 - c >>
    [] y = 5 -> << c, r >>
    [] y = 6 -> << w - 1 - c, r >>
    [] y = 7 -> << c, h - 1 - r >>
    [] y = 8 -> << w - 1 - c, h - 1 - r >>
ImageH(h, w, y) == IF y <= 4 THEN h ELSE w
ImageW(h, w, y) == IF y <= 4 THEN w ELSE h
(* the permutation of the points, as a function 1..h*w -> 1..h*w *)
Sigma(h, w, y) ==
  TLCEval([p \in 1..(h * w) |->
     LET x == ImageRC(h, w, y, (p - 1) \div w, (p - 1) % w)
     IN Pt(ImageW(h, w, y), x[1], x[2])])

SwapC(v, c) == IF v /\ c # Empty THEN Opp(c) ELSE c
Swap2(v, q) == IF v THEN << q[2], q[1] >> ELSE q
ImageSet(sg, S) == {sg[p] : p \in S}
ImageBoard(sg, v, b) ==
  [q \in DOMAIN b |-> SwapC(v, b[CHOOSE p \in DOMAIN b : sg[p] = q])]
ImageRes(v, x) == << x[1], SwapC(v, x[2]), x[3] >>
ImageGame(sg, v, s) ==
  [b |-> ImageBoard(sg, v, s.b), turn |-> SwapC(v, s.turn), passes |-> s.passes,
   pris |-> Swap2(v, s.pris), res |-> ImageRes(v, s.res),
   prev |-> IF s.prev = <<>> THEN <<>> ELSE << ImageBoard(sg, v, s.prev[1]) >>,
   past |-> {ImageBoard(sg, v, b) : b \in s.past},
   hist |-> [i \in DOMAIN s.hist |-> ImageBoard(sg, v, s.hist[i])]]

(***************************************************************************)
(* Named rules: << komi * 4, restrictions, scoring >>.                     *)
(***************************************************************************)
NamedRule(n) == CASE n = "JAP" -> << 26, 5, 6 >>
                  [] n = "CHI" -> << 30, 7, 3 >>
                  [] OTHER -> <<>>
NamedSize(n) == IF n \in {9, 13, 19} THEN << n, n >> ELSE <<>>
ColorName(c) == IF c = Black THEN "Black" ELSE "White"

(* Neighbouring and diagonal points of row r and column c, on the board. *)
Beside(h, w, r, c) ==
  {x \in {<< r + 1, c >>, << r - 1, c >>, << r, c + 1 >>, << r, c - 1 >>} : OnBoard(h, w, x[1], x[2])}
Diagonal(h, w, r, c) ==
  {x \in {<< r + 1, c + 1 >>, << r - 1, c - 1 >>, << r + 1, c - 1 >>, << r - 1, c + 1 >>} :
     OnBoard(h, w, x[1], x[2])}

(***************************************************************************)
(* The store of groups: a partial map from small numbers to groups.  A new *)
(* group goes to the lowest free number or to a new one; which one is not  *)
(* prescribed, only that it is free.                                       *)
(***************************************************************************)
Free(M, i) == i \notin DOMAIN M
PutAt(M, i, x) == [j \in DOMAIN M \cup {i} |-> IF j = i THEN x ELSE M[j]]
Without(M, i) == [j \in DOMAIN M \ {i} |-> M[j]]
=============================================================================
