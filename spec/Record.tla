------------------------------- MODULE Record -------------------------------
(***************************************************************************)
(* Configurations of the game builder and game records, as data, and the   *)
(* game they stand for.                                                    *)
(*                                                                         *)
(* A configuration c has                                                   *)
(*   h, w     rows and columns        add   set-up stones << row, col, c >>*)
(*   hp       handicap points         hc    handicap number, -1 if not set *)
(*   tg       turn, 0 if not set      pre   preset result, NoRes if none   *)
(* Rows and columns are counted from 0 here, as in the library.            *)
(***************************************************************************)
EXTENDS GoGame

MaxSize == 19

(* Who moves first. *)
FirstTurn(c) == IF c.tg # 0 THEN c.tg
                ELSE IF c.hc > 0 \/ (c.hc < 0 /\ c.hp # <<>>) THEN White
                ELSE Black

SetUp(c) ==       \* all stones of the configuration, in order
  [i \in DOMAIN c.hp |-> << c.hp[i][1], c.hp[i][2], Black >>] \o c.add

RECURSIVE PutAll(_, _, _, _, _)
PutAll(h, w, b, stones, i) ==      \* << >> when a stone cannot be put
  IF i > Len(stones) THEN << b >>
  ELSE LET x == stones[i]
       IN IF ~ OnBoard(h, w, x[1], x[2]) THEN <<>>
          ELSE LET p == Pt(w, x[1], x[2])
               IN IF b[p] # Empty THEN <<>>
                  ELSE PutAll(h, w, [b EXCEPT ![p] = x[3]], stones, i + 1)

StartBoard(c) ==
  IF c.h > MaxSize \/ c.w > MaxSize THEN <<>>
  ELSE PutAll(c.h, c.w, [p \in 1..(c.h * c.w) |-> Empty], SetUp(c), 1)

(***************************************************************************)
(* Moves: << 0, row, col >>, << 1, 0, 0 >> a pass, << 2, colour, 0 >> a    *)
(* resignation.  Moves of a record are not checked against the rules of    *)
(* the game (`doubt' tells that one of them broke them), but they must be  *)
(* possible: a stone goes on an empty point, nobody passes in a paused     *)
(* game.                                                                   *)
(***************************************************************************)
RECURSIVE Run(_, _, _, _, _, _)
Run(g, own, s, mv, i, doubt) ==
  IF i > Len(mv) THEN [ok |-> TRUE, doubt |-> doubt, s |-> s]
  ELSE LET m == mv[i]
       IN CASE m[1] = 1 -> IF s.passes >= 2 THEN [ok |-> FALSE, doubt |-> doubt, s |-> s]
                           ELSE Run(g, own, PlayPass(s), mv, i + 1, doubt)
            [] m[1] = 2 -> Run(g, own, PlayResign(s, m[2]), mv, i + 1, doubt)
            [] OTHER ->
                 IF ~ OnBoard(g.h, g.w, m[2], m[3]) THEN [ok |-> FALSE, doubt |-> doubt, s |-> s]
                 ELSE LET p == Pt(g.w, m[2], m[3])
                      IN IF s.b[p] # Empty THEN [ok |-> FALSE, doubt |-> doubt, s |-> s]
                         ELSE Run(g, own, PlayStone(g, own, s, p), mv, i + 1,
                                  doubt \/ Verdict(g, own, s, p) # OK)

(***************************************************************************)
(* SGF records.                                                            *)
(*   ru  0 absent, 1 Japanese, 2 Chinese, 3 any other                      *)
(*   km  komi in quarter points, -9999 if absent      ha  0 if absent      *)
(*   ab, aw  set-up points      pl  0 absent, 1, 2, 3 not a player         *)
(*   gm  game type, 0 if absent     late  set-up stones after the root     *)
(*   mv  << colour, 0 stone / 1 pass, row, col >>                          *)
(***************************************************************************)
RuleFlags(r) == IF r.ru = 1 THEN 5 ELSE 7
RuleScore(r) == IF r.ru = 1 THEN 6 ELSE 3
RecKomi(r) == IF r.km # -9999 THEN r.km ELSE IF r.ru = 1 THEN 26 ELSE 30

Alternate(r) ==
  /\ \A i \in 1..(Len(r.mv) - 1) : r.mv[i + 1][1] = Opp(r.mv[i][1])
  /\ (r.pl \in {1, 2} /\ r.mv # <<>>) => r.mv[1][1] = r.pl

ConfigOf(r) ==
  [h |-> r.h, w |-> r.w, hp |-> <<>>, hc |-> r.ha,
   tg |-> IF r.pl # 0 THEN r.pl ELSE IF r.mv # <<>> THEN r.mv[1][1] ELSE 0,
   add |-> [i \in DOMAIN r.ab |-> << r.ab[i][1], r.ab[i][2], Black >>] \o
           [i \in DOMAIN r.aw |-> << r.aw[i][1], r.aw[i][2], White >>],
   pre |-> r.pre]

MovesOf(r) == [i \in DOMAIN r.mv |->
                 IF r.mv[i][2] = 1 THEN << 1, 0, 0 >> ELSE << 0, r.mv[i][3], r.mv[i][4] >>]

(* "no" it has to be refused, "any" a move breaks the rules, else "yes" *)
Representable(r, G(_, _)) ==
  IF r.gm \notin {0, 1} \/ r.ru = 3 \/ r.pl = 3 \/ r.late \/ ~ Alternate(r) THEN "no"
  ELSE LET b0 == StartBoard(ConfigOf(r))
       IN IF b0 = <<>> THEN "no"
          ELSE LET s0 == InitGame(b0[1], FirstTurn(ConfigOf(r)))
                   z  == Run(G(r.h, r.w), RuleFlags(r), s0, MovesOf(r), 1, FALSE)
               IN IF z.doubt THEN "any" ELSE IF z.ok THEN "yes" ELSE "no"
=============================================================================
