------------------------------ MODULE Configs ------------------------------
(***************************************************************************)
(* Emits builder configurations (MODE "build") and game records (MODE      *)
(* "load"), bounded exhaustively, with the game they stand for, as test    *)
(* cases for the real code.  One line per case:                            *)
(*   B|hp|hc|tg|add|pre|komi|moves|result                                  *)
(*   R|ru|km|ha|ab|aw|pl|pre|gm|late|moves|result                          *)
(* result: yes|board|turn|pris|passes|outcome|scores|verdicts|history|komi,*)
(*   no (has to be refused) or any (a move breaks the rules of the game)   *)
(* Points are row.column, from 0.                                          *)
(***************************************************************************)
EXTENDS Record

CONSTANTS MODE, H, W, RULE, SCO, KOMI, DEPTH, RICH

VARIABLES c, mv
vars == <<c, mv>>
G == Geo(H, W)
GG(h, w) == G

Cells == {<<r, k>> : r \in 0..(H - 1), k \in 0..(W - 1)}
Off == {<<H, 0>>, <<0, W>>}
LastC == <<H - 1, W - 1>>
MidC == <<0, W - 1>>
Firsts == <<0, 0>>

(* Small menus for every field; RICH widens those of the fields. *)
HPs == {<<>>, <<MidC>>} \cup (IF RICH THEN {<<LastC, Firsts>>, <<MidC, MidC>>, <<<<H, 0>>>>, <<Firsts, <<0, W>>>>} ELSE {<<LastC, Firsts>>})
Adds == {<<>>, <<<<H - 1, 0, White>>>>}
        \cup (IF RICH THEN {<<<<MidC[1], MidC[2], Black>>>>, <<<<H - 1, 0, White>>, <<0, 0, Black>>>>,
                            <<<<0, W, White>>>>, <<<<H, 0, Black>>>>}
              ELSE {<<<<H - 1, 0, White>>, <<MidC[1], MidC[2], White>>>>})
Pres == IF RICH THEN {NoRes, <<2, 1, 0>>, <<5, 0, 0>>, <<1, 2, 14>>} ELSE {NoRes}
NoKomi == -9999
Komis == IF RICH THEN {NoKomi, 0, -3} ELSE {NoKomi}

BuildCases ==
  [hp : HPs, hc : {-1, 0, 2}, tg : {0, 1, 2}, add : Adds, pre : Pres, km : Komis]

ABs == {<<>>, <<Firsts>>} \cup (IF RICH THEN {<<MidC, LastC>>, <<<<H, 0>>>>, <<Firsts, Firsts>>} ELSE {<<MidC, LastC>>})
AWs == {<<>>, <<<<H - 1, 0>>>>} \cup (IF RICH THEN {<<Firsts>>, <<<<0, W>>>>} ELSE {})
RecordCases ==
  [ru : IF RICH THEN 0..3 ELSE {1, 2}, km : IF RICH THEN {NoKomi, 0, -10} ELSE {NoKomi},
   ha : {0, 2}, ab : ABs, aw : AWs, pl : IF RICH THEN 0..3 ELSE 0..2,
   pre : IF RICH THEN {NoRes, <<1, 2, 2>>, <<3, 1, 0>>, <<5, 0, 0>>} ELSE {NoRes},
   gm : IF RICH THEN {0, 1, 2} ELSE {0}, late : IF RICH THEN BOOLEAN ELSE {FALSE}]

BMoves == {<<0, x[1], x[2]>> : x \in Cells \cup Off} \cup {<<1, 0, 0>>, <<2, Black, 0>>}
RMoves == {<<k, 0, x[1], x[2]>> : k \in Colors, x \in Cells \cup Off} \cup {<<k, 1, 0, 0>> : k \in Colors}

----------------------------------------------------------------------------
Conf == [h |-> H, w |-> W, hp |-> c.hp, hc |-> c.hc, tg |-> c.tg, add |-> c.add, pre |-> c.pre]
Rec == [h |-> H, w |-> W, ru |-> c.ru, km |-> c.km, ha |-> c.ha, ab |-> c.ab, aw |-> c.aw, pl |-> c.pl,
        pre |-> c.pre, gm |-> c.gm, late |-> c.late, mv |-> mv]

TheConf == IF MODE = "build" THEN Conf ELSE ConfigOf(Rec)
TheMoves == IF MODE = "build" THEN mv ELSE MovesOf(Rec)
TheRule == IF MODE = "build" THEN RULE ELSE RuleFlags(Rec)
TheSco == IF MODE = "build" THEN SCO ELSE RuleScore(Rec)
TheKomi == IF MODE = "build" THEN IF c.km = NoKomi THEN KOMI ELSE c.km ELSE RecKomi(Rec)

Played ==        \* the run of the moves, << >> without a start
  LET b0 == StartBoard(TheConf)
  IN IF b0 = <<>> THEN <<>>
     ELSE << Run(G, TheRule, [InitGame(b0[1], FirstTurn(TheConf)) EXCEPT !.res = c.pre], TheMoves, 1, FALSE) >>

BuildVerdict == IF Played = <<>> THEN "no"
                ELSE IF Played[1].doubt THEN "any" ELSE IF Played[1].ok THEN "yes" ELSE "no"
Verd == IF MODE = "build" THEN BuildVerdict ELSE Representable(Rec, GG)

Init == c \in (IF MODE = "build" THEN BuildCases ELSE RecordCases) /\ mv = <<>>
Next == /\ Len(mv) < DEPTH
        /\ Verd = "yes"
        /\ \E m \in (IF MODE = "build" THEN BMoves ELSE RMoves) : mv' = Append(mv, m)
        /\ c' = c
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
RECURSIVE Dotted(_, _)
Dotted(q, i) == IF i > Len(q) THEN "" ELSE (IF i = 1 THEN "" ELSE ".") \o ToString(q[i]) \o Dotted(q, i + 1)
RECURSIVE Many(_, _)
Many(q, i) == IF i > Len(q) THEN "" ELSE Dotted(q[i], 1) \o ";" \o Many(q, i + 1)
RECURSIVE Digits(_, _)
Digits(b, i) == IF i > Len(b) THEN "" ELSE ToString(b[i]) \o Digits(b, i + 1)
RECURSIVE Boards(_, _)
Boards(q, i) == IF i > Len(q) THEN "" ELSE Digits(q[i], 1) \o "/" \o Boards(q, i + 1)

Result ==
  IF Verd # "yes" THEN Verd
  ELSE LET s == Played[1].s
           sc == Score4(G, s.b, s.pris, TheKomi, TheSco)
           v == [p \in 1..G.n |-> Verdict(G, TheRule, s, p)]
       IN "yes|" \o Digits(s.b, 1) \o "|" \o ToString(s.turn) \o "|" \o Dotted(s.pris, 1) \o "|" \o
          ToString(s.passes) \o "|" \o Dotted(Outcome(s, sc), 1) \o "|" \o Dotted(sc, 1) \o "|" \o
          Digits(v, 1) \o "|" \o Boards(s.hist, 1) \o "|" \o ToString(TheKomi)

(* The two readings of a case agree: a record is the configuration it       *)
(* stands for.                                                              *)
Agree == MODE = "load" /\ Verd = "yes" => Played # <<>> /\ Played[1].ok /\ ~ Played[1].doubt
WholeRange == Verd \in {"yes", "no", "any"}

Emit ==
  PrintT(IF MODE = "build"
         THEN "B|" \o Many(c.hp, 1) \o "|" \o ToString(c.hc) \o "|" \o ToString(c.tg) \o "|" \o Many(c.add, 1) \o "|" \o
              Dotted(c.pre, 1) \o "|" \o ToString(c.km) \o "|" \o Many(mv, 1) \o "|" \o Result
         ELSE "R|" \o ToString(c.ru) \o "|" \o ToString(c.km) \o "|" \o ToString(c.ha) \o "|" \o Many(c.ab, 1) \o "|" \o
              Many(c.aw, 1) \o "|" \o ToString(c.pl) \o "|" \o Dotted(c.pre, 1) \o "|" \o ToString(c.gm) \o "|" \o
              (IF c.late THEN "1" ELSE "0") \o "|" \o Many(mv, 1) \o "|" \o Result)
=============================================================================
