------------------------------- MODULE GoGame -------------------------------
(***************************************************************************)
(* A game of Go as a state machine.  The state is a record                 *)
(*   b       the board                                                     *)
(*   turn    the colour to move                                            *)
(*   passes  number of consecutive passes (2: the game is paused)          *)
(*   pris    << prisoners taken by Black, prisoners taken by White >>      *)
(*   res     resignation or preset result, NoRes when there is none        *)
(*   prev    << the board before the immediately preceding stone play >>,  *)
(*           <<>> at the start and after a pass                            *)
(*   past    every position the board ever had, the current one included   *)
(*   hist    the distinct positions that stood just before a stone play    *)
(*                                                                         *)
(* Rules are bit sets as in the library:                                   *)
(*   bit 0 KO, bit 1 SUPERKO, bit 2 SUICIDE forbidden, bit 3 FILLEYE       *)
(*                                                                         *)
(* Verdict codes: 0 accepted, 1 Ko, 2 Suicide, 3 GamePaused, 4 FillEye,    *)
(*                5 PointNotEmpty.                                         *)
(* Results: <<0,0,0>> none, <<1,c,m>> c wins by m/4, <<2,c,0>> resign,     *)
(*          <<3,c,0>> time, <<4,c,0>> forfeit, <<5,0,0>> draw.             *)
(***************************************************************************)
EXTENDS Goban

OK == 0
KO == 1
SUICIDE == 2
PAUSED == 3
FILLEYE == 4
OCCUPIED == 5

NoRes == <<0, 0, 0>>
SuicideOK(f) == ~ Bit(f, 2)

InitGame(b, turn) ==
  [b |-> b, turn |-> turn, passes |-> 0, pris |-> <<0, 0>>, res |-> NoRes,
   prev |-> <<>>, past |-> {b}, hist |-> <<>>]

(***************************************************************************)
(* Legality of a stone play on p.                                          *)
(***************************************************************************)
KoForbidden(g, s, p) ==
  /\ s.prev # <<>>
  /\ s.prev[1][p] = s.turn      \* implied by the next conjunct; cheap
  /\ LET r == Place(g, s.b, p, s.turn, FALSE)
     IN r.cap # {} /\ r.b = s.prev[1]

(* own: the rules of the game (they decide whether suicides are removed);  *)
(* f: the restrictions asked about.                                        *)
Repeats(g, own, s, p) == Place(g, s.b, p, s.turn, SuicideOK(own)).b \in s.past

VerdictBy(g, own, s, p, f) ==
  CASE s.b[p] # Empty -> OCCUPIED
    [] Bit(f, 2) /\ Suicidal(g, s.b, p, s.turn) -> SUICIDE
    [] Bit(f, 0) /\ KoForbidden(g, s, p) -> KO
    [] Bit(f, 3) /\ Eye(g, s.b, p, s.turn) -> FILLEYE
    [] Bit(f, 1) /\ Repeats(g, own, s, p) -> KO
    [] OTHER -> OK

Verdict(g, own, s, p) == VerdictBy(g, own, s, p, own)
Legals(g, own, s, f) == {p \in Points(s.b, Empty) : VerdictBy(g, own, s, p, f) = OK}

(* What a search is offered: no move that fills an eye of the player, and a *)
(* pass (0) only when there is no other move.                               *)
WithEyes(f) == IF Bit(f, 3) THEN f ELSE f + 8
Offers(g, own, s) == LET L == Legals(g, own, s, WithEyes(own)) IN IF L = {} THEN {0} ELSE L

(***************************************************************************)
(* Steps.                                                                  *)
(***************************************************************************)
Paused(s) == s.passes = 2
Over(s) == Paused(s) \/ s.res # NoRes

InSeq(x, q) == \E i \in DOMAIN q : q[i] = x

PlayStone(g, own, s, p) ==
  LET r == Place(g, s.b, p, s.turn, SuicideOK(own))
      me == s.turn
      mine == Cardinality(r.cap)
      lost == Cardinality(r.own)
  IN [s EXCEPT !.b = r.b,
               !.turn = Opp(me),
               !.passes = 0,
               !.pris = IF me = Black THEN << @[1] + mine, @[2] + lost >>
                                      ELSE << @[1] + lost, @[2] + mine >>,
               !.prev = << s.b >>,
               !.past = @ \cup {r.b},
               !.hist = IF InSeq(s.b, @) THEN @ ELSE Append(@, s.b)]

PlayPass(s) == [s EXCEPT !.turn = Opp(@), !.passes = @ + 1, !.prev = <<>>]
PlayResign(s, c) == [s EXCEPT !.res = <<2, c, 0>>]
Resume(s) == [s EXCEPT !.passes = 0]

(* Checked plays: << verdict, next state >>. *)
TryStone(g, own, s, p) ==
  IF Paused(s) THEN << PAUSED, s >>
  ELSE LET v == Verdict(g, own, s, p)
       IN << v, IF v = OK THEN PlayStone(g, own, s, p) ELSE s >>
TryPass(s) == IF Paused(s) THEN << PAUSED, s >> ELSE << OK, PlayPass(s) >>
TryResign(s, c) == IF Paused(s) THEN << PAUSED, s >> ELSE << OK, PlayResign(s, c) >>

(***************************************************************************)
(* The outcome, given the two scores (times 4).                            *)
(***************************************************************************)
ByScore(sc) == CASE sc[1] = sc[2] -> <<5, 0, 0>>
                 [] sc[1] > sc[2] -> <<1, Black, sc[1] - sc[2]>>
                 [] OTHER -> <<1, White, sc[2] - sc[1]>>
Outcome(s, sc) == IF s.res # NoRes THEN s.res
                  ELSE IF Paused(s) THEN ByScore(sc) ELSE NoRes
=============================================================================
