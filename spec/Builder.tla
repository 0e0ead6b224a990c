------------------------------- MODULE Builder ------------------------------
(***************************************************************************)
(* The builder as a state machine: a state is the configuration asked for  *)
(* so far, a step is one call.  The order of the calls does not matter,    *)
(* except that of an option given twice the last value stands; set-up      *)
(* stones add up.                                                          *)
(*   << 0, rows, cols >>   << 1, ill, sco, komi4 >>   << 2, komi4 >>       *)
(*   << 3, points >> (handicap)   << 4, number >>   << 5, colour >>        *)
(*   << 6, row, col, colour >> (set-up)  << 7, result >>  << 8, moves >>   *)
(*   << 9 >> the names of the players                                      *)
(***************************************************************************)
EXTENDS Record

NotGiven == -9999
Asked0 == [h |-> 19, w |-> 19, hp |-> <<>>, hc |-> -1, tg |-> 0, add |-> <<>>, pre |-> NoRes,
           ill |-> 7, sco |-> 3, rk |-> 30, km |-> NotGiven, mv |-> <<>>]

Call(a, x) ==
  CASE x[1] = 0 -> [a EXCEPT !.h = x[2], !.w = x[3]]
    [] x[1] = 1 -> [a EXCEPT !.ill = x[2], !.sco = x[3], !.rk = x[4]]
    [] x[1] = 2 -> [a EXCEPT !.km = x[2]]
    [] x[1] = 3 -> [a EXCEPT !.hp = x[2]]
    [] x[1] = 4 -> [a EXCEPT !.hc = x[2]]
    [] x[1] = 5 -> [a EXCEPT !.tg = x[2]]
    [] x[1] = 6 -> [a EXCEPT !.add = Append(@, << x[2], x[3], x[4] >>)]
    [] x[1] = 7 -> [a EXCEPT !.pre = x[2]]
    [] x[1] = 8 -> [a EXCEPT !.mv = x[2]]
    [] OTHER -> a

RECURSIVE CallsFrom(_, _, _)
CallsFrom(a, xs, i) == IF i > Len(xs) THEN a ELSE CallsFrom(Call(a, xs[i]), xs, i + 1)
AskedBy(xs) == CallsFrom(Asked0, xs, 1)

AskedKomi(a) == IF a.km = NotGiven THEN a.rk ELSE a.km
=============================================================================
