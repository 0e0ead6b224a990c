------------------------------- MODULE Calls --------------------------------
(***************************************************************************)
(* Emits every sequence of DEPTH builder calls from a menu with two values *)
(* for every option, with the game it stands for, as test cases for the    *)
(* real code: C|calls|result (see Configs.tla for the result).             *)
(***************************************************************************)
EXTENDS Builder, FiniteSets

CONSTANTS H, W, DEPTH, FULL

VARIABLES a, xs
vars == << a, xs >>

Sz == {<<H, W>>, <<W, H + 1>>}
GeoOf == [z \in Sz |-> Geo(z[1], z[2])]
GG(h, w) == GeoOf[<<h, w>>]

Menu ==
  {<<0, z[1], z[2]>> : z \in Sz}
  \cup {<<1, 7, 3, 30>>, <<1, 4, 2, 26>>}
  \cup {<<2, 0>>, <<2, -10>>}
  \cup {<<3, <<>>>>, <<3, <<<<0, 0>>, <<1, 0>>>>>>}
  \cup {<<4, 0>>, <<4, 2>>}
  \cup {<<5, Black>>, <<5, White>>}
  \cup {<<6, 1, 1, White>>, <<6, 0, 0, Black>>}
  \cup {<<7, <<5, 0, 0>>>>}
  \cup {<<8, <<<<0, 0, 1>>>>>>, <<8, <<>>>>}
  \cup (IF FULL THEN {<<7, <<2, 1, 0>>>>, <<8, <<<<1, 0, 0>>, <<0, 1, 0>>>>>>} ELSE {})

Init == xs = <<<<0, H, W>>>> /\ a = AskedBy(xs)
Next == Len(xs) <= DEPTH /\ \E x \in Menu : xs' = Append(xs, x) /\ a' = Call(a, x)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Stepping and folding agree; two calls for different options commute, and *)
(* a repeated option overrides (the properties the replay relies on).       *)
Folded == a = AskedBy(xs)
Same(x, y) == x[1] = y[1]
Commute == \A x, y \in Menu :
             IF Same(x, y) THEN x[1] # 6 => Call(Call(a, x), y) = Call(a, y)
             ELSE Call(Call(a, x), y) = Call(Call(a, y), x)

g == GG(a.h, a.w)
Played ==
  LET b0 == StartBoard(a)
  IN IF b0 = <<>> THEN <<>>
     ELSE << Run(g, a.ill, [InitGame(b0[1], FirstTurn(a)) EXCEPT !.res = a.pre], a.mv, 1, FALSE) >>
Verd == IF Played = <<>> THEN "no" ELSE IF Played[1].doubt THEN "any" ELSE IF Played[1].ok THEN "yes" ELSE "no"

RECURSIVE Dotted(_, _)
Dotted(q, i) == IF i > Len(q) THEN "" ELSE (IF i = 1 THEN "" ELSE ".") \o ToString(q[i]) \o Dotted(q, i + 1)
RECURSIVE Digits(_, _)
Digits(b, i) == IF i > Len(b) THEN "" ELSE ToString(b[i]) \o Digits(b, i + 1)
RECURSIVE Boards(_, _)
Boards(q, i) == IF i > Len(q) THEN "" ELSE Digits(q[i], 1) \o "/" \o Boards(q, i + 1)
RECURSIVE Flat(_, _)
Flat(q, i) == IF i > Len(q) THEN "" ELSE "." \o Dotted(q[i], 1) \o Flat(q, i + 1)
OneCall(x) == CASE x[1] \in {3, 8} -> ToString(x[1]) \o Flat(x[2], 1)
                [] x[1] = 7 -> "7." \o Dotted(x[2], 1)
                [] OTHER -> Dotted(x, 1)
RECURSIVE All(_, _)
All(q, i) == IF i > Len(q) THEN "" ELSE OneCall(q[i]) \o ";" \o All(q, i + 1)

Result ==
  IF Verd # "yes" THEN Verd
  ELSE LET s == Played[1].s
           sc == Score4(g, s.b, s.pris, AskedKomi(a), a.sco)
           v == [p \in 1..g.n |-> Verdict(g, a.ill, s, p)]
       IN "yes|" \o Digits(s.b, 1) \o "|" \o ToString(s.turn) \o "|" \o Dotted(s.pris, 1) \o "|" \o
          ToString(s.passes) \o "|" \o Dotted(Outcome(s, sc), 1) \o "|" \o Dotted(sc, 1) \o "|" \o
          Digits(v, 1) \o "|" \o Boards(s.hist, 1) \o "|" \o ToString(AskedKomi(a)) \o "|" \o
          ToString(a.h) \o "." \o ToString(a.w) \o "." \o ToString(a.ill) \o "." \o ToString(a.sco)

Emit == PrintT("C|" \o All(xs, 1) \o "|" \o Result)
=============================================================================
