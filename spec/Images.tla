------------------------------- MODULE Images -------------------------------
(***************************************************************************)
(* Every board of a size, or every K-th one, together with the symmetries  *)
(* of its shape, as test cases for the real code: what the code says about *)
(* the image of a position has to be the image of what it says about the   *)
(* position.  Lines:                                                       *)
(*   S|y|h2|w2|image of each point      one per symmetry                   *)
(*   I|board                            one per board                      *)
(* (MCSym checks that the specification itself has these symmetries, for   *)
(* reachable games; Right checks it here for every board, reachable or     *)
(* not, with either player to move.)                                       *)
(***************************************************************************)
EXTENDS Extra

CONSTANTS H, W, K, R

VARIABLE x
G == Geo(H, W)
SigmaTab == TLCEval([y \in 1..8 |-> Sigma(H, W, y)])
GeoImg == TLCEval([y \in 1..8 |-> Geo(ImageH(H, W, y), ImageW(H, W, y))])

RECURSIVE Code(_, _)
Code(b, i) == IF i > Len(b) THEN 0 ELSE (Code(b, i + 1) * 3 + b[i]) % 1000003

Init == x \in ({<<"S", y>> : y \in 1..8}
               \cup {<<"I", b>> : b \in {q \in [1..G.n -> {Empty, Black, White}] : Code(q, 1) % K = R % K}})
Spec == Init /\ [][FALSE]_x

RECURSIVE Dots(_, _)
Dots(q, i) == IF i > Len(q) THEN "" ELSE (IF i = 1 THEN "" ELSE ".") \o ToString(q[i]) \o Dots(q, i + 1)
RECURSIVE Digits(_, _)
Digits(b, i) == IF i > Len(b) THEN "" ELSE ToString(b[i]) \o Digits(b, i + 1)

Emit ==
  PrintT(IF x[1] = "S"
         THEN "S|" \o ToString(x[2]) \o "|" \o ToString(ImageH(H, W, x[2])) \o "|" \o
              ToString(ImageW(H, W, x[2])) \o "|" \o Dots([p \in 1..G.n |-> SigmaTab[x[2]][p]], 1)
         ELSE "I|" \o Digits(x[2], 1))

Right ==
  x[1] = "I" =>
  \A y \in 1..8, v \in BOOLEAN :
    \A z \in {ImageBoard(SigmaTab[y], v, x[2])} :
      /\ \A c \in Colors :
           ImageSet(SigmaTab[y], Territories(G, x[2])[c]) = Territories(GeoImg[y], z)[SwapC(v, c)]
      /\ \A p \in Points(x[2], Empty) : \A c \in Colors : \A rule \in {4, 0} :
           ImageBoard(SigmaTab[y], v, Place(G, x[2], p, c, SuicideOK(rule)).b)
             = Place(GeoImg[y], z, SigmaTab[y][p], SwapC(v, c), SuicideOK(rule)).b
=============================================================================
