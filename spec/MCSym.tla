------------------------------- MODULE MCSym -------------------------------
(***************************************************************************)
(* The rules know no direction and no colour: in every reachable state,    *)
(* the image of a step is a step of the image.  (The second look at an     *)
(* eye examines the diagonals in a fixed order, so the fill-own-eye rule   *)
(* is not part of this.)                                                   *)
(***************************************************************************)
EXTENDS MCGame, Extra

Ys == 1..8
SigmaTab == TLCEval([y \in Ys |-> Sigma(H, W, y)])
GeoImg == TLCEval([y \in Ys |-> Geo(ImageH(H, W, y), ImageW(H, W, y))])

(* on boards with two rows and columns no two of the same shape are one *)
Eight == H > 1 /\ W > 1 =>
  \A a, z \in Ys : a < z /\ (a <= 4 <=> z <= 4) => SigmaTab[a] # SigmaTab[z]

Permutes == \A y \in Ys :
  /\ ImageSet(SigmaTab[y], 1..G.n) = 1..G.n
  /\ \A p \in 1..G.n : ImageSet(SigmaTab[y], G.nb[p]) = GeoImg[y].nb[SigmaTab[y][p]]

SymRules == \A y \in Ys : \A v \in BOOLEAN :
  \A z \in {ImageGame(SigmaTab[y], v, s)} :
    /\ \A f \in {4, 5} \cup (IF SUPER THEN {2, 7} ELSE {}) : \A p \in 1..G.n :
         VerdictBy(G, RULE, s, p, f) = VerdictBy(GeoImg[y], RULE, z, SigmaTab[y][p], f)
    /\ \A p \in Points(s.b, Empty) :
         ImageGame(SigmaTab[y], v, PlayStone(G, RULE, s, p))
           = PlayStone(GeoImg[y], RULE, z, SigmaTab[y][p])
    /\ ImageGame(SigmaTab[y], v, PlayPass(s)) = PlayPass(z)

SymScore == \A y \in Ys : \A v \in BOOLEAN :
  \A z \in {ImageBoard(SigmaTab[y], v, s.b)} :
    /\ \A c \in Colors :
         ImageSet(SigmaTab[y], Territories(G, s.b)[c]) = Territories(GeoImg[y], z)[SwapC(v, c)]
    /\ \A f \in {0, 1, 4, 5} :
         Swap2(v, Score4(G, s.b, s.pris, 0, f)) = Score4(GeoImg[y], z, Swap2(v, s.pris), 0, f)
    /\ {ImageSet(SigmaTab[y], X) : X \in Groups(G, s.b)} = Groups(GeoImg[y], z)
=============================================================================
