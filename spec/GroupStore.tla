----------------------------- MODULE GroupStore -----------------------------
(***************************************************************************)
(* A board kept incrementally, the way the library keeps it: groups live   *)
(* in numbered slots that are reused, every group is a ring of stones      *)
(* through `next', with a set of liberties and a number of stones, the     *)
(* intersections know their slot, and the position hash is updated with    *)
(* every stone.  The machine places stones with capture (Play), edits      *)
(* (Push, Take) and is shown to refine the board of Goban.tla: whatever    *)
(* the sequence of steps, what the store says is what the stones say.      *)
(*                                                                         *)
(* The hash is symbolic: the set of the <<point, colour>> keys that are    *)
(* combined an odd number of times.                                        *)
(***************************************************************************)
EXTENDS Goban

CONSTANTS H, W, SUICIDE_OK, EDITS

VARIABLES cell,    \* point -> slot, 0 when empty
          slot,    \* sequence of <<>> (free) or << group >>
          next,    \* point -> point, the rings
          hash,    \* set of << point, colour >>
          act      \* << kind, board before, point or stones, colour >>
vars == <<cell, slot, next, hash, act>>
View == <<cell, slot, next, hash>>

G == Geo(H, W)
P == 1..G.n
Store == [cell |-> cell, slot |-> slot, next |-> next, hash |-> hash]

Grp(x, i) == x.slot[i][1]
Used(x) == {i \in DOMAIN x.slot : x.slot[i] # <<>>}

(* The stones of a ring, from its origin on. *)
RECURSIVE Walk(_, _, _, _)
Walk(nx, o, p, left) == IF left = 0 THEN <<>>
                        ELSE <<p>> \o (IF nx[p] = o THEN <<>> ELSE Walk(nx, o, nx[p], left - 1))
Ring(x, i) == Walk(x.next, Grp(x, i).origin, Grp(x, i).origin, G.n + 1)
SetOfSeq(q) == {q[i] : i \in DOMAIN q}
StonesOf(x, i) == SetOfSeq(Ring(x, i))

(* The board the store stands for. *)
Board(x) == [p \in P |-> IF x.cell[p] = 0 THEN Empty ELSE Grp(x, x.cell[p]).col]

Toggle(hs, k) == IF k \in hs THEN hs \ {k} ELSE hs \cup {k}

----------------------------------------------------------------------------
(* Steps of the algorithm. *)

FreeSlot(x) == IF \E i \in DOMAIN x.slot : x.slot[i] = <<>>
               THEN CHOOSE i \in DOMAIN x.slot :
                      x.slot[i] = <<>> /\ \A j \in DOMAIN x.slot : x.slot[j] = <<>> => i <= j
               ELSE Len(x.slot) + 1

Create(x, p, c, libs) ==
  LET i == FreeSlot(x)
      g == [col |-> c, origin |-> p, last |-> p, n |-> 1, libs |-> libs]
  IN << i, [x EXCEPT !.slot = IF i > Len(@) THEN Append(@, <<g>>) ELSE [@ EXCEPT ![i] = <<g>>],
                     !.next[p] = p,
                     !.cell[p] = i] >>

(* Joins p to the group in slot i. *)
AddStone(x, i, p) ==
  LET g == Grp(x, i)
      g2 == IF p < g.origin THEN [g EXCEPT !.origin = p, !.n = @ + 1] ELSE [g EXCEPT !.last = p, !.n = @ + 1]
  IN [x EXCEPT !.slot[i] = <<g2>>,
               !.next = [@ EXCEPT ![g.last] = p, ![p] = g.origin],
               !.cell[p] = i]

(* Merges the group in slot j into that in slot i. *)
Merge(x, i, j) ==
  LET a == Grp(x, i)
      b == Grp(x, j)
      bs == StonesOf(x, j)
      ab == [a EXCEPT !.libs = @ \cup b.libs, !.n = @ + b.n,
                      !.origin = IF a.origin > b.origin THEN b.origin ELSE @,
                      !.last = IF a.origin > b.origin THEN @ ELSE b.last]
  IN [x EXCEPT !.slot = [@ EXCEPT ![i] = <<ab>>, ![j] = <<>>],
               !.next = [@ EXCEPT ![a.last] = x.next[b.last], ![b.last] = x.next[a.last]],
               !.cell = [q \in P |-> IF q \in bs THEN i ELSE @[q]]]

RECURSIVE MergeAll(_, _, _)
MergeAll(x, t, own) ==      \* own: slots still to merge with t, the smaller into the bigger
  IF own = {} THEN << t, x >>
  ELSE LET i == CHOOSE k \in own : TRUE
       IN IF Cardinality(Grp(x, i).libs) < Cardinality(Grp(x, t).libs)
          THEN MergeAll(Merge(x, t, i), t, own \ {i})
          ELSE MergeAll(Merge(x, i, t), i, own \ {i})

(* Puts a stone: << slot of its group, slots left without liberties, store >>. *)
Put(x, p, c) ==
  LET near == {x.cell[q] : q \in {q \in G.nb[p] : x.cell[q] # 0}}
      own == {i \in near : Grp(x, i).col = c}
      foe == near \ own
      free == {q \in G.nb[p] : x.cell[q] = 0}
      x1 == [x EXCEPT !.slot = [i \in DOMAIN @ |-> IF i \in foe THEN <<[@[i][1] EXCEPT !.libs = @ \ {p}]>> ELSE @[i]]]
      dead == {i \in foe : Grp(x1, i).libs = {}}
      r == IF Cardinality(own) = 1
           THEN LET i == CHOOSE k \in own : TRUE
                    y == [x1 EXCEPT !.slot[i] = <<[Grp(x1, i) EXCEPT !.libs = (@ \ {p}) \cup free]>>]
                IN << i, AddStone(y, i, p) >>
           ELSE LET n0 == Create(x1, p, c, free)
                    m == MergeAll(n0[2], n0[1], own)
                IN << m[1], [m[2] EXCEPT !.slot[m[1]] = <<[Grp(m[2], m[1]) EXCEPT !.libs = @ \ {p}]>>] >>
  IN << r[1], dead, [r[2] EXCEPT !.hash = Toggle(@, <<p, c>>)] >>

(* Takes the group in slot i off the board, stone by stone. *)
RECURSIVE TakeStones(_, _, _, _)
TakeStones(x, i, ring, k) ==
  IF k > Len(ring) THEN x
  ELSE LET p == ring[k]
           near == {x.cell[q] : q \in {q \in G.nb[p] : x.cell[q] # 0}} \ {i}
       IN TakeStones([x EXCEPT !.slot = [j \in DOMAIN @ |-> IF j \in near THEN <<[@[j][1] EXCEPT !.libs = @ \cup {p}]>> ELSE @[j]],
                               !.hash = Toggle(@, <<p, Grp(x, i).col>>),
                               !.cell[p] = 0],
                     i, ring, k + 1)
TakeGroup(x, i) == [TakeStones(x, i, Ring(x, i), 1) EXCEPT !.slot[i] = <<>>]

RECURSIVE TakeGroups(_, _)
TakeGroups(x, S) == IF S = {} THEN x ELSE LET i == CHOOSE k \in S : TRUE IN TakeGroups(TakeGroup(x, i), S \ {i})

(* A stone with captures, and the player's own group last. *)
PlayOn(x, p, c) ==
  LET r == Put(x, p, c)
      y == TakeGroups(r[3], r[2])
  IN IF SUICIDE_OK /\ Grp(y, r[1]).libs = {} THEN TakeGroup(y, r[1]) ELSE y

----------------------------------------------------------------------------
Become(y, a) == /\ cell' = y.cell /\ slot' = y.slot /\ next' = y.next /\ hash' = y.hash
                /\ act' = a

Init == /\ cell = [p \in P |-> 0] /\ slot = <<>> /\ next = [p \in P |-> 0] /\ hash = {}
        /\ act = <<"init", EmptyBoard(G), 0, 0>>

Play(p, c) == /\ cell[p] = 0
              /\ ~ SUICIDE_OK => ~ Suicidal(G, Board(Store), p, c)
              /\ Become(PlayOn(Store, p, c), <<"play", Board(Store), p, c>>)
Push(p, c) == /\ EDITS /\ cell[p] = 0
              /\ Become(Put(Store, p, c)[3], <<"push", Board(Store), p, c>>)
Take(i) == /\ EDITS /\ i \in Used(Store)
           /\ Become(TakeGroup(Store, i), <<"take", Board(Store), StonesOf(Store, i), 0>>)

(* Rings of slots never used or emptied again keep stale pointers: hide them. *)
Next == \/ \E p \in P, c \in Colors : IF EDITS THEN Push(p, c) ELSE Play(p, c)
        \/ \E i \in 1..Len(slot) : Take(i)
Spec == Init /\ [][Next]_vars

Fresh == <<cell, slot, [p \in P |-> IF cell[p] = 0 THEN 0 ELSE next[p]], hash>>

----------------------------------------------------------------------------
(* What the store says is what the stones say. *)
B == Board(Store)
Slots == Used(Store)

RingsRight == \A i \in Slots :
  LET g == Grp(Store, i)
      r == Ring(Store, i)
  IN /\ Len(r) = g.n /\ Cardinality(SetOfSeq(r)) = g.n
     /\ r[1] = g.origin /\ r[Len(r)] = g.last
     /\ \A p \in P : p \in SetOfSeq(r) <=> cell[p] = i
GroupsRight == /\ {StonesOf(Store, i) : i \in Slots} = Groups(G, B)
               /\ Cardinality(Slots) = Cardinality(Groups(G, B))
LibertiesRight == \A i \in Slots : Grp(Store, i).libs = Libs(G, B, StonesOf(Store, i))
HashRight == hash = {<<p, B[p]>> : p \in Stones(B)}
SlotsBounded == Len(slot) <= G.n

(* Every step is the step of the abstract board. *)
StepRight == [][
  LET b == act'[2]
      b2 == Board([cell |-> cell', slot |-> slot', next |-> next', hash |-> hash'])
  IN CASE act'[1] = "play" -> b2 = Place(G, b, act'[3], act'[4], SUICIDE_OK).b
       [] act'[1] = "push" -> b2 = [b EXCEPT ![act'[3]] = act'[4]]
       [] act'[1] = "take" -> b2 = Remove(b, act'[3]) /\ act'[3] \in Groups(G, b)]_vars
=============================================================================
