-------------------------------- MODULE Sets --------------------------------
(***************************************************************************)
(* Liberty sets as the code keeps them, in buckets of BITS bits, next to   *)
(* the sets they stand for; and a store of groups whose numbers are used   *)
(* again.  N intersections, GS group numbers at most.                      *)
(***************************************************************************)
EXTENDS Extra, Bitwise

CONSTANTS N, BITS, GS

SIZE == N \div BITS + 1
All == 0..(N - 1)

VARIABLES slot,    \* what the code keeps: a sequence of buckets or <<>> (free)
          abst     \* what it stands for: a partial map from numbers to sets
vars == <<slot, abst>>

NoBits == [i \in 1..SIZE |-> 0]
Bucket(x) == x \div BITS + 1
Mask(x) == 2 ^ (x % BITS)
Has1(b, x) == b[Bucket(x)] & Mask(x) # 0
SetBit(b, x) == [b EXCEPT ![Bucket(x)] = @ | Mask(x)]
ClearBit(b, x) == [b EXCEPT ![Bucket(x)] = @ & (2 ^ BITS - 1 - Mask(x))]
Merge(a, b) == [i \in 1..SIZE |-> a[i] | b[i]]
RECURSIVE Ones(_)
Ones(v) == IF v = 0 THEN 0 ELSE (v % 2) + Ones(v \div 2)
RECURSIVE CountFrom(_, _)
CountFrom(b, i) == IF i > SIZE THEN 0 ELSE Ones(b[i]) + CountFrom(b, i + 1)
AnyBit(b) == \E i \in 1..SIZE : b[i] # 0
Members(b) == {x \in All : Has1(b, x)}

Init == slot = <<>> /\ abst = <<>>
Used == {i \in DOMAIN slot : slot[i] # <<>>}
Put == LET gaps == {i \in DOMAIN slot : slot[i] = <<>>}
           i == IF gaps # {} THEN CHOOSE x \in gaps : \A y \in gaps : x <= y ELSE Len(slot) + 1
       IN /\ i <= GS
          /\ slot' = IF i > Len(slot) THEN Append(slot, NoBits) ELSE [slot EXCEPT ![i] = NoBits]
          /\ Assert(Free(abst, i), "taken")
          /\ abst' = PutAt(abst, i, {})
Drop(i) == /\ slot' = [slot EXCEPT ![i] = <<>>]
           /\ abst' = Without(abst, i)
Add(i, x) == /\ slot' = [slot EXCEPT ![i] = SetBit(@, x)]
             /\ abst' = PutAt(abst, i, abst[i] \cup {x})
Del(i, x) == /\ slot' = [slot EXCEPT ![i] = ClearBit(@, x)]
             /\ abst' = PutAt(abst, i, abst[i] \ {x})
Union(i, j) == /\ slot' = [slot EXCEPT ![i] = Merge(@, slot[j])]
               /\ abst' = PutAt(abst, i, abst[i] \cup abst[j])
Next == \/ Put
        \/ \E i \in Used : \/ Drop(i)
                           \/ \E x \in All : Add(i, x) \/ Del(i, x)
                           \/ \E j \in Used : Union(i, j)
Spec == Init /\ [][Next]_vars

SameGroups == Used = DOMAIN abst
SameSets == \A i \in Used : Members(slot[i]) = abst[i]
SameCount == \A i \in Used : CountFrom(slot[i], 1) = Cardinality(abst[i])
SameAny == \A i \in Used : AnyBit(slot[i]) = (abst[i] # {})
=============================================================================
