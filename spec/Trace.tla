------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Checks a trace recorded from the real code against the specification.   *)
(*                                                                         *)
(* The trace is a sequence of events (ndjson).  A game event carries what  *)
(* the code made visible after it; every step has to be a step of GoGame.  *)
(* Steps are judged from the state the code itself reported before, so     *)
(* that a defect is reported by the property it breaks and not by those    *)
(* that merely come after it.  What the code does not make visible (the    *)
(* number of passes, the result, the board before the last play, the past  *)
(* positions) is carried by the specification.                             *)
(*                                                                         *)
(* PROP says which property's obligations are checked.  The first step     *)
(* that is not one of the specification is printed and stops the check.    *)
(***************************************************************************)
EXTENDS Extra, Json, IOUtils, Bitwise

PROP == IOEnv.PROP
Log == ndJsonDeserialize(IOEnv.TRACE)

Has(e, f) == f \in DOMAIN e
SetOf(q) == {q[i] : i \in DOMAIN q}
NoDup(q) == Cardinality(SetOf(q)) = Len(q)
Is(P) == PROP \in P

Sizes == {<<Log[i].h, Log[i].w>> : i \in {j \in DOMAIN Log :
             /\ Log[j].e \in {"start", "estart", "lstart", "cmp", "build", "load", "rstart", "mirror"}
             /\ Log[j].h <= MaxSize /\ Log[j].w <= MaxSize}}
GeoTab == TLCEval([z \in Sizes |-> TLCEval(Geo(z[1], z[2]))])
G(h, w) == GeoTab[<<h, w>>]

VARIABLES l, st
vars == <<l, st>>
View == l

Where == <<l + 1, IF Has(Log[l + 1], "sid") THEN Log[l + 1].sid ELSE st.sid>>
A(name, cond, expected) ==
  IF cond THEN TRUE
  ELSE PrintT(<<"MISMATCH", name, Where, expected>>) /\ FALSE

----------------------------------------------------------------------------
(* What is visible in one state. *)

(* Names are bound by quantifiers over singletons, which TLC evaluates once. *)
Key(g, b, X) == <<ColorOf(b, X), Cardinality(X), Libs(g, b, X)>>
GroupsExact(g, b, o) ==
  \A Gs \in {Groups(g, b)} :
  \A KeyOf \in {TLCEval([X \in Gs |-> Key(g, b, X)])} :
  \A Ks \in {{KeyOf[X] : X \in Gs}} :
  \A Cs \in {[i \in DOMAIN o.ch |-> <<o.ch[i][1], o.ch[i][2], SetOf(o.ch[i][3])>>]} :
     /\ A("groups", /\ {<<x[1], SetOf(x[2])>> : x \in SetOf(o.gs)} = {<<ColorOf(b, X), X>> : X \in Gs}
                    /\ Len(o.gs) = Cardinality(Gs)
                    /\ \A x \in SetOf(o.gs) : NoDup(x[2]), Gs)
     /\ A("announced lengths", \A x \in SetOf(o.gs) :
             x[3] = [i \in 1..(Len(x[2]) + 1) |-> Len(x[2]) + 1 - i], "one less at each step")
     /\ A("chains", /\ Len(Cs) = Cardinality(Gs)
                    /\ SetOf(Cs) = Ks
                    /\ (Cardinality(Ks) # Cardinality(Gs)) =>
                         \A k \in Ks : Cardinality({i \in DOMAIN Cs : Cs[i] = k})
                                       = Cardinality({X \in Gs : KeyOf[X] = k}), Ks)
     /\ A("chain facts", \A x \in SetOf(o.ch) :
                           /\ NoDup(x[3])
                           /\ x[4] = Len(x[3])
                           /\ x[5] = (IF Len(x[3]) = 1 THEN 1 ELSE 0)
                           /\ x[6] = (IF Len(x[3]) = 0 THEN 1 ELSE 0)
                           /\ SetOf(x[7]) = SetOf(x[3]), "liberty count, atari, dead")
     /\ A("stone counts", o.ns = <<Cardinality(Points(b, Black)), Cardinality(Points(b, White))>>, b)

(* The verdict under f, given the verdicts `sui' of the suicide rule alone. *)
SuiObs(g, s, o) ==
  LET SuiBy(c) == {p \in 1..g.n : s.b[p] = Empty /\ Suicidal(g, s.b, p, c)} IN
  \A By \in {[c \in Colors |-> SuiBy(c)]} :
  \A Sui \in {[p \in 1..g.n |-> p \in By[s.t]]} :
  LET V(f) == [p \in 1..g.n |-> IF s.b[p] # Empty THEN OCCUPIED ELSE IF f /\ Sui[p] THEN SUICIDE ELSE OK]
  IN /\ A("suicide verdicts", o.s4 = V(TRUE), V(TRUE))
     /\ A("verdicts without rules", o.s0 = V(FALSE), V(FALSE))
     /\ A("suicide without the rule", \A p \in 1..g.n : o.sk[p] # SUICIDE, o.sk)
     /\ A("check_suicide black", SetOf(o.sb) = By[Black], By[Black])
     /\ A("check_suicide white", SetOf(o.sw) = By[White], By[White])
     /\ (Has(o, "ty") /\ s.passes < 2) =>
          A("suicide by try_play",
            \A p \in 1..g.n : (o.ty[p] = SUICIDE) = (Bit(s.ill, 2) /\ Sui[p]), Sui)

KoPts(g, s) == {p \in 1..g.n : s.b[p] = Empty /\ KoForbidden(g, [b |-> s.b, turn |-> s.t, prev |-> s.prev], p)}
KoObs(g, s, o) ==
  \A K \in {KoPts(g, s)} :
  LET V1 == [p \in 1..g.n |-> IF s.b[p] # Empty THEN OCCUPIED ELSE IF p \in K THEN KO ELSE OK]
      V5 == [p \in 1..g.n |-> IF o.k4[p] # OK THEN o.k4[p] ELSE IF p \in K THEN KO ELSE OK]
  IN /\ A("ko verdicts", o.k1 = V1, <<K, V1>>)
     /\ A("ko and suicide verdicts", o.k5 = V5, <<K, V5>>)
     /\ A("check_ko", SetOf(o.kk) = K, K)
     /\ A("legals by ko", SetOf(o.lk) = Points(s.b, Empty) \ K, K)
     /\ (Has(o, "ty") /\ s.passes < 2 /\ ~ Bit(s.ill, 1)) =>
          A("ko by try_play", \A p \in 1..g.n : (o.ty[p] = KO) = (Bit(s.ill, 0) /\ p \in K), K)

SuperObs(g, s, o) ==
  \A R \in {{p \in 1..g.n : s.b[p] = Empty /\ Place(g, s.b, p, s.t, SuicideOK(s.ill)).b \in s.past}} :
  LET V2 == [p \in 1..g.n |-> IF s.b[p] # Empty THEN OCCUPIED ELSE IF p \in R THEN KO ELSE OK]
      V6 == [p \in 1..g.n |-> IF o.k4[p] # OK THEN o.k4[p] ELSE IF p \in R THEN KO ELSE OK]
  IN /\ A("superko verdicts", o.k2 = V2, <<R, V2>>)
     /\ A("superko and suicide verdicts", o.k6 = V6, <<R, V6>>)
     /\ (Has(o, "ty") /\ s.passes < 2 /\ Bit(s.ill, 1)) =>
          A("superko by try_play",
            \A p \in 1..g.n : /\ (o.ty[p] = KO) => p \in R
                              /\ (o.ty[p] = OK) => p \notin R, R)

(* The 16 rule combinations are conjunctions of the four single ones, and all *)
(* the ways of asking agree.                                                  *)
Single == <<1, 2, 4, 8>>
ReasonOf == <<KO, KO, SUICIDE, FILLEYE>>
AgreeObs(g, s, o) ==
  \A E \in {Points(s.b, Empty)} :
  LET Acc(f) == {p \in 1..g.n : o.C[f + 1][p] = OK}
  IN /\ A("legals_by", \A f \in 0..15 : NoDup(o.L[f + 1]) /\ SetOf(o.L[f + 1]) = Acc(f), "codes")
     /\ A("occupied", \A f \in 0..15 : \A p \in 1..g.n : (o.C[f + 1][p] = OCCUPIED) = (p \notin E), E)
     /\ A("rules combine", \A f \in 0..15 : \A p \in E :
            \A W \in {{i \in 1..4 : Bit(f, i - 1) /\ o.C[Single[i] + 1][p] # OK}} :
               IF W = {} THEN o.C[f + 1][p] = OK
               ELSE o.C[f + 1][p] \in {ReasonOf[i] : i \in W}, "single rules")
     /\ A("check_point", o.cp = o.C[s.ill + 1], o.C[s.ill + 1])
     /\ A("legals", NoDup(o.lg) /\ SetOf(o.lg) = {p \in 1..g.n : o.cp[p] = OK}, o.cp)
     /\ A("try_play", o.ty = (IF s.passes = 2 THEN [p \in 1..g.n |-> PAUSED] ELSE o.cp), o.cp)
     /\ A("refused plays change nothing", o.tu = <<>>, <<>>)

ScoreObs(g, s, o) ==
  \A T \in {Territories(g, s.b)} :
  LET S(f) == LET One(c) == 4 * (Cardinality(T[c])
                     + (IF Bit(f, 0) THEN Cardinality(Points(s.b, c)) ELSE 0)
                     + (IF Bit(f, 2) THEN s.p[c] ELSE 0))
              IN << One(Black), One(White) + (IF Bit(f, 1) THEN s.k ELSE 0) >>
  IN /\ A("black territory", NoDup(o.tb) /\ SetOf(o.tb) = T[1], T[1])
     /\ A("white territory", NoDup(o.tw) /\ SetOf(o.tw) = T[2], T[2])
     /\ A("territory counts", o.ct = <<Cardinality(T[1]), Cardinality(T[2])>>, T)
     /\ A("scores", \A f \in 0..7 : o.sc[f + 1] = S(f), [f \in 0..7 |-> S(f)])
     /\ A("score by the rules", o.so = S(s.sco), S(s.sco))

OutcomeObs(g, s, o) ==
  \A x \in {Outcome([res |-> s.res, passes |-> s.passes], o.so)} :
     /\ A("outcome", o.oc = x, x)
     /\ A("winner", o.wn = (IF x[1] \in {0, 5} THEN 0 ELSE x[2]), x)

XorW(a, b) == [i \in 1..4 |-> a[i] ^^ b[i]]
RECURSIVE XorFrom(_, _, _, _)
XorFrom(b, ks, i, acc) ==
  IF i > Len(b) THEN acc
  ELSE XorFrom(b, ks, i + 1, IF b[i] = Empty THEN acc ELSE XorW(acc, ks[i][b[i]]))
HashExact(b, ks, hs) ==
  \A x \in {XorFrom(b, ks, 1, <<0, 0, 0, 0>>)} : A("hash", hs = x, x)
KeysGood(ks) ==
  LET All == {ks[i][c] : i \in DOMAIN ks, c \in {1, 2}}
  IN A("keys", Cardinality(All) = 2 * Len(ks) /\ <<0, 0, 0, 0>> \notin All, "distinct, not zero")

(* How the text picture draws an empty point: 3 to 6 the corners, 7 to 10 the edges, 11 the inside. *)
Drawn(g, i, j) ==
  LET up == i = 1  down == i = g.h  left == j = 1  right == j = g.w
  IN CASE up /\ left -> 3
       [] up /\ right /\ ~ left -> 4
       [] down /\ left /\ ~ up -> 5
       [] down /\ right /\ ~ up /\ ~ left -> 6
       [] up /\ ~ left /\ ~ right -> 7
       [] down /\ ~ up /\ ~ left /\ ~ right -> 8
       [] left /\ ~ up /\ ~ down -> 9
       [] right /\ ~ left /\ ~ up /\ ~ down -> 10
       [] OTHER -> 11
Picture(g, b) ==
  [i \in 1..g.h |-> [j \in 1..g.w |->
     IF b[(i - 1) * g.w + j] = Empty THEN Drawn(g, i, j) ELSE b[(i - 1) * g.w + j]]]

ViewObs(g, s, o) ==
  LET b == s.b
      PP(S) == {<<p, b[p]>> : p \in S}
      Pts(q, S) == NoDup(q) /\ SetOf(q) = S
  IN \A Rows \in {[i \in 1..g.h |-> [j \in 1..g.w |-> b[(i - 1) * g.w + j]]]} :
     /\ A("colours by index", o.gi = b, b)
     /\ A("get_stones", NoDup(o.gst) /\ SetOf(o.gst) = PP(Stones(b)), b)
     /\ A("points by colour", Pts(o.pb, Points(b, 1)) /\ Pts(o.pw, Points(b, 2)) /\ Pts(o.pe, Points(b, 0)), b)
     /\ A("stones by colour", Pts(o.sb, PP(Points(b, 1))) /\ Pts(o.sw, PP(Points(b, 2)))
                              /\ Pts(o.se, PP(Points(b, 0))), b)
     /\ A("empty points", Pts(o.ei, Points(b, 0)) /\ Pts(o.ec, Points(b, 0)), b)
     /\ A("pseudo legals", Pts(o.pl, Points(b, 0)) /\ Pts(o.plv, Points(b, 0)), b)
     /\ A("row-major vector", o.tv = b, b)
     /\ A("matrix", o.mx = Rows, Rows)
     /\ A("stone counts", o.ns = <<Cardinality(Points(b, 1)), Cardinality(Points(b, 2))>>, b)
     /\ A("text", o.ps = Picture(g, b) /\ o.ds = o.ps, Picture(g, b))
     /\ A("size", o.sz = <<g.h, g.w>>, <<g.h, g.w>>)
     /\ Has(o, "rb") => A("rebuilt board", o.rb = b /\ o.req, b)

HistObs(g, s, o) == A("history", o.hi = s.hist, s.hist)

SimObs(g, s, o) ==
  /\ A("simulated play", \A x \in SetOf(o.sm) : x[2] = x[3] /\ x[5] = 1, "the played board")
  /\ A("will_capture", \A x \in SetOf(o.sm) :
        (x[4] = 1) = (\E q \in 1..g.n : s.b[q] = Opp(s.t) /\ x[3][q] # Opp(s.t)), "captures")
  /\ A("queries change nothing", o.sn = o.sn2, o.sn)
  /\ A("clones are independent", o.sb = o.sb2, o.sb)

EyeObs(g, s, o) ==
  LET Ey(c) == {p \in 1..g.n : Eye(g, s.b, p, c)}
  IN
  \A Es \in {[c \in Colors |-> Ey(c)]} :
  \A M \in {Es[s.t]} :
     /\ A("black eyes", SetOf(o.eb) = Es[Black], Es[Black])
     /\ A("white eyes", SetOf(o.ew) = Es[White], Es[White])
     /\ A("fill-eye alone", \A p \in 1..g.n :
            o.f8[p] = (IF s.b[p] # Empty THEN OCCUPIED ELSE IF p \in M THEN FILLEYE ELSE OK), M)
     /\ A("fill-eye with ko and suicide", \A p \in 1..g.n :
            o.f13[p] = (IF o.k5[p] # OK THEN o.k5[p] ELSE IF p \in M THEN FILLEYE ELSE OK), M)
     /\ A("fill-eye by the rules", \A p \in 1..g.n :
            IF ~ Bit(s.ill, 3) \/ p \notin M THEN o.cp[p] # FILLEYE
            ELSE (o.cn[p] = OK) => (o.cp[p] = FILLEYE), M)

GeomObs(g, s, o) ==
  LET b == s.b
      PP(S) == {<<p, b[p]>> : p \in S}
      Sets(q) == {SetOf(x) : x \in SetOf(q)}
      SameSets(q, Ss) == Len(q) = Cardinality(Ss) /\ Sets(q) = Ss /\ \A x \in SetOf(q) : NoDup(x)
  IN /\ A("neighbours", \A x \in SetOf(o.q) :
          \A nb \in {g.nb[x[1]]} :
          \A S \in {{q \in nb : b[q] # Empty}} :
          \A F \in {nb \ S} :
          \A Gs \in {{Region(g, b, q) : q \in S}} :
             /\ NoDup(x[2]) /\ SetOf(x[2]) = PP(nb)
             /\ NoDup(x[3]) /\ SetOf(x[3]) = PP(S)
             /\ NoDup(x[4]) /\ SetOf(x[4]) = PP(S)
             /\ NoDup(x[5]) /\ SetOf(x[5]) = F
             /\ x[6] = (IF F = {} THEN 0 ELSE 1)
             /\ SameSets(x[7], Gs) /\ SameSets(x[8], Gs), b)
     /\ A("regions", \A x \in SetOf(o.rg) :
            NoDup(x[2]) /\ \A R \in {Region(g, b, x[1])} : SetOf(x[2]) = PP(R), b)
     /\ \A Pa \in {{PP(R) : R \in {Region(g, b, p) : p \in SetOf(o.ls)}}} :
           A("partition", SameSets(o.pa, Pa), b)

FloatObs(g, s, o) ==
  \A Fl \in {Floating(g, s.b, SetOf(o.eb) \cup SetOf(o.ew))} :
  LET Ss(q) == {SetOf(x) : x \in SetOf(q)}
  IN /\ A("floating groups", Len(o.fl) = Cardinality(Fl) /\ Ss(o.fl) = Fl, Fl)
     /\ Has(o, "ds") => A("dead groups are floating", Ss(o.ds) \subseteq Fl
                                   /\ Cardinality(Ss(o.ds)) = Len(o.ds), Fl)
     /\ A("queries change nothing", o.sn = o.sn2, o.sn)

OverNow(s) == s.passes >= 2 \/ s.res # NoRes

(* C28: what the search interface shows.  A pass is 0. *)
SearchObs(g, s, o) ==
  LET x == [b |-> s.b, turn |-> s.t, prev |-> s.prev, past |-> s.past]
      Offered == Offers(g, s.ill, x)
      out == Outcome([res |-> s.res, passes |-> s.passes], o.so)
  IN /\ A("player to move", o.pt = s.t, s.t)
     /\ A("final", o.fi = OverNow(s), OverNow(s))
     /\ ~ OverNow(s) => A("moves offered", NoDup(o.lm) /\ SetOf(o.lm) = Offered, Offered)
     /\ OverNow(s) => A("moves offered at the end", NoDup(o.lm) /\ SetOf(o.lm) \subseteq Offered, Offered)
     /\ OverNow(s) => A("winner", o.wn = (IF out[1] \in {0, 5} THEN 0 ELSE out[2]), out)

Obs(g, s, o) ==
  CASE Is({"C02", "C21"}) -> GroupsExact(g, s.b, o)
    [] Is({"C03"}) -> SuiObs(g, s, o)
    [] Is({"C04"}) -> KoObs(g, s, o)
    [] Is({"C05"}) -> SuperObs(g, s, o)
    [] Is({"C06"}) -> AgreeObs(g, s, o)
    [] Is({"C09"}) -> ScoreObs(g, s, o)
    [] Is({"C10"}) -> OutcomeObs(g, s, o)
    [] Is({"C11"}) -> HashExact(s.b, s.keys, o.hs)
    [] Is({"C12"}) -> ViewObs(g, s, o)
    [] Is({"C16"}) -> HistObs(g, s, o)
    [] Is({"C17"}) -> SimObs(g, s, o)
    [] Is({"C18"}) -> EyeObs(g, s, o)
    [] Is({"C20"}) -> GeomObs(g, s, o)
    [] Is({"C23"}) -> FloatObs(g, s, o)
    [] Is({"C28"}) -> SearchObs(g, s, o)
    [] OTHER -> TRUE

----------------------------------------------------------------------------
(* Steps of a game. *)

(* the state after e, when nothing the code hides changes *)
Seen(e) == [st EXCEPT !.b = e.b, !.t = e.t, !.p = e.p, !.ov = e.ov,
                      !.past = IF Is({"C05", "C28"}) THEN @ \cup {e.b} ELSE @]
Same(e) == e.b = st.b /\ e.t = st.t /\ e.p = st.p
SameBP(e) == e.b = st.b /\ e.p = st.p

Settle(s, e) ==     \* s: the state after e
  /\ st' = s
  /\ Is({"C07", "C10"}) => A("is_over", s.ov = OverNow(s), OverNow(s))
  /\ Has(e, "o") => Obs(G(s.h, s.w), s, e.o)

Start(e) ==
  LET res == IF Has(e, "pre") THEN e.pre ELSE NoRes
      s == [sid |-> e.sid, h |-> e.h, w |-> e.w, ill |-> e.ill, sco |-> e.sco, k |-> e.k,
            b |-> e.b, t |-> e.t, p |-> e.p, ov |-> e.ov, passes |-> 0, res |-> res,
            prev |-> <<>>, past |-> IF Is({"C05", "C28"}) THEN {e.b} ELSE {}, hist |-> <<>>,
            count |-> <<Cardinality(Points(e.b, Black)), Cardinality(Points(e.b, White))>>,
            keys |-> IF Has(e, "keys") THEN e.keys ELSE <<>>]
  IN /\ Is({"C07"}) =>
          LET t0 == IF Has(e, "fresh") THEN IF e.fresh = 1 /\ ~ Has(e, "first") THEN Black ELSE e.t
                    ELSE IF Has(e, "first") THEN FirstTurn([tg |-> e.tg, hc |-> e.hc, hp |-> <<>>]) ELSE e.t
          IN A("first turn", e.t = t0, t0)
     /\ Is({"C08"}) => A("no prisoners at the start", e.p = <<0, 0>>, <<0, 0>>)
     /\ (Is({"C11"}) /\ s.keys # <<>>) => KeysGood(s.keys)
     /\ Settle(s, e)

Gone(b, b2, c) == Cardinality({q \in DOMAIN b : b[q] = c /\ b2[q] # c})

(* an accepted stone play *)
Played(g, e, p) ==
  LET me == st.t
      foe == Gone(st.b, e.b, Opp(me))
      mine == Gone(st.b, e.b, me) + (IF e.b[p] = me THEN 0 ELSE 1)
      pr == IF me = Black THEN <<st.p[1] + foe, st.p[2] + mine>>
            ELSE <<st.p[1] + mine, st.p[2] + foe>>
  IN \A r \in {IF Is({"C01"}) THEN Place(g, st.b, p, me, SuicideOK(st.ill)) ELSE 0} :
     /\ Is({"C01"}) =>
          /\ A("a play on an empty point", st.b[p] = Empty, st.b)
          /\ (r.dead /\ ~ SuicideOK(st.ill)) \/ A("board after the play", e.b = r.b, r.b)
     /\ (Is({"C03"}) /\ ~ SuicideOK(st.ill)) =>
          /\ A("suicide accepted", ~ Suicidal(g, st.b, p, me), p)
          /\ NoDeadGroup(g, st.b) => A("group without liberty", NoDeadGroup(g, e.b), p)
     /\ (Is({"C04"}) /\ Bit(st.ill, 0)) => A("ko accepted", p \notin KoPts(g, st), p)
     /\ (Is({"C05"}) /\ Bit(st.ill, 1)) => A("repetition accepted", e.b \notin st.past, p)
     /\ Is({"C07"}) => A("turn after a play", e.t = Opp(me), Opp(me))
     /\ (Is({"C28"}) /\ e.m = "raw") =>
          A("a move of the search", e.b = Place(g, st.b, p, me, SuicideOK(st.ill)).b /\ e.t = Opp(me) /\ e.p = pr, p)
     /\ Is({"C08"}) => A("prisoners", e.p = pr, pr)

Rejected(g, e, p) ==
  /\ Is({"C03"}) => A("refused as suicide",
        (e.r = SUICIDE) => Bit(st.ill, 2) /\ st.b[p] = Empty /\ Suicidal(g, st.b, p, st.t), p)
  /\ (Is({"C04"}) /\ ~ Bit(st.ill, 1)) => A("refused as ko",
        (e.r = KO) => Bit(st.ill, 0) /\ p \in KoPts(g, st), p)
  /\ (Is({"C05"}) /\ Bit(st.ill, 1)) => A("refused as superko",
        (e.r = KO) => Place(g, st.b, p, st.t, SuicideOK(st.ill)).b \in st.past, p)
  /\ Is({"C06", "C07"}) => A("refused play changed the game", Same(e) /\ e.ov = st.ov, st.b)

PausedProtocol(e) ==
  (Is({"C06", "C07"}) /\ e.m = "try") =>
     A("paused", (e.r = PAUSED) = (st.passes >= 2), st.passes)

Counted(e, played) ==
  Is({"C08"}) =>
    LET b == e.b
        n(c) == Cardinality(Points(b, c))
        lost == <<e.p[2], e.p[1]>>
    IN A("stones set up + played - taken = on the board",
         \A c \in Colors : st.count[c] + (IF c = played THEN 1 ELSE 0) - lost[c] = n(c), st.count)

PlayEv(e) ==
  LET g == G(st.h, st.w)
      on == OnBoard(st.h, st.w, e.x, e.y)
      p == Pt(st.w, e.x, e.y)
  IN /\ PausedProtocol(e)
     /\ IF e.r = 0
        THEN /\ Played(g, e, p)
             /\ Counted(e, st.t)
             /\ Settle([Seen(e) EXCEPT !.passes = 0, !.prev = <<st.b>>,
                                       !.hist = IF Is({"C16"}) /\ ~ InSeq(st.b, @) THEN Append(@, st.b) ELSE @,
                                       !.count = [@ EXCEPT ![st.t] = @ + 1]], e)
        ELSE Rejected(g, e, p) /\ Settle(Seen(e), e)

PassEv(e) ==
  /\ PausedProtocol(e)
  /\ Counted(e, 0)
  /\ Is({"C08"}) => A("prisoners", e.p = st.p, st.p)
  /\ IF e.r = 0
     THEN /\ Is({"C07", "C28"}) => A("a pass hands over the turn and nothing else",
                              e.t = Opp(st.t) /\ SameBP(e), st.b)
          /\ Settle([Seen(e) EXCEPT !.passes = @ + 1, !.prev = <<>>], e)
     ELSE /\ Is({"C06", "C07"}) => A("refused pass", e.r = PAUSED /\ Same(e) /\ e.ov = st.ov, PAUSED)
          /\ Settle(Seen(e), e)

ResignEv(e) ==
  /\ PausedProtocol(e)
  /\ Is({"C07"}) => A("resignation keeps board, turn and prisoners", Same(e), st.b)
  /\ Is({"C08"}) => A("prisoners", e.p = st.p, st.p)
  /\ Settle(IF e.r = 0 THEN [Seen(e) EXCEPT !.res = <<2, e.c, 0>>] ELSE Seen(e), e)

ResumeEv(e) ==
  /\ Is({"C07"}) => A("resuming keeps board, turn and prisoners", Same(e), st.b)
  /\ Is({"C08"}) => A("prisoners", e.p = st.p, st.p)
  /\ Settle([Seen(e) EXCEPT !.passes = 0], e)

(* A pass of a paused game is refused even without a check, and changes nothing. *)
ThirdEv(e) ==
  /\ Is({"C07"}) => A("a third pass", e.r = 1 /\ Same(e), st.b)
  /\ Settle(Seen(e), e)

KomiEv(e) == Settle([Seen(e) EXCEPT !.k = e.k], e)

HandEv(e) ==
  LET S == {Pt(st.w, x[1], x[2]) : x \in SetOf(e.pts)}
  IN /\ Is({"C07"}) => A("white moves after a handicap", e.t = White, White)
     /\ Is({"C14"}) => A("handicap stones",
           e.b = [q \in DOMAIN st.b |-> IF q \in S THEN Black ELSE st.b[q]] /\ e.p = st.p
           /\ e.t = White /\ e.ov = st.ov, S)
     /\ Settle([Seen(e) EXCEPT !.count = [@ EXCEPT ![1] = @ + Cardinality(S)]], e)

----------------------------------------------------------------------------
(* Comparisons, direct edits, off-board attempts. *)

CmpEv(e) ==
  /\ \A same \in {e.sa = e.sb /\ e.a = e.b} :
       /\ A("equality", e.eq = same /\ e.qe = same, same)
       /\ A("equal boards hash equally", same => (e.he /\ e.ha = e.hb), e.a)
  /\ st' = st

EditSettle(e, b, ks) ==
  /\ Is({"C02", "C19"}) => GroupsExact(G(st'.h, st'.w), b, e.o)
  /\ Is({"C11", "C19"}) => HashExact(b, ks, e.o.hs)

EStart(e) ==
  /\ st' = [sid |-> e.sid, h |-> e.h, w |-> e.w, b |-> e.b, keys |-> e.keys]
  /\ Is({"C11"}) => KeysGood(e.keys)
  /\ EditSettle(e, e.b, e.keys)

(* The end of very many edits: the stones that should be there are e.b. *)
LStart(e) ==
  /\ st' = [sid |-> e.sid, h |-> e.h, w |-> e.w, b |-> e.b, keys |-> e.keys]
  /\ A("stones after many edits", e.c = e.b, e.b)
  /\ Is({"C19"}) => EditSettle(e, e.b, e.keys)

PushEv(e) ==
  LET p == Pt(st.w, e.x, e.y)
      b == [st.b EXCEPT ![p] = e.c]
  IN /\ st' = [st EXCEPT !.b = e.b]
     /\ Is({"C19"}) => A("placed stone", e.b = b, b)
     /\ EditSettle(e, e.b, st.keys)

(* Several stones of one colour placed on empty points by one call. *)
ManyEv(e) ==
  LET S == SetOf(e.ps)
      b == [q \in DOMAIN st.b |-> IF q \in S THEN e.c ELSE st.b[q]]
  IN /\ st' = [st EXCEPT !.b = e.b]
     /\ Is({"C19"}) => A("placed stones", e.b = b, b)
     /\ EditSettle(e, e.b, st.keys)

RmEv(e) ==
  LET S == SetOf(e.st)
      b == Remove(st.b, S)
  IN /\ st' = [st EXCEPT !.b = e.b]
     /\ Is({"C19"}) => /\ A("removed group is a group", S \in Groups(G(st.h, st.w), st.b), S)
                       /\ A("removed group", e.b = b, b)
     /\ EditSettle(e, e.b, st.keys)

OffEv(e) ==
  /\ A("refused", e.r # 0, "error or panic")
  /\ A("nothing changed", e.b = st.b /\ e.t = st.t /\ e.p = st.p /\ e.ov = st.ov, st.b)
  /\ st' = st

SizeEv(e) ==
  /\ IF e.h <= MaxSize /\ e.w <= MaxSize
     THEN A("size", e.r = 0 /\ e.gh = e.h /\ e.gw = e.w, "as asked")
     ELSE A("size", e.r # 0, "refused")
  /\ st' = st

----------------------------------------------------------------------------
(* Builder and records. *)

SetUpRight(e, c, komi) ==
  \A b0 \in {StartBoard(c)[1]} :
     /\ A("set-up stones", e.b0 = b0, b0)
     /\ A("turn", e.t0 = FirstTurn(c), FirstTurn(c))
     /\ A("fresh counts", e.p0 = <<0, 0>> /\ e.nh0 = 0, 0)
     /\ A("komi", e.kk0 = komi, komi)
     /\ A("result", e.oc0 = c.pre /\ e.ov0 = (c.pre # NoRes), c.pre)

AsPlayed(e) ==       \* the built or loaded game is the one played by hand
  /\ A("size", e.gh = e.h /\ e.gw = e.w, <<e.h, e.w>>)
  /\ A("moves in order", e.b = e.b1 /\ e.t = e.t1 /\ e.p = e.p1, <<e.b1, e.t1, e.p1>>)
  /\ A("komi after the moves", e.kk = e.kk1, e.kk1)
  /\ A("state after the moves", e.ov = e.ov1 /\ e.oc = e.oc1 /\ e.nh = e.nh1, <<e.ov1, e.oc1>>)
  /\ A("legality rules", e.cp = e.cf, e.cf)
  /\ A("score rules", e.so = e.sb, e.sb)

BuildEv(e) ==
  /\ st' = st
  /\ A("built", e.r = 0, "a game")
  /\ \A c \in {AskedBy(e.calls)} :
       /\ Assert(c.ill = e.ill /\ c.sco = e.sco /\ c.h = e.h /\ c.w = e.w, "the recorder disagrees on the options")
       /\ SetUpRight(e, c, AskedKomi(c))
  /\ AsPlayed(e)

(* A handicap on a game under way: the stones, the turn, and nothing else.  *)
(* po: whether one pass pauses the game, 2 if it is over already.            *)
GivenEv(e) ==
  LET S == {Pt(e.w, x[1], x[2]) : x \in SetOf(e.pts)}
  IN /\ st' = st
     /\ A("accepted", e.r = 0, "no panic")
     /\ A("handicap stones", e.b1 = [q \in DOMAIN e.b0 |-> IF q \in S THEN Black ELSE e.b0[q]], S)
     /\ A("turn", e.t1 = White, White)
     /\ A("nothing else", /\ e.p1 = e.p0 /\ e.ov1 = e.ov0 /\ e.hi1 = e.hi0
                         /\ IF e.oc0[1] \in {1, 5} THEN e.oc1[1] \in {1, 5} ELSE e.oc1 = e.oc0   \* a pause is scored
                         /\ e.kk1 = e.kk0 /\ e.gh1 = e.h /\ e.gw1 = e.w, <<e.p0, e.ov0, e.oc0, e.hi0, e.kk0>>)
     /\ A("the passes before", e.po1 = e.po0, e.po0)
     /\ A("score rules", e.so = e.sb, e.sb)

Record(e) == [h |-> e.h, w |-> e.w, ru |-> e.ru, km |-> e.km, ha |-> e.ha, ab |-> e.ab, aw |-> e.aw,
              pl |-> e.pl, pre |-> e.pre, gm |-> e.gm, mv |-> e.mv, late |-> e.late]

Placed(e, c) ==     \* the points the record puts stones of colour c on
  {<<x[1], x[2]>> : x \in SetOf(IF c = Black THEN e.ab ELSE e.aw)}
  \cup {<<e.mv[i][3], e.mv[i][4]>> : i \in {j \in DOMAIN e.mv : e.mv[j][1] = c /\ e.mv[j][2] = 0}}

LoadEv(e) ==
  /\ st' = st
  /\ Is({"C15"}) =>
       /\ A("loaded", e.r = 0, "a game")
       /\ SetUpRight(e, ConfigOf(Record(e)), RecKomi(e))
       /\ AsPlayed(e)
  /\ Is({"C22"}) =>
       \A v \in {Representable(Record(e), G)} :
          /\ A("a game or an error", e.r \in {0, 1}, v)
          /\ A("refused", (v = "no") => (e.r = 1), "an error")
          /\ A("accepted", (v = "yes") => (e.r = 0), "a game")
          /\ (e.r = 0) => A("only stones of the record",
               /\ e.gh = e.h /\ e.gw = e.w
               /\ \A p \in DOMAIN e.b : (e.b[p] # Empty) =>
                    <<(p - 1) \div e.w, (p - 1) % e.w>> \in Placed(e, e.b[p]), e.b)

TextEv(e) == st' = st /\ A("a game or an error", e.r \in {0, 1}, "no panic")

----------------------------------------------------------------------------
(* C24: a script, stepped by the specification alone, and what the routes   *)
(* through the code make of it.                                             *)

RStart(e) ==
  st' = [sid |-> e.sid, h |-> e.h, w |-> e.w, ill |-> e.ill, sco |-> e.sco, k |-> e.k,
         s |-> InitGame(e.b, e.t), ref |-> <<>>]

RAct(e) ==
  \A s \in {Act(G(st.h, st.w), st.ill, st.s, e.m)} :
     /\ A("accepted action", Allowed(G(st.h, st.w), st.ill, st.s, e.m), "a refusal")
     /\ st' = [st EXCEPT !.s = s, !.ref = <<>>, !.k = IF e.m[1] = 4 THEN e.m[2] ELSE @]

RView(e) ==
  LET g == G(st.h, st.w)
      s == st.s
      asked == [i \in DOMAIN e.cs |-> VerdictBy(g, st.ill, s, e.cs[i][1], e.cs[i][2]) = OK]
      said == [i \in DOMAIN e.cs |-> e.cs[i][3] = OK]
      hidden == <<e.cs, e.gd, e.hs>>
  IN /\ A("size", e.sz = <<st.h, st.w>>, <<st.h, st.w>>)
     /\ A("board", e.b = s.b, s.b)
     /\ A("turn", e.t = s.turn, s.turn)
     /\ A("prisoners", e.p = s.pris, s.pris)
     /\ A("is_over", e.ov = Over(s), Over(s))
     /\ A("komi", e.kk = st.k, st.k)
     /\ A("score", e.so = Score4(g, s.b, s.pris, st.k, st.sco), Score4(g, s.b, s.pris, st.k, st.sco))
     /\ A("outcome", e.oc = Outcome(s, e.so), Outcome(s, e.so))
     /\ A("history", e.hi = s.hist, s.hist)
     /\ A("legal points", asked = said, asked)
     /\ A("the same by every route", (e.n # "live" /\ st.ref # <<>>) => hidden = st.ref[1], st.ref)
     /\ st' = [st EXCEPT !.ref = << hidden >>]

(* C25: a game and its image. *)
(* The same start and attempts, over and over in one process. *)
AgainEv(e) ==
  /\ st' = st
  /\ A("the same game again", e.na = e.nb /\ e.a = e.b, <<e.k, e.at, e.a>>)

MirrorEv(e) ==
  /\ st' = st
  /\ A("same answer", e.ra = e.rb, e.ra)
  /\ \A sg \in {Sigma(e.h, e.w, e.y)} :
     LET v == e.v = 1
         a == e.A
         b == e.B
         n == e.h * e.w
         Img(S) == ImageSet(sg, SetOf(S))
         Board(x) == TLCEval(ImageBoard(sg, v, x))
         Codes(q) == [i \in DOMAIN q |-> [p \in 1..n |-> q[i][p]]]
     IN /\ A("board", b.b = Board(a.b), Board(a.b))
        /\ A("turn", b.t = SwapC(v, a.t), a.t)
        /\ A("prisoners", b.p = Swap2(v, a.p), a.p)
        /\ A("is_over", b.ov = a.ov, a.ov)
        /\ A("outcome", b.oc = ImageRes(v, a.oc), a.oc)
        /\ A("verdicts", \A i \in DOMAIN a.cs : \A p \in 1..n : b.cs[i][sg[p]] = a.cs[i][p], a.cs)
        /\ A("legals", SetOf(b.lg) = Img(a.lg), a.lg)
        /\ A("captures", SetOf(b.wc) = Img(a.wc), a.wc)
        /\ A("territory", SetOf(IF v THEN b.tw ELSE b.tb) = Img(a.tb) /\ SetOf(IF v THEN b.tb ELSE b.tw) = Img(a.tw), <<a.tb, a.tw>>)
        /\ A("scores", \A i \in DOMAIN a.sc : b.sc[i] = Swap2(v, a.sc[i]), a.sc)
        /\ A("groups", {<<x[1], x[2], SetOf(x[3])>> : x \in SetOf(b.ch)}
                       = {<<SwapC(v, x[1]), x[2], Img(x[3])>> : x \in SetOf(a.ch)} /\ Len(a.ch) = Len(b.ch), a.ch)
        /\ A("history", Len(a.hi) = Len(b.hi) /\ \A i \in DOMAIN a.hi : b.hi[i] = Board(a.hi[i]), a.hi)

(* C26: liberty sets and stores of groups. *)
SetsIs(e) ==
  LET S == st.m[e.i].l
  IN /\ A("members", NoDup(e.l) /\ SetOf(e.l) = S, S)
     /\ A("count", e.n = Cardinality(S), Cardinality(S))
     /\ A("atari and dead", e.at = (Cardinality(S) = 1) /\ e.de = (S = {}), S)
     /\ A("membership", \A x \in SetOf(e.q) : x[2] = (x[1] \in S), S)
     /\ A("group", e.g = <<st.m[e.i].c, st.m[e.i].o, st.m[e.i].k>>, st.m[e.i])
     /\ A("ring", e.st = st.m[e.i].r, st.m[e.i].r)

GStart(e) == st' = [sid |-> e.sid, m |-> <<>>]
GPut(e) ==        \* a new group
  /\ A("free number", Free(st.m, e.i), DOMAIN st.m)
  /\ st' = [st EXCEPT !.m = PutAt(st.m, e.i, [c |-> e.c, o |-> e.o, k |-> e.k, l |-> SetOf(e.s), r |-> e.r])]
GDrop(e) == st' = [st EXCEPT !.m = Without(st.m, e.i)]
GList(e) ==
  /\ A("groups", NoDup(e.ix) /\ SetOf(e.ix) = DOMAIN st.m, DOMAIN st.m)
  /\ A("groups by number", \A j \in DOMAIN e.ix :
        e.gs[j] = <<st.m[e.ix[j]].c, st.m[e.ix[j]].o, Cardinality(st.m[e.ix[j]].l)>>, st.m)
  /\ A("groups in order", e.it = e.gs, e.gs)
  /\ st' = st
GEdit(e) ==       \* + one, - one, | several
  LET S == SetOf(e.s)
      L == st.m[e.i].l
      N == IF e.op = "-" THEN L \ S ELSE L \cup S
  IN st' = [st EXCEPT !.m = PutAt(st.m, e.i, [st.m[e.i] EXCEPT !.l = N])]
GShow(e) == SetsIs(e) /\ st' = st

(* C27: names and conversions. *)
RuleEv(e) ==
  /\ st' = st
  /\ \A x \in {NamedRule(e.n)} :
       IF x = <<>> THEN A("unknown rule", e.r = 1, "an error")
       ELSE A("rule", e.r = 0 /\ <<e.k, e.ill, e.sco>> = x, x)
SizesEv(e) ==
  /\ st' = st
  /\ \A x \in {NamedSize(e.n)} :
       A("named size", IF x = <<>> THEN e.r # 0 ELSE e.r = 0 /\ e.z = x /\ e.y = x, x)
CustomEv(e) == /\ st' = st
               /\ A("custom size", IF e.h < 256 /\ e.w < 256 THEN e.r = 0 /\ e.z = <<e.h, e.w>> ELSE e.r # 0, <<e.h, e.w>>)
FreshEv(e) ==     \* a new game by its rule and size
  /\ st' = st
  /\ A("size", e.z = <<e.h, e.w>>, <<e.h, e.w>>)
  /\ A("empty", e.b = [i \in 1..(e.h * e.w) |-> 0] /\ e.t = Black /\ e.p = <<0, 0>> /\ e.ov = FALSE, "an empty board")
  /\ \A x \in {NamedRule(e.n)} :
       /\ A("komi", e.kk = x[1], x)
       /\ A("scores", e.so = (IF Bit(x[3], 1) THEN <<0, x[1]>> ELSE <<0, 0>>), x)
       /\ A("everything is legal", e.nl = e.h * e.w, e.h * e.w)
       /\ A("first moves", e.oc = NoRes /\ e.nh = 0, NoRes)
BFreshEv(e) ==    \* a new board
  LET n == e.h * e.w
  IN /\ st' = st
     /\ A("size", e.z = <<e.h, e.w>>, <<e.h, e.w>>)
     /\ A("empty", e.b = [i \in 1..n |-> 0] /\ e.ne = <<n, n>> /\ e.ns = <<0, 0>> /\ e.ng = 0, n)
     /\ A("hash and equality", e.zh /\ e.eq, TRUE)
ColorsEv(e) ==
  /\ st' = st
  /\ A("opponent", e.no = <<White, Black>>, <<White, Black>>)
  /\ A("names", e.nm = <<ColorName(Black), ColorName(White)>>, "Black, White")
  /\ A("numbers", e.nu = <<1, 2>>, <<1, 2>>)
  /\ A("colour of a point", e.un = <<1, 2>> /\ e.ue # 0, "black, white, refused")
  /\ A("stone of a point", e.ts = <<1, 2>> /\ e.te # 0, "black, white, refused")
  /\ A("coordinates survive", e.co = e.cx, e.co)
  /\ A("winner", \A x \in SetOf(e.wn) : x[3] = (IF x[1] = 5 THEN 0 ELSE x[2]), e.wn)
GridEv(e) ==
  LET n == e.h * e.w
      RCs == [p \in 1..n |-> <<(p - 1) \div e.w, (p - 1) % e.w>>]
  IN /\ st' = st
     /\ A("index", e.ix = [p \in 1..n |-> p - 1], "row major")
     /\ A("coordinate", e.rc = RCs /\ e.id = RCs, RCs)
     /\ A("neighbours", \A p \in 1..n : NoDup(e.nb[p]) /\ SetOf(e.nb[p]) = Beside(e.h, e.w, RCs[p][1], RCs[p][2]), RCs)
     /\ A("neighbours unchecked", \A p \in 1..n : NoDup(e.nu[p]) /\ SetOf(e.nu[p]) = Beside(e.h, e.w, RCs[p][1], RCs[p][2]), RCs)
     /\ A("diagonals", \A p \in 1..n : NoDup(e.dg[p]) /\ SetOf(e.dg[p]) = Diagonal(e.h, e.w, RCs[p][1], RCs[p][2]), RCs)
     /\ A("on the board", \A x \in SetOf(e.va) : x[3] = OnBoard(e.h, e.w, x[1], x[2]), e.va)

----------------------------------------------------------------------------
Step(e) ==
  /\ A("panic", ~ Has(e, "pn"), IF Has(e, "pn") THEN e.pn ELSE "")
  /\ CASE e.e = "start" -> Start(e)
       [] e.e = "play" -> PlayEv(e)
       [] e.e = "pass" -> PassEv(e)
       [] e.e = "resign" -> ResignEv(e)
       [] e.e = "resume" -> ResumeEv(e)
       [] e.e = "third" -> ThirdEv(e)
       [] e.e = "komi" -> KomiEv(e)
       [] e.e = "hand" -> HandEv(e)
       [] e.e = "cmp" -> CmpEv(e)
       [] e.e = "estart" -> EStart(e)
       [] e.e = "lstart" -> LStart(e)
       [] e.e = "push" -> PushEv(e)
       [] e.e = "many" -> ManyEv(e)
       [] e.e = "rm" -> RmEv(e)
       [] e.e = "off" -> OffEv(e)
       [] e.e = "size" -> SizeEv(e)
       [] e.e = "build" -> BuildEv(e)
       [] e.e = "given" -> GivenEv(e)
       [] e.e = "load" -> LoadEv(e)
       [] e.e = "text" -> TextEv(e)
       [] e.e = "rstart" -> RStart(e)
       [] e.e = "ract" -> RAct(e)
       [] e.e = "rview" -> RView(e)
       [] e.e = "mirror" -> MirrorEv(e)
       [] e.e = "again" -> AgainEv(e)
       [] e.e = "gstart" -> GStart(e)
       [] e.e = "gput" -> GPut(e)
       [] e.e = "gdrop" -> GDrop(e)
       [] e.e = "glist" -> GList(e)
       [] e.e = "gedit" -> GEdit(e)
       [] e.e = "gshow" -> GShow(e)
       [] e.e = "rule" -> RuleEv(e)
       [] e.e = "sizes" -> SizesEv(e)
       [] e.e = "custom" -> CustomEv(e)
       [] e.e = "fresh" -> FreshEv(e)
       [] e.e = "bfresh" -> BFreshEv(e)
       [] e.e = "colors" -> ColorsEv(e)
       [] e.e = "grid" -> GridEv(e)
       [] OTHER -> A("known event", FALSE, "")

Init == l = 0 /\ st = [sid |-> ""]
Next == /\ l < Len(Log)
        /\ Step(Log[l + 1])
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars

Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(Log)>>)
=============================================================================
