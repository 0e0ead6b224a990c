"""What each check explores, per tier."""

INV = dict(
    C01=("EveryGroupLives", "PlaceIsLocal PlaceByLiberties Conservation"),
    C02=("EveryGroupLives", "PlaceIsLocal PlaceByLiberties"),
    C03=("EveryGroupLives SuicideMeansDead", "PlaceByLiberties"),
    C04=("KoAgrees KoOnePoint PassLiftsKo", ""),
    C06=("LegalsConsistent MoreRulesFewerMoves", ""),
    C07=("PassesBounded", "PassKeepsBoard TurnProtocol PassCount PausedIsStill"),
    C08=("EveryGroupLives", "Conservation PassKeepsBoard"),
    C09=("TerritoryExact AreaSum", ""),
    C10=("OutcomeIffOver", "ResignStays"),
    C11=("EveryGroupLives", "Conservation"),
    C12=("EveryGroupLives", ""),
    C14=("PassesBounded", "TurnProtocol PausedIsStill"),
    C15=("PassesBounded", "TurnProtocol PlaceIsLocal"),
    C17=("LegalsConsistent SuicideMeansDead", "PlaceIsLocal"),
    C18=("EyeSound EyeOneColor", ""),
    C19=("EveryGroupLives", "PlaceIsLocal"),
    C20=("TerritoryExact", ""),
    C21=("EveryGroupLives KoAgrees PassesBounded", "Conservation"),
    C23=("EyeSound EyeOneColor", ""),
    C28=("OffersRight LegalsConsistent", ""),
)
SUPER = dict(
    C05=("NewIsNeverKo SuperCoversKo SuperShortcut", "NoRepetition"),
    C16=("HistoryDistinct HistoryIsPast", "HistoryGrows HistoryComplete"),
    C17=("NewIsNeverKo SuperCoversKo", ""),
)

GRAPH = "C01 C02 C03 C04 C06 C07 C08 C09 C11 C12 C14 C15 C17 C18 C19 C20 C21 C23 C28".split()
GAMES = "C01 C05 C06 C07 C08 C09 C10 C11 C14 C15 C16 C17 C24".split()
BOARDS = "C02 C09 C11 C12 C18 C19 C20 C23".split()
STORE = "C01 C02 C11 C19 C21 C26".split()

ASSUMPTIONS = [
    "The specification in /verif/spec states the property correctly (Goban.tla, GoGame.tla, Record.tla).",
    "State graphs are complete only for the small boards named in the coverage; larger boards are sampled by recorded games.",
    "TLC, the Java runtime, rustc and the harness in /verif/harness are trusted.",
]


def mc(module, const, inv, w=2, view="View", **k):
    a, b = inv
    return dict(module=module, const=const, inv=a.split(), prop=b.split(), w=w, view=view, **k)


# How much of the real code's behaviour one recorded trace holds; about 15 s of TLC each.
COST = dict(C03=400000, C05=2000000, C06=2000000, C11=900000, C12=2000000, C14=1500000, C15=1500000,
            C20=600000, C22=2000000, C23=300000, C24=5000000, C25=1200000, C26=1000000, C27=600000, C28=2000000)


def configs(mode, h, w, rule, sco, k, depth, rich, wk, **x):
    return dict(module="Configs", cmd="configs", wk=wk, inv="Agree WholeRange", args=[h, w, rule, sco, k, "FILE", "SEED"],
                const=dict(MODE='"%s"' % mode, H=h, W=w, RULE=rule, SCO=sco, KOMI=k, DEPTH=depth, RICH=rich), **x)


def plan(pid, tier):
    deep = tier == "thorough"
    p = dict(mc=[], graph=[], games=[], trace=[], extra=[])
    if pid in INV:
        for rule in (5, 1):
            p["mc"].append(mc("MCGame", dict(H=2, W=3, RULE=rule, SUPER="FALSE", RESIGN="TRUE", MAXPLAYS=0), INV[pid]))
        if deep:
            p["mc"].append(mc("MCGame", dict(H=2, W=4, RULE=5, SUPER="FALSE", RESIGN="FALSE", MAXPLAYS=0), INV[pid], w=4, heap="6g"))
            p["mc"].append(mc("MCGame", dict(H=3, W=3, RULE=5, SUPER="FALSE", RESIGN="FALSE", MAXPLAYS=0), INV[pid], w=8, heap="8g"))
    if pid in SUPER:
        p["mc"].append(mc("MCGame", dict(H=2, W=2, RULE=7, SUPER="TRUE", RESIGN="FALSE", MAXPLAYS=6), SUPER[pid]))
        p["mc"].append(mc("MCGame", dict(H=1, W=3, RULE=3, SUPER="TRUE", RESIGN="FALSE", MAXPLAYS=6), SUPER[pid]))
        if pid == "C16":
            p["mc"].append(mc("MCGame", dict(H=1, W=3, RULE=0, SUPER="TRUE", RESIGN="FALSE", MAXPLAYS=6), SUPER[pid]))
        if deep:
            p["mc"].append(mc("MCGame", dict(H=2, W=2, RULE=3, SUPER="TRUE", RESIGN="FALSE", MAXPLAYS=8), SUPER[pid], w=4, heap="6g"))
            p["mc"].append(mc("MCGame", dict(H=1, W=4, RULE=7, SUPER="TRUE", RESIGN="FALSE", MAXPLAYS=8), SUPER[pid], w=4, heap="6g"))
    if pid in GRAPH:
        g = lambda h, w, rule, wk, steps: p["graph"].append(dict(h=h, w=w, rule=rule, wk=wk, steps=steps, htime=2000 if deep else 200))
        g(3, 3, 5, 4, 80000)
        g(2, 4, 5 if pid == "C15" else 1, 2, 20000)
        if pid != "C15":
            g(1, 5, 1, 1, 20000)
        if deep:
            g(3, 3, 0, 4, 200000)
            g(5, 2, 5, 8, 200000)
            g(7, 1, 1, 2, 50000)
    if pid in GAMES:
        def q(h, w, rule, sco, k, depth, wk=2, **x):
            if pid == "C15" and (rule, sco) != (7, 3):
                return
            p["games"].append(dict(h=h, w=w, rule=rule, sco=sco, k=k, depth=depth, wk=wk, htime=2000 if deep else 200, **x))
        q(2, 2, 7, 3, 2, 9)
        q(1, 3, 7, 3, 1, 7, resign="TRUE")
        q(2, 3, 7, 6, 26, 7, wk=4)
        q(2, 2, 2, 7, 0, 8)
        q(1, 4, 3, 1, 0, 9)
        q(3, 3, 7, 3, 2, 60, wk=2, sim=40)
        if deep:
            q(2, 2, 7, 3, 2, 13, wk=8, heap="8g")
            q(1, 4, 7, 6, 2, 12, wk=8, heap="8g")
            q(2, 3, 3, 3, 14, 8, wk=8, heap="8g")
            q(1, 3, 6, 7, 5, 9, wk=4, resign="TRUE")
            q(3, 3, 7, 3, 2, 90, wk=4, sim=400)
            q(3, 4, 3, 7, 30, 120, wk=4, sim=100)
            q(4, 4, 7, 6, 26, 150, wk=4, sim=40)
    if pid in ("C13", "C14"):
        c = lambda h, w, rule, sco, k, depth, rich, wk=2, **x: p["extra"].append(configs("build", h, w, rule, sco, k, depth, rich, wk, **x))
        c(2, 3, 7, 3, 26, 0, "TRUE")
        c(2, 2, 5, 6, 2, 3, "FALSE")
        c(1, 3, 2, 7, 5, 2, "TRUE")
        if deep:
            c(2, 3, 7, 6, 30, 2, "TRUE", wk=8, heap="8g")
            c(3, 3, 5, 3, 26, 1, "TRUE", wk=8, heap="8g")
            c(2, 2, 7, 3, 0, 6, "FALSE", wk=8, heap="8g")
    if pid == "C14":
        cl = lambda h, w, depth, full, wk=2, **x: p["extra"].append(dict(module="Calls", cmd="configs", wk=wk, inv="Folded Commute",
            args=[h, w, 7, 3, 30, "FILE", "SEED"], const=dict(H=h, W=w, DEPTH=depth, FULL=full), **x))
        cl(2, 2, 3, "FALSE")
        if deep:
            cl(2, 3, 4, "TRUE", wk=8, heap="8g")
    if pid in ("C15", "C22"):
        c = lambda h, w, depth, rich, wk=2, **x: p["extra"].append(configs("load", h, w, 7, 3, 30, depth, rich, wk, **x))
        c(2, 3, 0, "TRUE")
        c(2, 2, 3, "FALSE")
        c(1, 3, 1, "TRUE")
        if deep:
            c(2, 3, 2, "TRUE", wk=8, heap="8g")
            c(3, 3, 1, "TRUE", wk=8, heap="8g")
            c(2, 2, 6, "FALSE", wk=8, heap="8g")
    if pid in STORE:
        st = lambda h, wd, sui, edits, **k: p["mc"].append(mc("GroupStore", dict(H=h, W=wd, SUICIDE_OK=sui, EDITS=edits),
            ("RingsRight GroupsRight LibertiesRight HashRight SlotsBounded", "StepRight"), view="Fresh", **k))
        st(2, 3, "TRUE", "FALSE")
        st(1, 5, "FALSE", "TRUE")
        if deep:
            st(2, 3, "TRUE", "TRUE", w=4)
            st(2, 4, "TRUE", "FALSE", w=8, heap="8g")
            st(3, 3, "FALSE", "FALSE", w=8, heap="8g")
    if pid in BOARDS:
        def b(h, w, wk=2, **x):
            rule = 5 if pid in ("C18", "C23") else 1
            p["extra"].append(dict(module="Graph", spec="SpecAll", invs="BoardLine", cmd="boards", args=[h, w, "FILE", "SEED"],
                                   const=dict(H=h, W=w, RULE=rule), wk=wk, htime=2000 if deep else 200, **x))
        b(3, 3)
        b(2, 4)
        b(1, 6)
        if deep:
            b(2, 5, 4)
            b(3, 4, 8, heap="10g")
    if pid == "C24":
        sc = lambda h, wd, rule, sup, n, **k: p["mc"].append(mc("MCScript", dict(H=h, W=wd, RULE=rule, SUPER=sup, RESIGN="TRUE", MAXPLAYS=0, LEN=n),
            (("FromScript", "ScriptAllowed RefusedIsNothing")), view="SView", spec="SSpec", **k))
        sc(2, 2, 7, "TRUE", 5)
        sc(1, 3, 5, "TRUE", 6)
        if deep:
            sc(2, 2, 7, "TRUE", 8, w=8, heap="8g")
            sc(2, 3, 3, "TRUE", 6, w=8, heap="8g")
    if pid == "C25":
        sy = lambda h, wd, rule, sup, n, **k: p["mc"].append(mc("MCSym", dict(H=h, W=wd, RULE=rule, SUPER=sup, RESIGN="FALSE", MAXPLAYS=n),
            ("Eight Permutes SymRules SymScore", ""), **k))
        sy(2, 3, 1, "FALSE", 0, w=4)
        sy(2, 2, 7, "TRUE", 5)
        sy(1, 4, 5, "FALSE", 0)
        if deep:
            sy(2, 3, 5, "FALSE", 0, w=8)
            sy(2, 2, 3, "TRUE", 7, w=8, heap="8g")
            sy(2, 4, 1, "FALSE", 0, w=8, heap="8g")
        im = lambda h, wd, k, inv, wk=2, **x: p["extra"].append(dict(module="Images", cmd="images", wk=wk, inv=inv, args=[h, wd, "FILE", "SEED"],
            const=dict(H=h, W=wd, K=k, R="SEED"), htime=2000 if deep else 200, **x))
        im(3, 3, 1, "")
        im(2, 3, 1, "Right")
        im(2, 4, 1, "Right" if deep else "", wk=4 if deep else 2)
        im(1, 5, 1, "Right")
        im(3, 4, 4 if not deep else 1, "", wk=4 if not deep else 8)
        if deep:
            im(2, 5, 1, "", wk=4)
    if pid == "C27":
        p["mc"].append(mc("MCSym", dict(H=2, W=2, RULE=0, SUPER="FALSE", RESIGN="FALSE", MAXPLAYS=0), ("Eight Permutes", "")))
    if pid == "C26":
        se = lambda n, bits, gs, **k: p["mc"].append(mc("Sets", dict(N=n, BITS=bits, GS=gs), ("SameGroups SameSets SameCount SameAny", ""), view=None, **k))
        se(5, 2, 2)
        se(7, 3, 2)
        if deep:
            se(4, 2, 3, w=4)
            se(4, 1, 3, w=4)
            se(9, 4, 2, w=8)
    n, cost = (24, 3 * COST.get(pid, 3000000)) if deep else (4, COST.get(pid, 3000000))
    for i in range(n):
        p["trace"].append(dict(cost=cost, htime=1500 if deep else 300))
    if pid in ("C21", "C22"):
        p["checked"] = True
        for m in p["trace"][1::2] + p["graph"][1:2]:
            m["profile"] = "checked"
    return p
