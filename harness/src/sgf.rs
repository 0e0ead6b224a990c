//! Game records: structured records, their SGF text, and what the library makes of it.
use crate::drive::*;
use crate::gen::{position, size, B};
use crate::misc::{continuation, direct, result_json};
use crate::obs::*;
use crate::util::{arr, jstr, Rng};
use goban::pieces::stones::Stone;
use goban::rules::game::Game;
use goban::rules::{EndGame, Move};

/// column, row (0-based) of a coordinate text; beyond 25 capitals are used.
fn ch(v: usize) -> char {
    if v < 26 {
        (b'a' + v as u8) as char
    } else {
        (b'A' + (v - 26) as u8) as char
    }
}
fn co(x: usize, y: usize) -> String {
    // SGF gives the column first
    format!("{}{}", ch(y), ch(x))
}

fn noise(r: &mut Rng, root: bool) -> String {
    let mut s = String::new();
    let mut k = r.below(3);
    if r.chance(40) {
        k = 0;
    }
    for _ in 0..k {
        s += match r.below(if root { 20 } else { 14 }) {
            0 => "C[a comment]",
            1 => "C[tricky (;B[aa\\];W[bb\\]) text]",
            2 => "TR[aa][bb]",
            3 => "SQ[ca]",
            4 => "LB[aa:1][ba:A]",
            5 => "BL[300]",
            6 => "WL[299]",
            7 => "OB[3]",
            8 => "N[node name]",
            9 => "\n",
            10 => "C[]",
            11 => "XX[unknown][values]",
            12 => "CR[aa]",
            13 => "GC[PL and AB AW in text]",
            14 => "PB[Black B]PW[White W]",
            15 => "DT[2020-01-01]",
            16 => "EV[SZ 5 KM 3]",
            17 => "GN[game]",
            18 => "CA[UTF-8]AP[x:1]ST[0]",
            _ => "TM[600]OT[byo]",
        };
    }
    s
}

pub struct Rec {
    pub h: usize,
    pub w: usize,
    /// 0 absent, 1 given
    pub sz: u8,
    pub ru: u8,
    pub run: &'static str,
    pub km: Option<i64>,
    pub ha: u32,
    pub ab: Vec<(usize, usize)>,
    pub aw: Vec<(usize, usize)>,
    pub pl: u8,
    pub re: [i64; 3],
    pub gm: u8,
    /// colour, 0 stone / 1 pass, row, column
    pub mv: Vec<(u8, u8, usize, usize)>,
    pub late: bool,
}

fn vals(r: &mut Rng, key: &str, v: &[(usize, usize)]) -> String {
    if v.is_empty() {
        return String::new();
    }
    let mut s = String::new();
    for (i, p) in v.iter().enumerate() {
        if i == 0 || r.chance(20) {
            s += key;
        }
        s += &format!("[{}]", co(p.0, p.1));
    }
    s
}

pub fn text(r: &mut Rng, c: &Rec) -> String {
    let mut root: Vec<String> = vec![];
    if c.gm > 0 {
        root.push(format!("GM[{}]", c.gm));
    }
    if r.chance(50) {
        root.push("FF[4]".into());
    }
    if c.sz > 0 {
        root.push(if c.h == c.w && r.chance(70) {
            format!("SZ[{}]", c.h)
        } else {
            format!("SZ[{}:{}]", c.w, c.h)
        });
    }
    if c.ru > 0 {
        root.push(format!("RU[{}]", c.run));
    }
    if let Some(k) = c.km {
        let v = k as f32 / 4.0;
        root.push(if k % 4 == 0 && r.chance(50) {
            format!("KM[{v:.1}]")
        } else {
            format!("KM[{v}]")
        });
    }
    if c.ha > 0 {
        root.push(format!("HA[{}]", c.ha));
    }
    let t = vals(r, "AB", &c.ab);
    root.push(t);
    let t = vals(r, "AW", &c.aw);
    root.push(t);
    match c.pl {
        1 => root.push("PL[B]".into()),
        2 => root.push("PL[W]".into()),
        3 => root.push("PL[X]".into()),
        _ => {}
    }
    let m = c.re[2] as f32 / 4.0;
    let p = if c.re[1] == 1 { "B" } else { "W" };
    match c.re[0] {
        1 => root.push(format!("RE[{p}+{m}]")),
        2 => root.push(format!(
            "RE[{p}+{}]",
            if r.chance(50) { "R" } else { "Resign" }
        )),
        3 => root.push(format!(
            "RE[{p}+{}]",
            if r.chance(50) { "T" } else { "Time" }
        )),
        4 => root.push(format!(
            "RE[{p}+{}]",
            if r.chance(50) { "F" } else { "Forfeit" }
        )),
        5 => root.push(if r.chance(50) {
            "RE[Draw]".into()
        } else {
            "RE[D]".into()
        }),
        _ => {}
    }
    for _ in 0..r.below(3) {
        root.push(noise(r, true));
    }
    r.shuffle(&mut root);
    let mut s = format!(
        "({};{}",
        if r.chance(20) { "\n" } else { "" },
        root.concat()
    );
    let mut open = 1;
    // alternatives to be written when the trees are closed again
    let mut alts: Vec<String> = vec![String::new()];
    let late_at = if c.late {
        r.below(c.mv.len() + 1)
    } else {
        usize::MAX
    };
    for (i, &(col, kind, x, y)) in c.mv.iter().enumerate() {
        if i == late_at {
            s += ";AW[aa]";
        }
        let key = if col == 1 { "B" } else { "W" };
        let v = if kind == 1 {
            if r.chance(50) {
                "tt".to_string()
            } else {
                String::new()
            }
        } else {
            co(x, y)
        };
        if !(i == 0 && r.chance(8)) {
            if r.chance(6) {
                s += ";"; // a node without properties
            }
            if r.chance(12) {
                // a variation: the main line goes on in the first one
                s += "(";
                open += 1;
                let mut a = String::new();
                for _ in 0..r.range(1, 2) {
                    a += &format!(
                        "(;{}[{}]{};{}[{}])",
                        key,
                        co(r.below(c.h.max(1)), r.below(c.w.max(1))),
                        noise(r, false),
                        if key == "B" { "W" } else { "B" },
                        ""
                    );
                }
                alts.push(a);
            }
            s += ";";
        }
        s += &noise(r, false);
        s += &format!("{key}[{v}]");
        s += &noise(r, false);
        if r.chance(10) {
            s += "\n";
        }
    }
    if late_at == c.mv.len() {
        s += ";AE[aa]";
    }
    for _ in 0..open {
        s += ")";
        s += &alts.pop().unwrap_or_default();
    }
    s
}

pub fn loads(sid: &str, seed: u64, wild: bool, out: &mut Out) {
    let mut r = Rng::new(seed);
    out.scenarios += 1;
    if wild && r.chance(25) {
        // unstructured text
        let t = garbage(&mut r);
        let res = guard(|| Game::from_sgf(&t));
        let c = match &res {
            Ok(Ok(_)) => 0,
            Ok(Err(_)) => 1,
            Err(_) => 9,
        };
        let pn = res
            .err()
            .map_or(String::new(), |m| format!(",\"pn\":{}", jstr(&m)));
        out.lines.push(format!(
            "{{\"e\":\"text\",\"sid\":{},\"txt\":{},\"r\":{c}{pn}}}",
            jstr(sid),
            jstr(&t)
        ));
        out.cost += 10;
        return;
    }
    let sz = if r.chance(12) { 0 } else { 1 };
    let (h, w) = if sz == 0 { (19, 19) } else { size(&mut r, 361) };
    let (ru, run) = *r.pick(&[
        (0u8, ""),
        (1, "Japanese"),
        (1, "Japanese"),
        (2, "Chinese"),
        (2, "Chinese"),
    ]);
    let (ill, sco) = if ru == 1 { (5, 6) } else { (7, 3) };
    let b = if r.chance(45) {
        B::new(h, w)
    } else {
        position(&mut r, h, w)
    };
    let mut ab: Vec<(usize, usize)> = vec![];
    let mut aw = vec![];
    for i in 0..b.n() {
        match b.c[i] {
            1 => ab.push((i / w, i % w)),
            2 => aw.push((i / w, i % w)),
            _ => {}
        }
    }
    r.shuffle(&mut ab);
    r.shuffle(&mut aw);
    let ha = if r.chance(30) { r.below(9) as u32 } else { 0 };
    let pl = if r.chance(30) {
        1 + r.below(2) as u8
    } else {
        0
    };
    let first = if pl > 0 { pl } else { 1 + r.below(2) as u8 };
    let g = match set_up(&b, ill, sco, 26, first) {
        Ok(g) => g,
        Err(m) => {
            out.lines.push(format!(
                "{{\"e\":\"broken\",\"sid\":{},\"pn\":{}}}",
                jstr(sid),
                jstr(&m)
            ));
            return;
        }
    };
    let k = if h * w > 100 {
        r.below(15)
    } else {
        r.below(40)
    };
    let ms = guard(|| continuation(&mut r, &g, k, false)).unwrap_or_default();
    let mut c = first;
    let mut mv: Vec<(u8, u8, usize, usize)> = vec![];
    for m in ms {
        match m {
            Move::Play(x, y) => mv.push((c, 0, x as usize, y as usize)),
            _ => mv.push((c, 1, 0, 0)),
        }
        c = 3 - c;
    }
    let mut rec = Rec {
        h,
        w,
        sz,
        ru,
        run,
        km: if r.chance(50) {
            Some(*r.pick(&[26i64, 30, 0, 2, -10, 1, 31, 8]))
        } else {
            None
        },
        ha,
        ab,
        aw,
        pl,
        re: if r.chance(40) {
            outcome(Some(preset_outcome(&mut r)))
        } else {
            [0, 0, 0]
        },
        gm: if r.chance(50) { 1 } else { 0 },
        mv,
        late: false,
    };
    if wild {
        let times = if r.chance(80) { 1 } else { 2 };
        for _ in 0..times {
            spoil(&mut r, &mut rec);
        }
    }
    let t = text(&mut r, &rec);
    let res = guard(|| Game::from_sgf(&t));
    let (c, tail) = match res {
        Ok(Ok(g)) => match guard(|| result_json(&g, ill, sco)) {
            Ok(s) => match if wild {
                Ok(Ok(String::new()))
            } else {
                guard(|| by_hand(&rec, ill, sco))
            } {
                Ok(Ok(d)) => (0, format!(",{s}{d}")),
                Ok(Err(m)) | Err(m) => (9, format!(",\"pn\":{}", jstr(&m))),
            },
            Err(m) => (9, format!(",\"pn\":{}", jstr(&m))),
        },
        Ok(Err(m)) => (1, format!(",\"msg\":{}", jstr(&m))),
        Err(m) => (9, format!(",\"pn\":{}", jstr(&m))),
    };
    let pl = |v: &[(usize, usize)]| {
        let s: Vec<String> = v.iter().map(|p| format!("[{},{}]", p.0, p.1)).collect();
        format!("[{}]", s.join(","))
    };
    let mj: Vec<String> = rec
        .mv
        .iter()
        .map(|m| format!("[{},{},{},{}]", m.0, m.1, m.2, m.3))
        .collect();
    out.lines.push(format!(
        "{{\"e\":\"load\",\"sid\":{},\"txt\":{},\"h\":{},\"w\":{},\"ru\":{},\"km\":{},\"ha\":{},\"ab\":{},\"aw\":{},\"pl\":{},\"pre\":{},\"gm\":{},\"mv\":[{}],\"late\":{},\"r\":{c}{tail}}}",
        jstr(sid),
        jstr(&t),
        rec.h,
        rec.w,
        rec.ru,
        rec.km.unwrap_or(-9999),
        rec.ha,
        pl(&rec.ab),
        pl(&rec.aw),
        rec.pl,
        arr(&rec.re),
        rec.gm,
        mj.join(","),
        rec.late
    ));
    out.cost += 60 + (rec.h * rec.w).min(361) + rec.mv.len() * 10;
}

/// The same game set up and played through the other interfaces.
fn by_hand(c: &Rec, ill: u32, sco: u32) -> Result<String, String> {
    let mut g = set_up_by_hand(c, ill, sco)?;
    Ok(format!(",{}", direct(&mut g, &moves_of(c))))
}

pub fn set_up_by_hand(c: &Rec, ill: u32, sco: u32) -> Result<Game, String> {
    let mut b = Game::builder();
    let k = c.km.unwrap_or(if c.ru == 1 { 26 } else { 30 });
    b.size((c.h as u8, c.w as u8)).rule(rule(ill, sco, k));
    for (v, k) in [(&c.ab, 1), (&c.aw, 2)] {
        for p in v {
            b.add(Stone {
                coord: (p.0 as u8, p.1 as u8),
                color: col(k),
            });
        }
    }
    if c.pl > 0 {
        b.turn(col(c.pl));
    } else if let Some(m) = c.mv.first() {
        b.turn(col(m.0));
    } else if c.ha > 0 {
        b.handicap(c.ha);
    }
    let q = c.re[2] as f32 / 4.0;
    match c.re[0] {
        1 => b.outcome(EndGame::WinnerByScore(col(c.re[1] as u8), q)),
        2 => b.outcome(EndGame::WinnerByResign(col(c.re[1] as u8))),
        3 => b.outcome(EndGame::WinnerByTime(col(c.re[1] as u8))),
        4 => b.outcome(EndGame::WinnerByForfeit(col(c.re[1] as u8))),
        5 => b.outcome(EndGame::Draw),
        _ => &mut b,
    };
    b.build()
}

pub fn moves_of(c: &Rec) -> Vec<Move> {
    c.mv.iter()
        .map(|m| {
            if m.1 == 1 {
                Move::Pass
            } else {
                Move::Play(m.2 as u8, m.3 as u8)
            }
        })
        .collect()
}

/// Makes the record one the library cannot (or can barely) represent.
fn spoil(r: &mut Rng, c: &mut Rec) {
    let far = |r: &mut Rng, n: usize| if r.chance(50) { n } else { r.range(n, 51) };
    match r.below(12) {
        0 => {
            c.ru = 3;
            c.run = *r.pick(&["AGA", "NZ", "GOE", "Ing", "chinese", "Korean"]);
        }
        1 => c.gm = r.range(2, 9) as u8,
        2 => {
            c.sz = 1;
            c.h = *r.pick(&[20, 21, 25, 38, 52, 255, 256, 275, 1000]);
            if r.chance(50) {
                c.w = c.h;
            }
        }
        3 => {
            let p = (far(r, c.h).min(51), r.below(c.w));
            if r.chance(50) {
                c.ab.push(p)
            } else {
                c.aw.push(p)
            }
        }
        4 => {
            let p = (r.below(c.h), far(r, c.w).min(51));
            if r.chance(50) {
                c.aw.push(p)
            } else {
                c.ab.push(p)
            }
        }
        5 => {
            // occupied set-up point
            if let Some(&p) = c.ab.first().or(c.aw.first()) {
                if r.chance(50) {
                    c.ab.push(p)
                } else {
                    c.aw.push(p)
                }
            } else {
                c.pl = 3;
            }
        }
        6 => c.pl = 3,
        7 => {
            // a move off the board
            let i = r.below(c.mv.len() + 1);
            let col = next_col(c, i);
            let p = if r.chance(50) {
                (far(r, c.h).min(51), r.below(c.w))
            } else {
                (r.below(c.h), far(r, c.w).min(51))
            };
            // the coordinate tt is a pass
            let p = if p == (19, 19) { (19, 18) } else { p };
            c.mv.truncate(i);
            c.mv.push((col, 0, p.0, p.1));
        }
        8 => {
            // play on an earlier move's point
            let i = r.below(c.mv.len() + 1);
            if i > 0 {
                let col = next_col(c, i);
                let (_, k, x, y) = c.mv[r.below(i)];
                c.mv.truncate(i);
                c.mv.push((col, k, x, y));
            }
        }
        9 => {
            // a third pass
            let i = r.below(c.mv.len() + 1);
            c.mv.truncate(i);
            for _ in 0..3 {
                let col = next_col(c, c.mv.len());
                c.mv.push((col, 1, 0, 0));
            }
            if r.chance(50) {
                let col = next_col(c, c.mv.len());
                c.mv.push((col, 0, 0, 0));
            }
        }
        10 => {
            // colours that do not alternate
            if !c.mv.is_empty() {
                let i = r.below(c.mv.len());
                c.mv[i].0 = 3 - c.mv[i].0;
            }
        }
        _ => c.late = true,
    }
}

fn next_col(c: &Rec, i: usize) -> u8 {
    if i == 0 {
        c.mv.first()
            .map_or(if c.pl == 0 || c.pl == 3 { 1 } else { c.pl }, |m| m.0)
    } else {
        3 - c.mv[i - 1].0
    }
}

fn garbage(r: &mut Rng) -> String {
    let keys = [
        "B", "W", "AB", "AW", "AE", "PL", "SZ", "KM", "HA", "RE", "RU", "GM", "FF", "C", "LB",
        "TR", "XY", "CA", "ST",
    ];
    let vals = [
        "aa",
        "ab",
        "ss",
        "tt",
        "zz",
        "AA",
        "ZZ",
        "",
        "a",
        "abc",
        "19",
        "9",
        "0",
        "1",
        "5:7",
        "7:5",
        "20",
        "256",
        "99999999999",
        "nan",
        "inf",
        "B",
        "W",
        "Chinese",
        "Japanese",
        "AGA",
        "Draw",
        "B+R",
        "W+0.5",
        "B+",
        "W+T",
        "x",
        "aa:1",
        "a0",
        "00",
        "99",
        "zA",
    ];
    let mut s = String::from("(");
    let mut depth = 1;
    for _ in 0..r.range(0, 14) {
        match r.below(10) {
            0 if depth < 6 => {
                s += "(;";
                depth += 1;
            }
            1 if depth > 1 => {
                s += ")";
                depth -= 1;
            }
            _ => {
                s += if r.chance(80) { ";" } else { "" };
                for _ in 0..r.below(4) {
                    s += *r.pick(&keys);
                    for _ in 0..r.range(1, 2) {
                        s += &format!("[{}]", r.pick(&vals));
                    }
                }
            }
        }
    }
    for _ in 0..depth {
        s += ")";
    }
    if r.chance(10) {
        let k = r.below(s.len());
        s.truncate(k);
    }
    s
}
