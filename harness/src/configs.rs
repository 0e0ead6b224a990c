//! Builds and loads the configurations and records that TLC generated from the
//! specification (Configs.tla) and compares the games.
use crate::drive::{guard, rule};
use crate::graph::Tally;
use crate::misc::Call;
use crate::obs::*;
use crate::sgf::{moves_of, set_up_by_hand, text, Rec};
use crate::util::Rng;
use goban::pieces::stones::Stone;
use goban::rules::game::Game;
use goban::rules::{EndGame, Move};

pub struct Fixed {
    pub h: usize,
    pub w: usize,
    pub ill: u32,
    pub sco: u32,
    pub k: i64,
}

#[derive(Clone, PartialEq, Debug)]
struct State {
    board: Vec<u8>,
    turn: u8,
    pris: Vec<i64>,
    over: bool,
    outcome: Vec<i64>,
    score: Vec<i64>,
    verdicts: Vec<u8>,
    history: Vec<Vec<u8>>,
    komi: i64,
}

enum Want {
    Yes(State),
    No,
    Any,
}

fn ints(s: &str) -> Vec<i64> {
    s.split('.')
        .filter(|x| !x.is_empty())
        .map(|x| x.parse().unwrap())
        .collect()
}
fn many(s: &str) -> Vec<Vec<i64>> {
    s.split(';').filter(|x| !x.is_empty()).map(ints).collect()
}
fn digits(s: &str) -> Vec<u8> {
    s.bytes().map(|b| b - b'0').collect()
}
fn want(f: &[&str]) -> Want {
    match f[0] {
        "no" => Want::No,
        "any" => Want::Any,
        _ => {
            let outcome = ints(f[5]);
            Want::Yes(State {
                board: digits(f[1]),
                turn: f[2].parse().unwrap(),
                pris: ints(f[3]),
                over: f[4] == "2" || outcome[0] != 0,
                outcome,
                score: ints(f[6]),
                verdicts: digits(f[7]),
                history: f[8]
                    .split('/')
                    .filter(|x| !x.is_empty())
                    .map(digits)
                    .collect(),
                komi: f[9].parse().unwrap(),
            })
        }
    }
}
fn state(g: &Game) -> State {
    let s = g.calculate_score();
    State {
        board: board(g.goban()),
        turn: num(g.turn()),
        pris: vec![g.prisoners().0 as i64, g.prisoners().1 as i64],
        over: g.is_over(),
        outcome: outcome(g.outcome()).to_vec(),
        score: vec![q4(s.0), q4(s.1)],
        verdicts: coords(g.goban())
            .into_iter()
            .map(|c| code(g.check_point(c)))
            .collect(),
        history: history(g),
        komi: q4(g.komi()),
    }
}
fn end(v: &[i64]) -> Option<EndGame> {
    let c = || col(v[1] as u8);
    match v[0] {
        1 => Some(EndGame::WinnerByScore(c(), v[2] as f32 / 4.0)),
        2 => Some(EndGame::WinnerByResign(c())),
        3 => Some(EndGame::WinnerByTime(c())),
        4 => Some(EndGame::WinnerByForfeit(c())),
        5 => Some(EndGame::Draw),
        _ => None,
    }
}

/// Every field is judged on which playing the moves one by one does what the specification says.
fn compare(
    got: &State,
    direct: Option<&State>,
    want: &State,
    size: bool,
    at: &dyn Fn() -> String,
    t: &mut Tally,
) {
    t.ck(size, || format!("{}: another size", at()));
    macro_rules! field {
        ($($f:ident)*) => {$(
            if direct.is_some_and(|d| d.$f != want.$f) {
                t.skipped += 1;
            } else {
                t.ck(got.$f == want.$f, || {
                    format!("{}: {} {:?} instead of {:?}", at(), stringify!($f), got.$f, want.$f)
                });
            }
        )*};
    }
    field!(board turn pris over outcome score verdicts history komi);
}

pub fn replay(prop: &str, c: &Fixed, file: &str, seed: u64) -> Tally {
    let mut t = Tally::new();
    let mut r = Rng::new(seed);
    let txt = std::fs::read_to_string(file).unwrap();
    for l in txt.lines() {
        let l = l.trim().trim_matches('"');
        if !(l.starts_with("B|") || l.starts_with("R|") || l.starts_with("C|")) {
            continue;
        }
        if t.full() {
            break;
        }
        let f: Vec<&str> = l.split('|').collect();
        t.states += 1;
        if t.states % 997 == 11 && t.sample.len() < 3 {
            t.sample.push(l.to_string());
        }
        let res = guard(|| {
            let mut t2 = Tally::new();
            if f[0] == "C" {
                calls(&f, &mut t2);
            } else if f[0] == "B" {
                build(prop, c, &f, &mut r, &mut t2);
            } else {
                // in several layouts
                for _ in 0..if f[11] == "yes" { 4 } else { 2 } {
                    load(prop, c, &f, &mut r, &mut t2);
                }
            }
            t2
        });
        match res {
            Ok(t2) => {
                t.checks += t2.checks;
                t.skipped += t2.skipped;
                t.transitions += t2.transitions;
                t.bad.extend(t2.bad);
            }
            Err(m) => t.bad.push(format!("{l}: panic {m}")),
        }
    }
    t
}

fn build(prop: &str, c: &Fixed, f: &[&str], r: &mut Rng, t: &mut Tally) {
    let (hp, add, mv) = (many(f[1]), many(f[4]), many(f[7]));
    let (hc, tg): (i64, i64) = (f[2].parse().unwrap(), f[3].parse().unwrap());
    let pre = end(&ints(f[5]));
    let km: i64 = f[6].parse().unwrap();
    let want = want(&f[8..]);
    let moves: Vec<Move> = mv
        .iter()
        .map(|m| match m[0] {
            0 => Move::Play(m[1] as u8, m[2] as u8),
            1 => Move::Pass,
            _ => Move::Resign(col(m[1] as u8)),
        })
        .collect();
    t.transitions += moves.len() as u64;
    let mut order: Vec<u8> = (0..9).collect();
    r.shuffle(&mut order);
    let make = |with: bool| {
        let mut b = Game::builder();
        for &o in &order {
            match o {
                0 => {
                    b.size((c.h as u8, c.w as u8));
                }
                1 => {
                    b.rule(rule(c.ill, c.sco, c.k));
                }
                2 if km != -9999 => {
                    b.komi(km as f32 / 4.0);
                }
                3 if !hp.is_empty() => {
                    let v: Vec<(u8, u8)> = hp.iter().map(|p| (p[0] as u8, p[1] as u8)).collect();
                    b.put_handicap(&v);
                }
                4 if hc >= 0 => {
                    b.handicap(hc as u32);
                }
                5 if tg > 0 => {
                    b.turn(col(tg as u8));
                }
                6 => {
                    for s in &add {
                        b.add(Stone {
                            coord: (s[0] as u8, s[1] as u8),
                            color: col(s[2] as u8),
                        });
                    }
                }
                7 => {
                    if let Some(o) = pre {
                        b.outcome(o);
                    }
                }
                8 if with => {
                    b.moves(&moves);
                }
                _ => {}
            }
        }
        b.build()
    };
    let at = || {
        format!(
            "{}x{} rules {} builder {} (calls {order:?})",
            c.h,
            c.w,
            c.ill,
            f.join("|")
        )
    };
    let off = |p: &[i64]| p[0] as usize >= c.h || p[1] as usize >= c.w;
    let outside = hp.iter().any(|p| off(p))
        || add.iter().any(|p| off(p))
        || mv.iter().any(|m| m[0] == 0 && off(&m[1..]));
    let made = guard(|| make(true));
    match prop {
        "C13" if outside => t.ck(!matches!(made, Ok(Ok(_))), || {
            format!("{}: a point outside the board is accepted", at())
        }),
        "C14" => {
            let Want::Yes(w) = want else {
                t.skipped += 1;
                return;
            };
            match made {
                Ok(Ok(g)) => {
                    let d = guard(|| {
                        let mut g = make(false).unwrap();
                        for &m in &moves {
                            g.play(m);
                        }
                        state(&g)
                    });
                    let Ok(d) = d else {
                        t.skipped += 1;
                        return;
                    };
                    let d = if moves.is_empty() { None } else { Some(d) };
                    compare(
                        &state(&g),
                        d.as_ref(),
                        &w,
                        dims(g.goban()) == (c.h, c.w),
                        &at,
                        t,
                    );
                }
                Ok(Err(m)) | Err(m) => t.ck(false, || format!("{}: {m}", at())),
            }
        }
        _ => {}
    }
}

/// A sequence of builder calls, exactly as the specification made it.
fn calls(f: &[&str], t: &mut Tally) {
    let pairs = |x: &[i64]| -> Vec<(u8, u8)> { x.chunks(2).map(|p| (p[0] as u8, p[1] as u8)).collect() };
    let cs: Vec<Call> = many(f[1])
        .iter()
        .map(|x| match x[0] {
            0 => Call::Size(x[1] as u8, x[2] as u8),
            1 => Call::Rule(x[1] as u32, x[2] as u32, x[3]),
            2 => Call::Komi(x[1]),
            3 => Call::Points(pairs(&x[1..])),
            4 => Call::Handicap(x[1] as u32),
            5 => Call::Turn(x[1] as u8),
            6 => Call::Add((x[1] as u8, x[2] as u8), x[3] as u8),
            7 => Call::Outcome(end(&x[1..]).unwrap()),
            8 => Call::Moves(
                x[1..]
                    .chunks(3)
                    .map(|m| match m[0] {
                        0 => Move::Play(m[1] as u8, m[2] as u8),
                        1 => Move::Pass,
                        _ => Move::Resign(col(m[1] as u8)),
                    })
                    .collect(),
            ),
            _ => Call::Names,
        })
        .collect();
    t.transitions += cs.len() as u64;
    let moves = cs
        .iter()
        .rev()
        .find_map(|c| match c {
            Call::Moves(m) => Some(m.clone()),
            _ => None,
        })
        .unwrap_or_default();
    let make = |with: bool| {
        let mut b = Game::builder();
        for c in &cs {
            if with || !matches!(c, Call::Moves(_)) {
                c.make(&mut b);
            }
        }
        b.build()
    };
    let Want::Yes(w) = want(&f[2..]) else {
        t.skipped += 1;
        return;
    };
    let flags = ints(f[12]);
    let at = || format!("builder calls {}", f[1]);
    match guard(|| make(true)) {
        Ok(Ok(g)) => {
            let d = guard(|| {
                let mut g = make(false).unwrap();
                for &m in &moves {
                    g.play(m);
                }
                state(&g)
            });
            let Ok(d) = d else {
                t.skipped += 1;
                return;
            };
            let d = if moves.is_empty() { None } else { Some(d) };
            let size = dims(g.goban()) == (flags[0] as usize, flags[1] as usize);
            compare(&state(&g), d.as_ref(), &w, size, &at, t);
        }
        Ok(Err(m)) | Err(m) => t.ck(false, || format!("{}: {m}", at())),
    }
}

fn load(prop: &str, c: &Fixed, f: &[&str], r: &mut Rng, t: &mut Tally) {
    let p2 = |s: &str| -> Vec<(usize, usize)> {
        many(s)
            .iter()
            .map(|p| (p[0] as usize, p[1] as usize))
            .collect()
    };
    let n = |i: usize| f[i].parse::<i64>().unwrap();
    let pre = ints(f[7]);
    let ru = n(1) as u8;
    let rec = Rec {
        h: c.h,
        w: c.w,
        sz: 1,
        ru,
        run: match ru {
            1 => "Japanese",
            2 => "Chinese",
            _ => *r.pick(&["AGA", "NZ", "GOE", "Ing"]),
        },
        km: if n(2) == -9999 { None } else { Some(n(2)) },
        ha: n(3) as u32,
        ab: p2(f[4]),
        aw: p2(f[5]),
        pl: n(6) as u8,
        re: [pre[0], pre[1], pre[2]],
        gm: n(8) as u8,
        mv: many(f[10])
            .iter()
            .map(|m| (m[0] as u8, m[1] as u8, m[2] as usize, m[3] as usize))
            .collect(),
        late: f[9] == "1",
    };
    t.transitions += rec.mv.len() as u64;
    let want = want(&f[11..]);
    let txt = text(r, &rec);
    let at = || format!("{}x{} record {}: {txt}", c.h, c.w, f.join("|"));
    let got = guard(|| Game::from_sgf(&txt));
    match (prop, want) {
        ("C15", Want::Yes(w)) => match got {
            Ok(Ok(g)) => {
                let (ill, sco) = if ru == 1 { (5, 6) } else { (7, 3) };
                let d = guard(|| {
                    let mut g = set_up_by_hand(&rec, ill, sco).unwrap();
                    for m in moves_of(&rec) {
                        g.play(m);
                    }
                    state(&g)
                });
                let Ok(d) = d else {
                    t.skipped += 1;
                    return;
                };
                let d = if rec.mv.is_empty() { None } else { Some(d) };
                compare(
                    &state(&g),
                    d.as_ref(),
                    &w,
                    dims(g.goban()) == (c.h, c.w),
                    &at,
                    t,
                );
            }
            Ok(Err(m)) | Err(m) => t.ck(false, || format!("{}: {m}", at())),
        },
        ("C15", _) => t.skipped += 1,
        ("C22", want) => {
            match want {
                Want::Yes(_) => t.ck(matches!(got, Ok(Ok(_))), || format!("{}: not loaded", at())),
                Want::No => t.ck(matches!(got, Ok(Err(_))), || {
                    format!("{}: not refused", at())
                }),
                Want::Any => t.ck(got.is_ok(), || format!("{}: panic", at())),
            }
            if let Ok(Ok(g)) = got {
                let ok = dims(g.goban()) == (c.h, c.w)
                    && g.goban().get_stones().all(|s| {
                        let p = (s.coord.0 as usize, s.coord.1 as usize);
                        let k = num(s.color);
                        rec.mv
                            .iter()
                            .any(|m| m.0 == k && m.1 == 0 && (m.2, m.3) == p)
                            || (if k == 1 { &rec.ab } else { &rec.aw }).contains(&p)
                    });
                t.ck(ok, || {
                    format!("{}: stones that are not in the record", at())
                });
            }
        }
        _ => {}
    }
}
