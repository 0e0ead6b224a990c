//! Scripts played along several routes, mirrored games, group stores, names and conversions.
use crate::drive::{guard, rule, set_up, Out};
use crate::gen::{choose, position, size, B};
use crate::obs::*;
use crate::util::{arr, jstr, Rng};
use goban::pieces::goban::Goban;
use goban::pieces::group::{merge, set, Group, Groups, EMPTY_LIBERTIES};
use goban::pieces::stones::{Color, Point, Stone};
use goban::pieces::util::coord::{
    corner_points, is_coord_valid, neighbor_coords, one_to_2dim, two_to_1dim, valid_coords,
    IntoCoord, IntoIdx,
};
use goban::rules::game::Game;
use goban::rules::{EndGame, GobanSizes, Move, Rule, CHINESE, JAPANESE};
use std::str::FromStr;

// ---------------------------------------------------------------- scripts

#[derive(Clone, Copy, PartialEq)]
enum Do {
    M(Move),
    Resume,
    Komi(i64),
}

fn act_json(a: Do) -> String {
    match a {
        Do::M(Move::Play(x, y)) => format!("[0,{x},{y}]"),
        Do::M(Move::Pass) => "[1,0,0]".into(),
        Do::M(Move::Resign(c)) => format!("[2,{},0]", num(c)),
        Do::Resume => "[3,0,0]".into(),
        Do::Komi(k) => format!("[4,{k},0]"),
    }
}

fn apply(g: &mut Game, a: Do, checked: bool) -> Result<(), String> {
    match a {
        Do::M(m) if checked => {
            if let Err(e) = g.try_play(m) {
                return Err(format!("{m:?} refused: {e:?}"));
            }
        }
        Do::M(m) => {
            g.play(m);
        }
        Do::Resume => g.resume(),
        Do::Komi(k) => g.set_komi(k as f32 / 4.0),
    }
    Ok(())
}

struct Setting {
    b: B,
    ill: u32,
    sco: u32,
    k4: i64,
    turn: u8,
}

impl Setting {
    fn game(&self) -> Result<Game, String> {
        set_up(&self.b, self.ill, self.sco, self.k4, self.turn)
    }
    fn stones(&self) -> Vec<Stone> {
        (0..self.b.n())
            .filter(|&i| self.b.c[i] != 0)
            .map(|i| Stone {
                coord: ((i / self.b.w) as u8, (i % self.b.w) as u8),
                color: col(self.b.c[i]),
            })
            .collect()
    }
}

/// Plays about at random on another board.
fn idle(r: &mut Rng, g: &mut Game) {
    let (h, w) = dims(g.goban());
    let b = B {
        h,
        w,
        c: board(g.goban()),
    };
    match choose(r, &b, num(g.turn()), &[]) {
        Some(i) if r.chance(95) => {
            let _ = g.try_play(Move::Play((i / w) as u8, (i % w) as u8));
        }
        _ => {
            let _ = g.try_play(Move::Pass);
            g.resume();
        }
    }
}

/// Things that may not matter.
fn detour(r: &mut Rng, g: &mut Game) {
    let cs = coords(g.goban());
    match r.below(6) {
        0 => {
            for &c in &cs {
                if g.check_point(c).is_some() && r.chance(50) {
                    let _ = g.try_play(Move::Play(c.0, c.1));
                }
            }
        }
        1 => queries(g, r),
        2 => {
            let mut k = g.clone();
            for _ in 0..r.range(1, 5) {
                idle(r, &mut k);
            }
        }
        3 => {
            let c = *r.pick(&cs);
            if g.get_color(c).is_none() {
                let _ = g.play_for_verification(c);
                let _ = g.will_capture(c);
            }
        }
        4 => {
            let v: Vec<Coord> = g.legals().collect();
            if !v.is_empty() {
                let c = *r.pick(&v);
                let mut k = g.goban().clone();
                if k.get_color(c).is_none() {
                    k.push(c, g.turn());
                }
            }
        }
        _ => {
            let _ = (g.outcome(), g.is_over(), g.calculate_score());
            let _ = g.history().count();
        }
    }
}

/// One way of playing the script.
fn route(name: &str, s: &Setting, mv: &[Do], r: &mut Rng) -> Option<Result<Game, String>> {
    let only_moves = mv.iter().all(|m| matches!(m, Do::M(_)));
    let moves: Vec<Move> = mv
        .iter()
        .filter_map(|m| if let Do::M(m) = m { Some(*m) } else { None })
        .collect();
    let mut run = |mut g: Game, checked: usize| -> Result<Game, String> {
        for &m in mv {
            apply(&mut g, m, r.chance(checked))?;
        }
        Ok(g)
    };
    Some(match name {
        "try" => s.game().and_then(|g| run(g, 100)),
        "raw" => s.game().and_then(|g| run(g, 0)),
        "mixed" => s.game().and_then(|g| run(g, 50)),
        "builder" if only_moves => {
            let mut b = Game::builder();
            let mut st = s.stones();
            r.shuffle(&mut st);
            b.moves(&moves).turn(col(s.turn));
            for x in st {
                b.add(x);
            }
            if r.chance(50) {
                b.komi(s.k4 as f32 / 4.0);
                b.rule(rule(s.ill, s.sco, 2));
            } else {
                b.rule(rule(s.ill, s.sco, s.k4));
            }
            b.size((s.b.h as u8, s.b.w as u8));
            b.build()
        }
        "clones" => s.game().and_then(|mut g| {
            for &m in mv {
                let mut k = g.clone();
                apply(&mut k, m, r.chance(50))?;
                if r.chance(50) {
                    idle(r, &mut g); // the original goes its own way
                }
                g = k;
            }
            Ok(g)
        }),
        "detours" => s.game().and_then(|mut g| {
            for &m in mv {
                if r.chance(40) {
                    detour(r, &mut g);
                }
                apply(&mut g, m, r.chance(50))?;
            }
            Ok(g)
        }),
        "two games" => s.game().and_then(|mut g| {
            let mut o = Game::new(
                if r.chance(50) {
                    GobanSizes::Custom(s.b.h, s.b.w)
                } else {
                    GobanSizes::Custom(5, 4)
                },
                rule(5, 3, 10),
            );
            for &m in mv {
                idle(r, &mut o);
                apply(&mut g, m, r.chance(50))?;
                idle(r, &mut o);
            }
            Ok(g)
        }),
        "threads" => {
            let sd: Vec<u64> = (0..2).map(|_| r.next()).collect();
            std::thread::scope(|sc| {
                for &x in &sd {
                    sc.spawn(move || {
                        let mut r = Rng::new(x);
                        let mut o = Game::new(GobanSizes::Custom(5, 5), rule(7, 3, 10));
                        for _ in 0..30 {
                            idle(&mut r, &mut o);
                        }
                    });
                }
                let g = sc.spawn(|| {
                    let mut g = s.game()?;
                    for &m in mv {
                        apply(&mut g, m, true)?;
                    }
                    Ok(g)
                });
                g.join().unwrap_or(Err("panic".into()))
            })
        }
        "sgf" if only_moves
            && matches!((s.ill, s.sco), (5, 6) | (7, 3))
            && !moves.iter().any(|m| matches!(m, Move::Resign(_))) =>
        {
            let jap = s.ill == 5;
            let put = |c: Color| {
                s.stones()
                    .iter()
                    .filter(|x| x.color == c)
                    .map(|x| (x.coord.0 as usize, x.coord.1 as usize))
                    .collect::<Vec<_>>()
            };
            let mut turn = s.turn;
            let mut rmv = vec![];
            for m in &moves {
                match m {
                    Move::Play(x, y) => rmv.push((turn, 0, *x as usize, *y as usize)),
                    _ => rmv.push((turn, 1, 0, 0)),
                }
                turn = 3 - turn;
            }
            let rec = crate::sgf::Rec {
                h: s.b.h,
                w: s.b.w,
                sz: 1,
                ru: if jap { 1 } else { 2 },
                run: if jap { "Japanese" } else { "Chinese" },
                km: Some(s.k4),
                ha: 0,
                ab: put(Color::Black),
                aw: put(Color::White),
                pl: if rmv.is_empty() || r.chance(50) { s.turn } else { 0 },
                re: [0, 0, 0],
                gm: r.below(2) as u8,
                mv: rmv,
                late: false,
            };
            let t = crate::sgf::text(r, &rec);
            Game::from_sgf(&t)
        }
        _ => return None,
    })
}

const ROUTES: [&str; 9] = [
    "try", "raw", "mixed", "builder", "clones", "detours", "two games", "threads", "sgf",
];

/// Everything a group can tell, in an order that does not depend on the numbers of groups.
fn group_digest(gb: &Goban) -> String {
    let mut v: Vec<(u8, Vec<usize>)> = group_idxs(gb)
        .into_iter()
        .map(|i| {
            let (c, mut s) = stones_of(gb, i);
            s.sort();
            (c, s)
        })
        .collect();
    v.sort();
    let mut c: Vec<(u8, usize, Vec<usize>)> = gb
        .chains()
        .take(400)
        .map(|g| {
            let mut l: Vec<usize> = g.liberties().into_iter().collect();
            l.sort();
            (num(g.color), g.num_stones as usize, l)
        })
        .collect();
    c.sort();
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for x in format!("{v:?}{c:?}").bytes() {
        h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3);
    }
    format!("{h:x}")
}

fn view(name: &str, g: &Game, asks: &[(usize, u32)]) -> String {
    let gb = g.goban();
    let (h, w) = dims(gb);
    let cs: Vec<String> = asks
        .iter()
        .map(|&(i, f)| {
            let c = ((i / w) as u8, (i % w) as u8);
            format!("[{},{f},{}]", i + 1, code(g.check_point_by(c, flags(f))))
        })
        .collect();
    let so = g.calculate_score();
    let hi: Vec<String> = g.history().map(|b| arr(&board(b))).collect();
    format!(
        "{{\"e\":\"rview\",\"n\":{},{},\"sz\":[{h},{w}],\"kk\":{},\"so\":[{},{}],\"oc\":{},\"hi\":[{}],\"cs\":[{}],\"gd\":{},\"hs\":{}}}",
        jstr(name),
        base(g),
        q4(g.komi()),
        q4(so.0),
        q4(so.1),
        arr(&outcome(g.outcome())),
        hi.join(","),
        cs.join(","),
        jstr(&group_digest(gb)),
        arr(&words(gb.zobrist_hash()))
    )
}

/// The same start and the same attempts again and again, hundreds of thousands of checks in
/// one process: every run has to answer like the first one.
pub fn steady(sid: &str, seed: u64, out: &mut Out) {
    let mut r = Rng::new(seed);
    let (h, w) = *r.pick(&[(2usize, 2usize), (1, 4), (2, 3), (3, 3), (3, 4), (1, 7)]);
    let n = h * w;
    out.scenarios += 1;
    let s = Setting {
        b: B::new(h, w),
        ill: *r.pick(&[2u32, 3, 6, 7]),
        sco: r.below(8) as u32,
        k4: *r.pick(&[26i64, 30, 0, 2]),
        turn: r.range(1, 2) as u8,
    };
    let tries: Vec<usize> = (0..r.range(20, 60)).map(|_| r.below(n + 1)).collect();
    let reps = if cfg!(debug_assertions) { 600 } else { 8000 };
    let run = || {
        guard(|| -> Result<Vec<u64>, String> {
            let mut g = s.game()?;
            let mut log: Vec<u64> = vec![];
            for &t in &tries {
                if t == n {
                    if g.try_play(Move::Pass).is_err() {
                        g.resume();
                    }
                } else {
                    let m = Move::Play((t / w) as u8, (t % w) as u8);
                    log.push(match g.try_play(m) {
                        Ok(_) => 9,
                        Err(e) => 10 + perr(e) as u64,
                    });
                }
                for q in 0..n {
                    let c = ((q / w) as u8, (q % w) as u8);
                    log.push(mnum(g.goban().get_color(c)) as u64);
                    log.push(code(g.check_point(c)) as u64);
                }
                log.push(g.legals().count() as u64);
                log.push(g.prisoners().0 as u64 * 1000 + g.prisoners().1 as u64);
                let (b, v) = g.calculate_score();
                log.push((b * 4.0) as i64 as u64 & 0xffff);
                log.push((v * 4.0) as i64 as u64 & 0xffff);
            }
            Ok(log)
        })
        .and_then(|x| x)
    };
    let first = match run() {
        Ok(x) => x,
        Err(m) => {
            out.lines.push(format!(
                "{{\"e\":\"broken\",\"sid\":{},\"pn\":{}}}",
                jstr(sid),
                jstr(&m)
            ));
            return;
        }
    };
    // the last run that differs, or the last run
    let mut last = Ok(first.clone());
    let mut k = 1;
    while k < reps && last.as_ref() == Ok(&first) {
        last = run();
        k += 1;
    }
    let pn = match &last {
        Err(m) => format!(",\"pn\":{}", jstr(m)),
        Ok(_) => String::new(),
    };
    let last = last.unwrap_or_default();
    let at = first.iter().zip(&last).position(|(a, b)| a != b).unwrap_or(0);
    let part = |v: &Vec<u64>| {
        let v: Vec<usize> = v.iter().skip(at).take(40).map(|&x| x as usize).collect();
        arr(&v)
    };
    out.lines.push(format!(
        "{{\"e\":\"again\",\"sid\":{},\"h\":{h},\"w\":{w},\"ill\":{},\"tries\":{},\"k\":{k},\"at\":{at},\"na\":{},\"nb\":{},\"a\":{},\"b\":{}{pn}}}",
        jstr(sid),
        s.ill,
        arr(&tries),
        first.len(),
        last.len(),
        part(&first),
        part(&last)
    ));
    out.cost += 400;
}

pub fn replay(sid: &str, seed: u64, out: &mut Out) {
    let mut r = Rng::new(seed);
    let max = *r.pick(&[9usize, 16, 25, 25, 49, 81, 361]);
    let (h, w) = size(&mut r, max);
    let n = h * w;
    let (ill, sco) = match r.below(4) {
        0 => (7, 3),
        1 => (5, 6),
        _ => (
            *r.pick(&[5u32, 7, 1, 0, 4, 3, 2, 6, 13, 15, 8]),
            r.below(8) as u32,
        ),
    };
    let empty = r.chance(45);
    let s = Setting {
        b: if empty {
            B::new(h, w)
        } else {
            position(&mut r, h, w)
        },
        ill,
        sco,
        k4: *r.pick(&[26i64, 30, 0, 2, -2, 1, 3, 22]),
        turn: r.range(1, 2) as u8,
    };
    out.scenarios += 1;
    let broken = |out: &mut Out, m: String| {
        out.lines.push(format!(
            "{{\"e\":\"broken\",\"sid\":{},\"pn\":{}}}",
            jstr(sid),
            jstr(&m)
        ));
    };
    let mut g = match guard(|| s.game()).and_then(|x| x) {
        Ok(g) => g,
        Err(m) => return broken(out, m),
    };
    out.lines.push(format!(
        "{{\"e\":\"rstart\",\"sid\":{},\"h\":{h},\"w\":{w},\"ill\":{ill},\"sco\":{sco},\"k\":{},\"b\":{},\"t\":{}}}",
        jstr(sid),
        s.k4,
        arr(&s.b.c),
        s.turn
    ));
    let plain = r.chance(50); // nothing but moves, so that every route is open
    let len = r.range(3, 12 + 2 * n.min(40));
    let mut script: Vec<Do> = vec![];
    let mut recent: Vec<usize> = vec![];
    let mut streak = 0;
    let checks = r.range(1, 3);
    for step in 0..len {
        let live = guard(|| {
            if r.chance(25) {
                detour(&mut r, &mut g);
            }
            let k = r.below(100);
            let a = if streak >= 2 {
                if plain {
                    return Ok(None);
                }
                if r.chance(40) {
                    let _ = g.try_play(Move::Pass);
                    let _ = g.try_play(Move::Play(0, 0));
                }
                Do::Resume
            } else if !plain && k < 2 {
                Do::Resume
            } else if !plain && k < 5 {
                Do::Komi(*r.pick(&[26i64, 0, 5, -6]))
            } else if !plain && k < 7 {
                Do::M(Move::Resign(col(r.range(1, 2) as u8)))
            } else if k < 16 {
                Do::M(Move::Pass)
            } else {
                let b = B {
                    h,
                    w,
                    c: board(g.goban()),
                };
                match choose(&mut r, &b, num(g.turn()), &recent) {
                    Some(i) => Do::M(Move::Play((i / w) as u8, (i % w) as u8)),
                    None => Do::M(Move::Pass),
                }
            };
            let raw = match a {
                Do::M(Move::Play(x, y)) => {
                    r.chance(40) && g.check_point((x, y)).is_none() && streak < 2
                }
                _ => r.chance(40),
            };
            let before = board(g.goban());
            if apply(&mut g, a, !raw).is_err() {
                return Ok(None);
            }
            match a {
                Do::M(Move::Pass) => streak += 1,
                Do::M(Move::Resign(_)) | Do::Komi(_) => {}
                _ => streak = 0,
            }
            if let Do::M(Move::Play(x, y)) = a {
                recent.insert(0, x as usize * w + y as usize);
                let after = board(g.goban());
                for q in 0..n {
                    if before[q] != 0 && after[q] == 0 {
                        recent.insert(0, q);
                    }
                }
                recent.truncate(7);
            }
            Ok::<_, String>(Some(a))
        });
        match live {
            Err(m) => return broken(out, m),
            Ok(Ok(Some(a))) => {
                script.push(a);
                out.lines
                    .push(format!("{{\"e\":\"ract\",\"m\":{}}}", act_json(a)));
                out.cost += 10 + 4 * n;
            }
            Ok(_) => {}
        }
        let last = step + 1 == len;
        if !last && !r.chance(100 * checks / len) {
            continue;
        }
        // the same script by every route
        let mut fs = vec![ill, ill, 1, 4, 5, 0, 8];
        if n <= 30 {
            fs.extend([2, 7, 15]);
        }
        let asks: Vec<(usize, u32)> = (0..(n * 2).min(36))
            .map(|_| (r.below(n), *r.pick(&fs)))
            .collect();
        let mut views = vec![("live", Some(Ok(g.clone())))];
        for &x in &ROUTES {
            if n > 100 && !last && r.chance(60) {
                continue;
            }
            let mut q = Rng::new(r.next());
            match guard(|| route(x, &s, &script, &mut q)) {
                Ok(k) => views.push((x, k)),
                Err(m) => views.push((x, Some(Err(m)))),
            }
        }
        for (x, k) in views {
            match k {
                None => {}
                Some(Err(m)) => return broken(out, format!("{x}: {m}")),
                Some(Ok(k)) => match guard(|| view(x, &k, &asks)) {
                    Ok(l) => {
                        out.cost += 40 + n * (4 + k.history().count() / 2) + asks.len() * 12;
                        out.lines.push(l);
                    }
                    Err(m) => return broken(out, format!("{x}: {m}")),
                },
            }
        }
    }
}

// ---------------------------------------------------------------- mirrors

fn image(h: usize, w: usize, y: usize, i: usize) -> (usize, usize) {
    let (r, c) = (i / w, i % w);
    match y {
        1 => (r, c),
        2 => (h - 1 - r, c),
        3 => (r, w - 1 - c),
        4 => (h - 1 - r, w - 1 - c),
        5 => (c, r),
        6 => (w - 1 - c, r),
        7 => (c, h - 1 - r),
        _ => (w - 1 - c, h - 1 - r),
    }
}

fn side(g: &Game, fs: &[u32]) -> String {
    let gb = g.goban();
    let cs: Vec<String> = fs.iter().map(|&f| codes(g, f)).collect();
    let (tb, tw) = gb.get_territories();
    let sc: Vec<String> = [0u32, 1, 4, 5]
        .iter()
        .map(|&f| {
            let s = g.calculate_score_by(sflags(f));
            format!("[{},{}]", q4(s.0), q4(s.1))
        })
        .collect();
    let ch: Vec<String> = gb
        .chains()
        .take(400)
        .map(|c| {
            let l: Vec<usize> = c.liberties().into_iter().map(|x| x + 1).collect();
            format!("[{},{},{}]", num(c.color), c.num_stones, arr(&l))
        })
        .collect();
    let wc = pts(
        gb,
        coords(gb)
            .into_iter()
            .filter(|&c| gb.get_color(c).is_none() && g.will_capture(c)),
    );
    let hi: Vec<String> = if g.history().count() <= 12 {
        g.history().map(|b| arr(&board(b))).collect()
    } else {
        vec![]
    };
    format!(
        "{{{},\"oc\":{},\"cs\":[{}],\"lg\":{},\"wc\":{},\"tb\":{},\"tw\":{},\"sc\":[{}],\"ch\":[{}],\"hi\":[{}]}}",
        base(g),
        arr(&outcome(g.outcome())),
        cs.join(","),
        pts(gb, g.legals()),
        wc,
        pts(gb, tb.map(|p| p.coord)),
        pts(gb, tw.map(|p| p.coord)),
        sc.join(","),
        ch.join(","),
        hi.join(",")
    )
}

pub fn mirror(sid: &str, seed: u64, out: &mut Out) {
    let mut r = Rng::new(seed);
    let max = *r.pick(&[9usize, 16, 25, 36, 49, 81, 361]);
    let (h, w) = size(&mut r, max);
    let n = h * w;
    let y = r.range(1, 8);
    let v = r.below(2) as u8;
    let (h2, w2) = if y <= 4 { (h, w) } else { (w, h) };
    let ill = *r.pick(&[5u32, 5, 7, 7, 1, 0, 4, 3, 2, 6]);
    let sco = *r.pick(&[0u32, 1, 4, 5]);
    let turn = r.range(1, 2) as u8;
    let swap = |c: u8| if v == 1 && c != 0 { 3 - c } else { c };
    let b = if r.chance(25) {
        B::new(h, w)
    } else {
        position(&mut r, h, w)
    };
    let mut b2 = B::new(h2, w2);
    for i in 0..n {
        let (x, z) = image(h, w, y, i);
        b2.c[x * w2 + z] = swap(b.c[i]);
    }
    out.scenarios += 1;
    let games = guard(|| {
        Ok((
            set_up(&b, ill, sco, 0, turn)?,
            set_up(&b2, ill, sco, 0, swap(turn))?,
        ))
    })
    .and_then(|x: Result<_, String>| x);
    let (mut ga, mut gb) = match games {
        Ok(x) => x,
        Err(m) => {
            out.lines.push(format!(
                "{{\"e\":\"broken\",\"sid\":{},\"pn\":{}}}",
                jstr(sid),
                jstr(&m)
            ));
            return;
        }
    };
    let mut fs = vec![0u32, 1, 4, 5];
    if n <= 25 {
        fs.extend([2, 7]);
    }
    let mut recent: Vec<usize> = vec![];
    let mut passes = 0;
    let len = r.range(2, 10 + n.min(60));
    let pct = (100 * 25 / n).clamp(6, 100);
    let ans = |x: Result<&mut Game, goban::rules::PlayError>| x.err().map_or(0, perr);
    for k in 0..=len {
        let mut codes2 = (0, 0);
        if k > 0 {
            let step = guard(|| {
                let q = r.below(100);
                let cur = B {
                    h,
                    w,
                    c: board(ga.goban()),
                };
                if passes >= 2 && r.chance(70) {
                    ga.resume();
                    gb.resume();
                    passes = 0;
                    return (0, 0);
                }
                let pick = choose(&mut r, &cur, num(ga.turn()), &recent);
                match pick {
                    Some(i) if q >= 8 => {
                        let (x, z) = image(h, w, y, i);
                        let a = ans(ga.try_play(Move::Play((i / w) as u8, (i % w) as u8)));
                        let b = ans(gb.try_play(Move::Play(x as u8, z as u8)));
                        recent.insert(0, i);
                        let now = board(ga.goban());
                        for p in 0..n {
                            if cur.c[p] != 0 && now[p] == 0 {
                                recent.insert(0, p);
                            }
                        }
                        recent.truncate(7);
                        if a == 0 {
                            passes = 0;
                        }
                        (a, b)
                    }
                    _ if q == 0 => {
                        let c = r.range(1, 2) as u8;
                        (
                            ans(ga.try_play(Move::Resign(col(c)))),
                            ans(gb.try_play(Move::Resign(col(swap(c))))),
                        )
                    }
                    _ => {
                        let a = ans(ga.try_play(Move::Pass));
                        passes += (a == 0) as usize;
                        (a, ans(gb.try_play(Move::Pass)))
                    }
                }
            });
            match step {
                Ok(x) => codes2 = x,
                Err(m) => {
                    out.lines.push(format!(
                        "{{\"e\":\"broken\",\"sid\":{},\"pn\":{}}}",
                        jstr(sid),
                        jstr(&m)
                    ));
                    return;
                }
            }
        }
        if codes2.0 == codes2.1 && !r.chance(pct) && k < len {
            continue;
        }
        match guard(|| (side(&ga, &fs), side(&gb, &fs))) {
            Ok((a, b)) => {
                out.cost += 60 + 14 * n;
                out.lines.push(format!(
                    "{{\"e\":\"mirror\",\"sid\":{},\"h\":{h},\"w\":{w},\"ill\":{ill},\"y\":{y},\"v\":{v},\"ra\":{},\"rb\":{},\"A\":{a},\"B\":{b}}}",
                    jstr(sid), codes2.0, codes2.1
                ));
            }
            Err(m) => {
                out.lines.push(format!(
                    "{{\"e\":\"broken\",\"sid\":{},\"pn\":{}}}",
                    jstr(sid),
                    jstr(&m)
                ));
                return;
            }
        }
    }
}

// ---------------------------------------------------------------- stores of groups

pub fn store(sid: &str, seed: u64, out: &mut Out) {
    let mut r = Rng::new(seed);
    out.scenarios += 1;
    out.lines
        .push(format!("{{\"e\":\"gstart\",\"sid\":{}}}", jstr(sid)));
    let mut lines: Vec<String> = vec![];
    let res = guard(|| {
        // numbers of intersections: all of a big board, or a few close ones
        let top = *r.pick(&[361usize, 361, 361, 64, 20, 9]);
        let low = if top < 361 && r.chance(50) { 361 - top } else { 0 };
        let num_of = |r: &mut Rng| low + r.below(top);
        let cap = *r.pick(&[0usize, 4, 300]);
        let mut gs = Groups::with_capacity(cap);
        let mut alive: Vec<usize> = vec![];
        let mut rings: Vec<(usize, Vec<u16>)> = vec![];
        let steps = r.range(20, 120);
        let many = r.chance(20);
        for _ in 0..steps {
            let k = if alive.is_empty() { 0 } else { r.below(100) };
            if k < if many { 55 } else { 15 } {
                // a new group: a ring of stones and a few liberties
                let size = *r.pick(&[1usize, 1, 2, 3, 9, 40]);
                let mut ring: Vec<usize> = (0..361).collect();
                r.shuffle(&mut ring);
                ring.truncate(size);
                let mut next = vec![0u16; 361];
                for i in 0..size {
                    next[ring[i]] = ring[(i + 1) % size] as u16;
                }
                let mut l: Vec<usize> = (0..*r.pick(&[0usize, 0, 1, 2, 4, 30, 30, 300, 900]))
                    .map(|_| num_of(&mut r))
                    .collect();
                l.sort();
                l.dedup();
                let c = r.range(1, 2) as u8;
                let o = ring[0];
                let mut g = if r.chance(50) {
                    let mut z = EMPTY_LIBERTIES;
                    for &x in &l {
                        set::<true>(x, &mut z);
                    }
                    Group::new_with_liberties(col(c), o, z)
                } else {
                    let mut g = Group::new(col(c), o);
                    g.add_liberties(l.iter().copied());
                    g
                };
                g.num_stones = size as _;
                let i = gs.put_free_spot(g);
                rings.retain(|x| x.0 != i);
                rings.push((i, next));
                if !alive.contains(&i) {
                    alive.push(i);
                }
                let ring: Vec<usize> = ring.iter().map(|x| x + 1).collect();
                let l: Vec<usize> = l.iter().map(|x| x + 1).collect();
                lines.push(format!(
                    "{{\"e\":\"gput\",\"i\":{},\"c\":{c},\"o\":{},\"k\":{size},\"s\":{},\"r\":{}}}",
                    i + 1,
                    o + 1,
                    arr(&l),
                    arr(&ring)
                ));
            } else if k < if many { 60 } else { 24 } {
                let i = *r.pick(&alive);
                gs.remove(i);
                alive.retain(|&x| x != i);
                lines.push(format!("{{\"e\":\"gdrop\",\"i\":{}}}", i + 1));
            } else if k < 70 {
                let i = *r.pick(&alive);
                let g = if r.chance(50) {
                    &mut gs[i]
                } else {
                    &mut gs[nonmax::NonMaxU16::new(i as u16).unwrap()]
                };
                let x = num_of(&mut r);
                let (op, s) = match r.below(6) {
                    0 | 1 => {
                        if g.contains_liberty(x) {
                            g.remove_liberty(x);
                            ("-", vec![x])
                        } else {
                            g.add_liberty(x);
                            ("+", vec![x])
                        }
                    }
                    2 => {
                        let v = g.liberties();
                        if v.is_empty() {
                            continue;
                        }
                        let x = *r.pick(&v);
                        g.remove_liberty(x);
                        ("-", vec![x])
                    }
                    3 => {
                        let v: Vec<usize> = (0..r.below(6)).map(|_| num_of(&mut r)).collect();
                        g.union_liberties_slice(&v);
                        ("|", v)
                    }
                    4 => {
                        let j = *r.pick(&alive);
                        let o = gs[j].liberties;
                        let v: Vec<usize> = gs[j].liberties();
                        gs[i].union_liberties(o);
                        ("|", v)
                    }
                    _ => {
                        let most = *r.pick(&[40usize, 40, 40, 1200]);
                        let v: Vec<usize> = (0..r.below(most)).map(|_| num_of(&mut r)).collect();
                        let mut z = EMPTY_LIBERTIES;
                        for &x in &v {
                            set::<true>(x, &mut z);
                        }
                        if r.chance(30) {
                            let y = num_of(&mut r);
                            set::<false>(y, &mut z);
                            merge(&mut g.liberties, &z);
                            ("|", v.into_iter().filter(|&q| q != y).collect())
                        } else {
                            merge(&mut g.liberties, &z);
                            ("|", v)
                        }
                    }
                };
                let s: Vec<usize> = s.iter().map(|x| x + 1).collect();
                lines.push(format!(
                    "{{\"e\":\"gedit\",\"i\":{},\"op\":\"{op}\",\"s\":{}}}",
                    i + 1,
                    arr(&s)
                ));
                show_group(&mut lines, &gs, &rings, i, &mut r);
            } else if k < 92 {
                let i = *r.pick(&alive);
                show_group(&mut lines, &gs, &rings, i, &mut r);
            } else {
                list(&mut lines, &gs);
            }
        }
        list(&mut lines, &gs);
        for i in alive {
            show_group(&mut lines, &gs, &rings, i, &mut r);
        }
    });
    out.cost += 40 * lines.len();
    out.lines.extend(lines);
    if let Err(m) = res {
        out.lines.push(format!(
            "{{\"e\":\"broken\",\"sid\":{},\"pn\":{}}}",
            jstr(sid),
            jstr(&m)
        ));
    }
}

fn list(lines: &mut Vec<String>, gs: &Groups) {
    let f = |g: &Group| {
        format!(
            "[{},{},{}]",
            num(g.color),
            g.origin as usize + 1,
            g.number_of_liberties()
        )
    };
    let ix: Vec<usize> = gs.iter_with_index().map(|x| x.0 + 1).collect();
    let v: Vec<String> = gs.iter_with_index().map(|x| f(&x.1)).collect();
    let it: Vec<String> = gs.iter().map(f).collect();
    lines.push(format!(
        "{{\"e\":\"glist\",\"ix\":{},\"gs\":[{}],\"it\":[{}]}}",
        arr(&ix),
        v.join(","),
        it.join(",")
    ));
}

fn show_group(
    lines: &mut Vec<String>,
    gs: &Groups,
    rings: &[(usize, Vec<u16>)],
    i: usize,
    r: &mut Rng,
) {
    let g = if r.chance(50) {
        &gs[i]
    } else {
        &gs[nonmax::NonMaxU16::new(i as u16).unwrap()]
    };
    let l: Vec<usize> = g.liberties().iter().map(|x| x + 1).collect();
    let mut asks: Vec<usize> = (0..6).map(|_| r.below(361)).collect();
    asks.push(360);
    for x in l.iter().take(4) {
        asks.push(x - 1);
        asks.push(*x % 361);
    }
    let q: Vec<String> = asks
        .iter()
        .map(|&x| format!("[{},{}]", x + 1, g.contains_liberty(x)))
        .collect();
    let next = &rings.iter().find(|x| x.0 == i).unwrap().1;
    let st: Vec<usize> = g.iter(next).take(400).map(|x| x + 1).collect();
    lines.push(format!(
        "{{\"e\":\"gshow\",\"i\":{},\"l\":{},\"n\":{},\"at\":{},\"de\":{},\"q\":[{}],\"g\":[{},{},{}],\"st\":{}}}",
        i + 1,
        arr(&l),
        g.number_of_liberties(),
        g.is_atari(),
        g.is_dead(),
        q.join(","),
        num(g.color),
        g.origin as usize + 1,
        g.iter(next).len(),
        arr(&st)
    ));
}

// ---------------------------------------------------------------- names and conversions

fn rule_json(r: &Rule) -> String {
    format!(
        "\"r\":0,\"k\":{},\"ill\":{},\"sco\":{}",
        q4(r.komi),
        r.flag_illegal.bits(),
        r.flag_score.bits()
    )
}

fn cc(v: &[Coord]) -> String {
    let s: Vec<String> = v.iter().map(|c| format!("[{},{}]", c.0, c.1)).collect();
    format!("[{}]", s.join(","))
}

fn fresh(name: &str, g: &Game, h: usize, w: usize) -> String {
    let s = g.size();
    let so = g.calculate_score();
    format!(
        "{{\"e\":\"fresh\",\"n\":\"{name}\",\"h\":{h},\"w\":{w},\"z\":[{},{}],{},\"kk\":{},\"so\":[{},{}],\"nl\":{},\"oc\":{},\"nh\":{}}}",
        s.0,
        s.1,
        base(g),
        q4(g.komi()),
        q4(so.0),
        q4(so.1),
        g.legals().count(),
        arr(&outcome(g.outcome())),
        g.history().count()
    )
}

/// An empty board.
fn board_only(g: &Goban, h: usize, w: usize) -> String {
    let s = g.size();
    let (nb, nw) = g.number_of_stones();
    format!(
        "{{\"e\":\"bfresh\",\"h\":{h},\"w\":{w},\"z\":[{},{}],\"b\":{},\"ne\":[{},{}],\"ns\":[{nb},{nw}],\"ng\":{},\"zh\":{},\"eq\":{}}}",
        s.0,
        s.1,
        arr(&board(g)),
        g.get_empty_coords().count(),
        g.get_empty_idx().count(),
        g.chains().count(),
        g.zobrist_hash() == 0,
        *g == Goban::new((h as u8, w as u8)) && g.clone() == *g
    )
}

pub fn names(sid: &str, seed: u64, k: u64, run: u64, out: &mut Out) {
    let mut r = Rng::new(seed);
    out.scenarios += 1;
    let mut lines: Vec<String> = vec![];
    let res = guard(|| {
        let mut first = true;
        let mut push = |l: String| {
            lines.push(if first {
                l.replacen('{', &format!("{{\"sid\":{},", jstr(sid)), 1)
            } else {
                l
            });
            first = false;
        };
        for n in ["JAP", "CHI", "jap", "chi", "", "JAPANESE", "Chinese", "AGA", "JAP ", "CH"] {
            match Rule::from_str(n) {
                Ok(x) => push(format!("{{\"e\":\"rule\",\"n\":{},{}}}", jstr(n), rule_json(&x))),
                Err(_) => push(format!("{{\"e\":\"rule\",\"n\":{},\"r\":1}}", jstr(n))),
            }
        }
        push(format!("{{\"e\":\"rule\",\"n\":\"JAP\",{}}}", rule_json(&JAPANESE)));
        push(format!("{{\"e\":\"rule\",\"n\":\"CHI\",{}}}", rule_json(&CHINESE)));
        for n in [9usize, 13, 19, 0, 1, 10, 12, 18, 20, 90, 256 + 9, 256 + 19] {
            let x = guard(|| {
                let z: (u8, u8) = GobanSizes::from(n).into();
                let g = Game::new(n.into(), CHINESE);
                (z, g.size())
            });
            push(match x {
                Ok((z, y)) => format!(
                    "{{\"e\":\"sizes\",\"n\":{n},\"r\":0,\"z\":[{},{}],\"y\":[{},{}]}}",
                    z.0, z.1, y.0, y.1
                ),
                Err(_) => format!("{{\"e\":\"sizes\",\"n\":{n},\"r\":1}}"),
            });
        }
        for (z, n) in [
            (GobanSizes::Nine, 9),
            (GobanSizes::Thirteen, 13),
            (GobanSizes::Nineteen, 19),
        ] {
            let y: (u8, u8) = z.into();
            let g = Game::new(z, JAPANESE).size();
            push(format!(
                "{{\"e\":\"sizes\",\"n\":{n},\"r\":0,\"z\":[{},{}],\"y\":[{},{}]}}",
                y.0, y.1, g.0, g.1
            ));
        }
        for _ in 0..6 {
            let (h, w) = (
                *r.pick(&[1usize, 5, 9, 13, 19, 20, 255, 256, 257, 275, 65536 + 9]),
                r.range(1, 300),
            );
            let (h, w) = if r.chance(50) { (h, w) } else { (w, h) };
            push(
                match guard(|| -> (u8, u8) { GobanSizes::Custom(h, w).into() }) {
                    Ok(z) => format!(
                        "{{\"e\":\"custom\",\"h\":{h},\"w\":{w},\"r\":0,\"z\":[{},{}]}}",
                        z.0, z.1
                    ),
                    Err(_) => format!("{{\"e\":\"custom\",\"h\":{h},\"w\":{w},\"r\":1}}"),
                },
            );
        }
        push(fresh("CHI", &Game::default(), 19, 19));
        push(fresh("CHI", &Game::builder().build().unwrap(), 19, 19));
        push(fresh("JAP", &Game::builder().rule(JAPANESE).build().unwrap(), 19, 19));
        push(board_only(&Goban::default(), 19, 19));
        for _ in 0..3 {
            let (h, w) = (r.range(1, 19), r.range(1, 19));
            push(board_only(&Goban::new((h as u8, w as u8)), h, w));
        }
        let (h, w) = (r.range(1, 19), r.range(2, 19));
        push(fresh("JAP", &Game::new(GobanSizes::Custom(h, w), JAPANESE), h, w));
        push(fresh("CHI", &Game::new(GobanSizes::Custom(h, w), CHINESE), h, w));
        push(fresh("CHI", &Game::new(GobanSizes::Nine, CHINESE), 9, 9));
        push(fresh("JAP", &Game::new(GobanSizes::Thirteen, JAPANESE), 13, 13));
        // colours, points, stones
        let bw = [Color::Black, Color::White];
        let c = (r.range(0, 255) as u8, r.range(0, 255) as u8);
        let p = |k: Option<Color>| Point { coord: c, color: k };
        let un: Vec<u8> = bw.iter().map(|&k| num(Color::from(Some(k)))).collect();
        let ue = guard(|| Color::from(None)).is_err() as u8;
        let ts: Vec<u8> = bw
            .iter()
            .map(|&k| Stone::try_from(p(Some(k))).map_or(0, |s| num(s.color)))
            .collect();
        let te = Stone::try_from(p(None)).is_err() as u8;
        let st: Stone = (c, Color::White).into();
        let pt: Point = (c, Some(Color::Black)).into();
        let pe: Point = (c, None).into();
        let mut back = vec![st.coord, pt.coord, pe.coord, Coord::from(st), Coord::from(pt)];
        back.push(Stone::try_from(pt).unwrap().coord);
        if let Move::Play(x, y) = Move::from(c) {
            back.push((x, y));
        }
        if num(st.color) == 2 && mnum(pt.color) == 1 && mnum(pe.color) == 0 {
            back.push(c);
        }
        let q = 5.5f32;
        let ends = [
            EndGame::WinnerByScore(Color::Black, q),
            EndGame::WinnerByScore(Color::White, q),
            EndGame::WinnerByResign(Color::Black),
            EndGame::WinnerByResign(Color::White),
            EndGame::WinnerByTime(Color::Black),
            EndGame::WinnerByTime(Color::White),
            EndGame::WinnerByForfeit(Color::Black),
            EndGame::WinnerByForfeit(Color::White),
            EndGame::Draw,
        ];
        let wn: Vec<String> = ends
            .iter()
            .map(|&e| {
                let o = outcome(Some(e));
                format!("[{},{},{}]", o[0], o[1], mnum(e.get_winner()))
            })
            .collect();
        push(format!(
            "{{\"e\":\"colors\",\"no\":[{},{}],\"nm\":[{},{}],\"nu\":[{},{}],\"un\":{},\"ue\":{ue},\"ts\":{},\"te\":{te},\"co\":{},\"cx\":{},\"wn\":[{}]}}",
            num(!Color::Black),
            num(!Color::White),
            jstr(&Color::Black.to_string()),
            jstr(&Color::White.to_string()),
            Color::Black as u8,
            Color::White as u8,
            arr(&un),
            arr(&ts),
            cc(&vec![c; 8]),
            cc(&back),
            wn.join(",")
        ));
        // coordinates
        for j in 0..6u64 {
            let i = ((run * 131 + k * 6 + j) * 67 % 361) as usize;
            let (h, w) = (i / 19 + 1, i % 19 + 1);
            let z = (h as u8, w as u8);
            let n = h * w;
            let rc: Vec<Coord> = (0..n).map(|i| ((i / w) as u8, (i % w) as u8)).collect();
            let ix: Vec<usize> = rc
                .iter()
                .map(|&c| {
                    if r.chance(50) {
                        two_to_1dim(z, c)
                    } else {
                        c.into_idx(z)
                    }
                })
                .collect();
            let crd: Vec<Coord> = (0..n).map(|i| one_to_2dim(z, i)).collect();
            let id: Vec<Coord> = (0..n)
                .map(|i| {
                    if r.chance(70) {
                        i.into_coord(z)
                    } else {
                        rc[i.into_idx(z)].into_coord(z)
                    }
                })
                .collect();
            let on = |v: &[Coord]| -> Vec<Coord> {
                v.iter()
                    .copied()
                    .filter(|c| (c.0 as usize) < h && (c.1 as usize) < w)
                    .collect()
            };
            let many = |f: &dyn Fn(Coord) -> Vec<Coord>| -> String {
                let s: Vec<String> = rc.iter().map(|&c| cc(&f(c))).collect();
                format!("[{}]", s.join(","))
            };
            let va: Vec<String> = (0..30)
                .map(|_| {
                    let pickc = |r: &mut Rng, m: usize| match r.below(4) {
                        0 => r.below(256),
                        1 => m.min(255),
                        2 => m - 1,
                        _ => r.below(m),
                    };
                    let c = (pickc(&mut r, h) as u8, pickc(&mut r, w) as u8);
                    format!("[{},{},{}]", c.0, c.1, is_coord_valid(z, c))
                })
                .collect();
            push(format!(
                "{{\"e\":\"grid\",\"h\":{h},\"w\":{w},\"ix\":{},\"rc\":{},\"id\":{},\"nb\":{},\"nu\":{},\"dg\":{},\"va\":[{}]}}",
                arr(&ix),
                cc(&crd),
                cc(&id),
                many(&|c| valid_coords(c, z).into_iter().collect()),
                many(&|c| on(&neighbor_coords(c))),
                many(&|c| on(&corner_points(c))),
                va.join(",")
            ));
        }
    });
    out.cost += 9000;
    out.lines.extend(lines);
    if let Err(m) = res {
        out.lines.push(format!(
            "{{\"e\":\"broken\",\"sid\":{},\"pn\":{}}}",
            jstr(sid),
            jstr(&m)
        ));
    }
}
