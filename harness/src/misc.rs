//! Scenarios that are not plain games: starts, presets, comparisons, edits, off-board
//! attempts, builder configurations.
use crate::drive::*;
use crate::gen::{position, size, B};
use crate::obs::*;
use crate::util::{arr, jstr, Rng};
use goban::pieces::goban::Goban;
use goban::pieces::stones::{Color, Stone};
use goban::rules::game::Game;
use goban::rules::game_builder::GameBuilder;
use goban::rules::{EndGame, GobanSizes, Move, PlayError, CHINESE, JAPANESE};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn cpts(v: &[(u8, u8)]) -> String {
    let s: Vec<String> = v.iter().map(|p| format!("[{},{}]", p.0, p.1)).collect();
    format!("[{}]", s.join(","))
}

fn some_points(r: &mut Rng, h: usize, w: usize, k: usize) -> Vec<(u8, u8)> {
    let mut v: Vec<(u8, u8)> = (0..h * w).map(|i| ((i / w) as u8, (i % w) as u8)).collect();
    r.shuffle(&mut v);
    v.truncate(k);
    v
}

fn broken(sid: &str, m: &str, out: &mut Out) {
    out.lines.push(format!(
        "{{\"e\":\"broken\",\"sid\":{},\"pn\":{}}}",
        jstr(sid),
        jstr(m)
    ));
}

/// Who moves first, in every way of starting a game.
pub fn starts(prop: &str, sid: &str, seed: u64, out: &mut Out) {
    let mut r = Rng::new(seed);
    let (h, w) = loop {
        let s = size(&mut r, 100);
        if s.0 * s.1 >= 4 {
            break s;
        }
    };
    let (ill, sco, k4) = (rule_for(prop, &mut r), r.below(8) as u32, 26);
    let kind = r.below(6);
    let tg = if r.chance(50) { r.range(1, 2) } else { 0 };
    let k = r.range(1, 3);
    let hp = some_points(&mut r, h, w, k);
    let mut hc = 0;
    let mut tgl = 0;
    let mut late = None;
    let res = guard(|| match kind {
        0 => Ok(Game::new(GobanSizes::Custom(h, w), rule(ill, sco, k4))),
        1 | 5 => {
            // handicap on an existing game
            late = Some(hp.clone());
            Ok(Game::new(GobanSizes::Custom(h, w), rule(ill, sco, k4)))
        }
        2 => {
            let mut b = Game::builder();
            b.size((h as u8, w as u8)).rule(rule(ill, sco, k4));
            b.put_handicap(&hp);
            hc = hp.len();
            if tg > 0 {
                tgl = tg;
                b.turn(col(tg as u8));
            }
            b.build()
        }
        3 => {
            let mut b = Game::builder();
            if tg > 0 {
                tgl = tg;
                b.turn(col(tg as u8));
            }
            b.handicap(k as u32)
                .size((h as u8, w as u8))
                .rule(rule(ill, sco, k4));
            hc = k;
            b.build()
        }
        _ => {
            let mut b = Game::builder();
            b.size((h as u8, w as u8)).rule(rule(ill, sco, k4));
            if tg > 0 {
                tgl = tg;
                b.turn(col(tg as u8));
            }
            for &p in &hp {
                b.add(Stone {
                    coord: p,
                    color: Color::White,
                });
            }
            b.build()
        }
    })
    .and_then(|x| x);
    let g = match res {
        Ok(g) => g,
        Err(m) => return broken(sid, &m, out),
    };
    let mut s = Sc {
        prop,
        g,
        ill,
        out,
        r,
        dead: false,
        recent: vec![],
        obs_pct: 100,
        last_base: String::new(),
    };
    s.start(
        sid,
        sco,
        k4,
        &format!(",\"hc\":{hc},\"tg\":{tgl},\"first\":1"),
    );
    if let Some(p) = late {
        let r = guard(|| s.g.put_handicap(&p));
        let pn = r
            .err()
            .map_or(String::new(), |m| format!(",\"pn\":{}", jstr(&m)));
        let b = base(&s.g);
        s.out
            .lines
            .push(format!("{{\"e\":\"hand\",\"pts\":{}{pn},{b}}}", cpts(&p)));
    }
    play_on(&mut s);
}

/// Games with a preset result.
pub fn preset(prop: &str, sid: &str, seed: u64, out: &mut Out) {
    let mut r = Rng::new(seed);
    let (h, w) = size(&mut r, 60);
    let (ill, sco, k4) = (rule_for(prop, &mut r), r.below(8) as u32, 26);
    let oc = preset_outcome(&mut r);
    let g = guard(|| {
        Game::builder()
            .outcome(oc)
            .size((h as u8, w as u8))
            .rule(rule(ill, sco, k4))
            .build()
    })
    .and_then(|x| x);
    let g = match g {
        Ok(g) => g,
        Err(m) => return broken(sid, &m, out),
    };
    let mut s = Sc {
        prop,
        g,
        ill,
        out,
        r,
        dead: false,
        recent: vec![],
        obs_pct: 100,
        last_base: String::new(),
    };
    let e = format!(",\"pre\":{}", arr(&outcome(Some(oc))));
    s.start(sid, sco, k4, &e);
    play_on(&mut s);
}

// ---------------------------------------------------------------- comparisons

fn push_all(h: usize, w: usize, c: &[u8], order: &[usize]) -> Goban {
    let mut g = Goban::new((h as u8, w as u8));
    for &i in order {
        if c[i] != 0 {
            g.push(((i / w) as u8, (i % w) as u8), col(c[i]));
        }
    }
    g
}

fn std_hash(g: &Goban) -> u64 {
    let mut s = DefaultHasher::new();
    g.hash(&mut s);
    s.finish()
}

/// Two different positions with the same key combination, found by elimination over GF(2).
fn collision(r: &mut Rng, h: usize, w: usize) -> Option<(Vec<u8>, Vec<u8>)> {
    let n = h * w;
    let mut pts: Vec<(usize, u8)> = (0..n).map(|i| (i, 1 + r.below(2) as u8)).collect();
    r.shuffle(&mut pts);
    let mut basis: Vec<(u64, Vec<usize>)> = vec![];
    for (k, &(i, c)) in pts.iter().enumerate() {
        let mut g = Goban::new((h as u8, w as u8));
        g.push(((i / w) as u8, (i % w) as u8), col(c));
        let mut v = g.zobrist_hash();
        let mut set = vec![k];
        for (bv, bs) in &basis {
            if v & (1 << (63 - bv.leading_zeros())) != 0 {
                v ^= bv;
                for &x in bs {
                    if let Some(p) = set.iter().position(|&y| y == x) {
                        set.remove(p);
                    } else {
                        set.push(x);
                    }
                }
            }
        }
        if v == 0 {
            let (mut a, mut b) = (vec![0u8; n], vec![0u8; n]);
            let split = r.chance(50);
            for x in set {
                let (i, c) = pts[x];
                if split && r.chance(50) {
                    b[i] = c;
                } else {
                    a[i] = c;
                }
            }
            return Some((a, b));
        }
        // keep the basis reduced: leading bits strictly decreasing on reduction order
        basis.push((v, set));
        basis.sort_by(|x, y| y.0.cmp(&x.0));
    }
    None
}

pub fn compare(sid: &str, seed: u64, out: &mut Out) {
    let mut r = Rng::new(seed);
    let (h, w) = loop {
        let s = size(&mut r, 361);
        if s.0 * s.1 >= 2 {
            break s;
        }
    };
    let n = h * w;
    out.scenarios += 1;
    for _ in 0..4 {
        let a = position(&mut r, h, w).c;
        let mut o1: Vec<usize> = (0..n).collect();
        let mut o2 = o1.clone();
        r.shuffle(&mut o1);
        r.shuffle(&mut o2);
        let kind = r.below(8);
        let (h2, w2) = match r.below(3) {
            _ if kind != 7 => (h, w),
            0 => (w, h),
            1 => (1 + r.below(19), w),
            _ => (h, 1 + r.below(19)),
        };
        let made = guard(|| -> (Goban, Goban) {
            match kind {
                7 => {
                    // boards of two sizes: empty, with the same indices, or with the same coordinates
                    let mut x = Goban::new((h as u8, w as u8));
                    let mut y = Goban::new((h2 as u8, w2 as u8));
                    let how = r.below(3);
                    for &i in &o1 {
                        let (p, q) = ((i / w) as u8, (i % w) as u8);
                        if how == 1 && i < h2 * w2 && a[i] != 0 {
                            x.push((p, q), col(a[i]));
                            y.push(((i / w2) as u8, (i % w2) as u8), col(a[i]));
                        }
                        if how == 2 && (p as usize) < h2 && (q as usize) < w2 && a[i] != 0 {
                            x.push((p, q), col(a[i]));
                            y.push((p, q), col(a[i]));
                        }
                    }
                    if r.chance(50) {
                        (x, y)
                    } else {
                        (y, x)
                    }
                }
                0 => (push_all(h, w, &a, &o1), push_all(h, w, &a, &o2)),
                1 => {
                    // through another position that is taken away again
                    let junk = position(&mut r, h, w).c;
                    let mut g = push_all(h, w, &junk, &o1);
                    loop {
                        let v = group_idxs(&g);
                        if v.is_empty() {
                            break;
                        }
                        let i = *r.pick(&v);
                        g.remove_chain(i);
                    }
                    for &i in &o2 {
                        if a[i] != 0 {
                            g.push(((i / w) as u8, (i % w) as u8), col(a[i]));
                        }
                    }
                    (g, push_all(h, w, &a, &o1))
                }
                2 => {
                    // through a game with captures
                    let b = B { h, w, c: a.clone() };
                    let ill = *r.pick(&[5u32, 1, 7, 0]);
                    let mut g = set_up(&b, ill, 0, 0, 1).unwrap();
                    let mut recent = vec![];
                    for _ in 0..30 {
                        let bd = B {
                            h,
                            w,
                            c: board(g.goban()),
                        };
                        let t = num(g.turn());
                        if let Some(i) = crate::gen::choose(&mut r, &bd, t, &recent) {
                            let _ = g.try_play(Move::Play((i / w) as u8, (i % w) as u8));
                            recent.push(i);
                            if recent.len() > 6 {
                                recent.remove(0);
                            }
                        }
                    }
                    let c = board(g.goban());
                    (g.goban().clone(), push_all(h, w, &c, &o2))
                }
                3 | 4 => {
                    // a small difference
                    let mut b = a.clone();
                    let i = r.below(n);
                    let j = r.below(n);
                    match r.below(4) {
                        0 => b[i] = (b[i] + 1) % 3,
                        1 => b[i] = (b[i] + 2) % 3,
                        2 => b.swap(i, j),
                        _ => {
                            for x in b.iter_mut() {
                                *x = (3 - *x) % 3
                            }
                        }
                    }
                    (push_all(h, w, &a, &o1), push_all(h, w, &b, &o2))
                }
                5 => match collision(&mut r, h, w) {
                    Some((a, b)) => (push_all(h, w, &a, &o1), push_all(h, w, &b, &o2)),
                    None => (push_all(h, w, &a, &o1), Goban::new((h as u8, w as u8))),
                },
                _ => {
                    let g = push_all(h, w, &a, &o1);
                    (g.clone(), g)
                }
            }
        });
        match made.and_then(|(x, y)| {
            guard(|| {
                format!(
                    "{{\"e\":\"cmp\",\"sid\":{},\"kind\":{},\"sa\":[{},{}],\"sb\":[{},{}],\"a\":{},\"b\":{},\"eq\":{},\"qe\":{},\"he\":{},\"ha\":{},\"hb\":{}}}",
                    jstr(sid),
                    kind,
                    x.size().0,
                    x.size().1,
                    y.size().0,
                    y.size().1,
                    arr(&board(&x)),
                    arr(&board(&y)),
                    x == y,
                    y == x,
                    std_hash(&x) == std_hash(&y),
                    arr(&words(x.zobrist_hash())),
                    arr(&words(y.zobrist_hash()))
                )
            })
        }) {
            Ok(l) => {
                out.lines.push(l);
                out.cost += 30 + 2 * n;
            }
            Err(m) => return broken(sid, &m, out),
        }
    }
}

// ---------------------------------------------------------------- direct edits

pub fn edits(prop: &str, sid: &str, seed: u64, k: u64, out: &mut Out) {
    let mut r = Rng::new(seed);
    // the first ones of a run are about big boards
    let big = [10usize, 13, 12, 11, 8, 9]
        .get(k as usize / if prop == "C02" { 5 } else { 3 })
        .copied();
    let big = if prop == "C19" {
        [10usize, 13, 12, 11, 8, 9].get(k as usize).copied()
    } else {
        big
    };
    let (h, w) = if big.is_some() {
        (19, 19)
    } else {
        loop {
            let m = if r.chance(80) { 50 } else { 361 };
            let s = size(&mut r, m);
            if s.0 * s.1 >= 2 {
                break s;
            }
        }
    };
    let n = h * w;
    out.scenarios += 1;
    let key = keys_of(h, w);
    let ob = |g: &Goban| {
        format!(
            "\"b\":{},\"o\":{{{},\"hs\":{}}}",
            arr(&board(g)),
            groups(g),
            arr(&words(g.zobrist_hash()))
        )
    };
    let start = match big {
        Some(13) => {
            // a board full of lone stones but for some squares
            let mut c: Vec<u8> = (0..n).map(|i| 1 + ((i / w + i % w) % 2) as u8).collect();
            for _ in 0..r.range(2, 5) {
                let (y, x) = (r.below(h), r.below(w));
                let side = r.range(2, 4);
                for i in 0..n {
                    if (i / w).abs_diff(y) * 2 < side && (i % w).abs_diff(x) * 2 < side {
                        c[i] = 0;
                    }
                }
            }
            c
        }
        Some(b) => crate::gen::position_of(&mut r, h, w, b).c,
        None => position(&mut r, h, w).c,
    };
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    let st = guard(|| push_all(h, w, &start, &order));
    let mut g = match st {
        Ok(g) => g,
        Err(m) => return broken(sid, &m, out),
    };
    match guard(|| ob(&g)) {
        Ok(o) => out.lines.push(format!(
            "{{\"e\":\"estart\",\"sid\":{},\"h\":{h},\"w\":{w},\"keys\":[{key}],{o}}}",
            jstr(sid)
        )),
        Err(m) => return broken(sid, &m, out),
    }
    out.cost += 20 + 3 * n;
    let bias = *r.pick(&[50usize, 50, 80, 20]);
    let full = *r.pick(&[100usize, 95, 70]); // how full the board may get
    let many = matches!(big, Some(12 | 13));
    let steps = if n <= 50 {
        60
    } else if many {
        30
    } else {
        12
    };
    for step in 0..steps {
        let b = B { h, w, c: board(&g) };
        let es = b.empties();
        let huge = step == 3 && big == Some(10);
        let push = !huge
            && !es.is_empty()
            && r.chance(if (n - es.len()) * 100 > full * n {
                10
            } else {
                75
            });
        let ev;
        let before = g.clone();
        if push && r.chance(15) {
            // several stones by one call: around a point, anywhere, or every empty point left
            let c = if r.chance(bias) { 1u8 } else { 2 };
            let mut ps = match r.below(8) {
                0 if n <= 50 => es.clone(),
                0..=3 => {
                    let at = *r.pick(&es);
                    let mut v: Vec<usize> =
                        b.nb(at).into_iter().filter(|&q| b.c[q] == 0).collect();
                    v.push(at);
                    v
                }
                _ => {
                    let k = r.range(0, 12);
                    let mut v = es.clone();
                    r.shuffle(&mut v);
                    v.truncate(k);
                    v
                }
            };
            if r.chance(50) {
                r.shuffle(&mut ps);
            }
            let xys: Vec<(u8, u8)> = ps.iter().map(|&i| ((i / w) as u8, (i % w) as u8)).collect();
            let p = guard(|| g.push_many(&xys, col(c)))
                .err()
                .map_or(String::new(), |m| format!(",\"pn\":{}", jstr(&m)));
            let ps: Vec<usize> = ps.iter().map(|i| i + 1).collect();
            ev = format!("\"e\":\"many\",\"ps\":{},\"c\":{c}{p}", arr(&ps));
        } else if push {
            let c = if r.chance(bias) { 1u8 } else { 2 };
            let lone = es.iter().copied().find(|&i| b.friends(i, c) == 1);
            let i = if many && lone.is_some() && r.chance(70) {
                lone.unwrap()
            } else if r.chance(60) {
                let m = es
                    .iter()
                    .copied()
                    .max_by_key(|&i| b.friends(i, c) * 8 + r.below(8))
                    .unwrap();
                m
            } else {
                *r.pick(&es)
            };
            let xy = ((i / w) as u8, (i % w) as u8);
            let how = r.below(3);
            let res = guard(|| match how {
                0 => {
                    g.push(xy, col(c));
                }
                1 => {
                    g.push_stone(Stone {
                        coord: xy,
                        color: col(c),
                    });
                }
                _ => g.push_many(&[xy], col(c)),
            });
            let p = res
                .err()
                .map_or(String::new(), |m| format!(",\"pn\":{}", jstr(&m)));
            ev = format!("\"e\":\"push\",\"x\":{},\"y\":{},\"c\":{c}{p}", xy.0, xy.1);
        } else {
            let v = group_idxs(&g);
            if v.is_empty() {
                continue;
            }
            let i = if huge || r.chance(25) {
                v.iter()
                    .copied()
                    .max_by_key(|&i| stones_of(&g, i).1.len())
                    .unwrap()
            } else {
                *r.pick(&v)
            };
            let st = stones_of(&g, i);
            let res = guard(|| g.remove_chain(i));
            let p = res
                .err()
                .map_or(String::new(), |m| format!(",\"pn\":{}", jstr(&m)));
            ev = format!("\"e\":\"rm\",\"st\":{}{p}", arr(&st.1));
        }
        let bad = ev.contains("\"pn\"");
        match guard(|| ob(if bad { &before } else { &g })) {
            Ok(o) => out.lines.push(format!("{{{ev},{o}}}")),
            Err(m) => {
                let o = ob(&before);
                out.lines.push(format!("{{{ev},{o},\"pn\":{}}}", jstr(&m)));
                return;
            }
        }
        out.cost += 20 + 3 * n;
        if bad {
            return;
        }
        let _ = prop;
    }
}

/// Very many groups come and go on a big board that holds many; only the end is shown,
/// next to the stones that should be there.
pub fn long_edits(sid: &str, seed: u64, out: &mut Out) {
    let mut r = Rng::new(seed);
    let (h, w) = *r.pick(&[(19usize, 19usize), (19, 17), (18, 19)]);
    let n = h * w;
    out.scenarios += 1;
    let cycles = if cfg!(debug_assertions) { 75_000 } else { 180_000 };
    let nb = |i: usize| B::new(h, w).nb(i);
    let beside: Vec<Vec<usize>> = (0..n).map(nb).collect();
    let at = |i: usize| ((i / w) as u8, (i % w) as u8);
    let res = guard(|| {
        let mut g = Goban::new((h as u8, w as u8));
        let mut b = vec![0u8; n];
        // many lone stones that stay
        for i in (0..n).filter(|i| (i / w) % 2 == 0 && (i % w) % 2 == 0) {
            b[i] = 1 + r.below(2) as u8;
            g.push(at(i), col(b[i]));
        }
        // stones between them come in a burst and go again, group by group
        let mut extra: Vec<usize> = vec![];
        for step in 0..cycles {
            let lim = if step % 997 < 500 { 1 } else { 6 };
            if extra.len() >= lim {
                let i = extra.swap_remove(r.below(extra.len()));
                if b[i] == 0 {
                    continue;
                }
                // the group of the point, by the flood fill of the harness
                let mut grp = vec![i];
                let mut k = 0;
                while k < grp.len() {
                    for &q in &beside[grp[k]] {
                        if b[q] == b[i] && !grp.contains(&q) {
                            grp.push(q);
                        }
                    }
                    k += 1;
                }
                let id = g
                    .get_connected_groups_idx(at(beside[i][0]))
                    .into_iter()
                    .find(|&id| g.chain_stones(id).take(n).any(|s| s.coord == at(i)));
                let Some(id) = id else {
                    return Err(format!("no group number for the stone on {:?}", at(i)));
                };
                g.remove_chain(id);
                for q in grp {
                    b[q] = 0;
                    // the lone stones come back later
                    if (q / w) % 2 == 0 && (q % w) % 2 == 0 {
                        let c = 1 + r.below(2) as u8;
                        b[q] = c;
                        g.push(at(q), col(c));
                    }
                }
            } else {
                // mostly on points that touch none of the stones that stay
                let odd = |i: usize| (i / w) % 2 + (i % w) % 2;
                let far = if r.chance(85) { 2 } else { 1 };
                let i = (0..50)
                    .map(|_| r.below(n))
                    .find(|&i| b[i] == 0 && odd(i) >= far);
                if let Some(i) = i {
                    b[i] = 1 + r.below(2) as u8;
                    g.push(at(i), col(b[i]));
                    extra.push(i);
                }
            }
        }
        Ok((g, b))
    });
    let (g, b) = match res.and_then(|x| x) {
        Ok(x) => x,
        Err(m) => return broken(sid, &m, out),
    };
    let key = match guard(|| keys_of(h, w)) {
        Ok(k) => k,
        Err(m) => return broken(sid, &m, out),
    };
    match guard(|| {
        format!(
            "\"c\":{},\"o\":{{{},\"hs\":{}}}",
            arr(&board(&g)),
            groups(&g),
            arr(&words(g.zobrist_hash()))
        )
    }) {
        Ok(o) => out.lines.push(format!(
            "{{\"e\":\"lstart\",\"sid\":{},\"h\":{h},\"w\":{w},\"keys\":[{key}],\"b\":{},{o}}}",
            jstr(sid),
            arr(&b)
        )),
        Err(m) => broken(sid, &m, out),
    }
    out.cost += 20 + 3 * n;
}

/// The hash of a board with one stone, for every point and both colours.
fn keys_of(h: usize, w: usize) -> String {
    (0..h * w)
        .map(|i| {
            let k: Vec<String> = [Color::Black, Color::White]
                .iter()
                .map(|&c| {
                    let mut g = Goban::new((h as u8, w as u8));
                    g.push(((i / w) as u8, (i % w) as u8), c);
                    arr(&words(g.zobrist_hash()))
                })
                .collect();
            format!("[{}]", k.join(","))
        })
        .collect::<Vec<_>>()
        .join(",")
}

// ---------------------------------------------------------------- off the board

pub fn offboard(sid: &str, seed: u64, out: &mut Out) {
    let mut r = Rng::new(seed);
    let (h, w) = size(&mut r, 361);
    let n = h * w;
    let ill = rule_for("C13", &mut r);
    let t = 1 + r.below(2) as u8;
    let mut b = position(&mut r, h, w);
    if r.chance(40) {
        b = B::new(h, w);
    }
    let mut g = match set_up(&b, ill, 0, 26, t) {
        Ok(g) => g,
        Err(m) => return broken(sid, &m, out),
    };
    out.scenarios += 1;
    // a few plays, so that prisoners and history are not trivial
    for _ in 0..r.below(6) {
        let bd = B {
            h,
            w,
            c: board(g.goban()),
        };
        if let Some(i) = crate::gen::choose(&mut r, &bd, num(g.turn()), &[]) {
            let _ = guard(|| g.try_play(Move::Play((i / w) as u8, (i % w) as u8)).is_ok());
        }
    }
    out.lines.push(format!(
        "{{\"e\":\"start\",\"sid\":{},\"h\":{h},\"w\":{w},\"ill\":{ill},\"sco\":0,\"k\":26,{}}}",
        jstr(sid),
        base(&g)
    ));
    for _ in 0..14 {
        let (x, y): (u8, u8) = match r.below(6) {
            0 => (h as u8, r.below(w) as u8),
            1 | 2 => (r.below(h) as u8, w as u8),
            3 => (r.below(h) as u8, r.range(w, 255) as u8),
            4 => (r.range(h, 255) as u8, r.below(w) as u8),
            _ => (r.range(h, 255) as u8, r.range(w, 255) as u8),
        };
        let op = *r.pick(&[
            "try",
            "try",
            "try",
            "raw",
            "raw",
            "push",
            "push_stone",
            "push_many",
            "hand",
            "b_add",
            "b_hand",
            "b_move",
        ]);
        let mut gb = g.goban().clone();
        let c = if r.chance(50) {
            Color::Black
        } else {
            Color::White
        };
        let mut used_gb = false;
        let mut trial = g.clone();
        let res: Result<Result<(), String>, String> = guard(|| match op {
            "try" => trial
                .try_play(Move::Play(x, y))
                .map(|_| ())
                .map_err(|e: PlayError| format!("{e:?}")),
            "raw" => {
                trial.play(Move::Play(x, y));
                Ok(())
            }
            "push" => {
                used_gb = true;
                gb.push((x, y), c);
                Ok(())
            }
            "push_stone" => {
                used_gb = true;
                gb.push_stone(Stone {
                    coord: (x, y),
                    color: c,
                });
                Ok(())
            }
            "push_many" => {
                used_gb = true;
                gb.push_many(&[(x, y)], c);
                Ok(())
            }
            "hand" => {
                trial.put_handicap(&[(x, y)]);
                Ok(())
            }
            "b_add" => Game::builder()
                .size((h as u8, w as u8))
                .add(Stone {
                    coord: (x, y),
                    color: c,
                })
                .build()
                .map(|_| ()),
            "b_hand" => Game::builder()
                .size((h as u8, w as u8))
                .put_handicap(&[(x, y)])
                .build()
                .map(|_| ()),
            _ => Game::builder()
                .size((h as u8, w as u8))
                .moves(&[Move::Play(x, y)])
                .build()
                .map(|_| ()),
        });
        let rs = match res {
            Ok(Ok(())) => 0,
            Ok(Err(_)) => 1,
            Err(_) => 9,
        };
        // the state after the attempt; the game goes on from it
        g = trial;
        let p = g.prisoners();
        let post = guard(|| {
            if used_gb {
                arr(&board(&gb))
            } else {
                arr(&board(g.goban()))
            }
        })
        .unwrap_or("[]".to_string());
        out.lines.push(format!(
            "{{\"e\":\"off\",\"op\":\"{op}\",\"x\":{x},\"y\":{y},\"r\":{rs},\"b\":{post},\"t\":{},\"p\":[{},{}],\"ov\":{}}}",
            num(g.turn()),
            p.0,
            p.1,
            g.is_over()
        ));
        out.cost += 20 + n / 2;
    }
    // sizes
    for _ in 0..4 {
        let (a, b) = match r.below(6) {
            0 => (20 + r.below(300), 1 + r.below(19)),
            1 => (1 + r.below(19), 20 + r.below(300)),
            2 => (20 + r.below(236), 20 + r.below(236)),
            3 => (256 + r.below(20), 256 + r.below(20)),
            4 => (r.range(1, 19), r.range(1, 19)),
            _ => (20, 20),
        };
        let op = r.below(4);
        let small = a < 256 && b < 256;
        let res = guard(|| -> Result<(usize, usize), String> {
            match op {
                0 => Ok(dims(Game::new(GobanSizes::Custom(a, b), JAPANESE).goban())),
                1 if small => Ok(dims(&Goban::new((a as u8, b as u8)))),
                2 if small => Game::builder()
                    .size((a as u8, b as u8))
                    .rule(CHINESE)
                    .build()
                    .map(|g| dims(g.goban())),
                _ => Game::from_sgf(&format!("(;SZ[{b}:{a}])")).map(|g| dims(g.goban())),
            }
        });
        let (rs, gh, gw) = match res {
            Ok(Ok((x, y))) => (0, x, y),
            Ok(Err(_)) => (1, 0, 0),
            Err(_) => (9, 0, 0),
        };
        out.lines.push(format!(
            "{{\"e\":\"size\",\"op\":{op},\"h\":{a},\"w\":{b},\"r\":{rs},\"gh\":{gh},\"gw\":{gw}}}"
        ));
        out.cost += 5;
    }
}

// ---------------------------------------------------------------- builder

pub fn moves_json(m: &[Move]) -> String {
    let v: Vec<String> = m
        .iter()
        .map(|m| match m {
            Move::Play(x, y) => format!("[0,{x},{y}]"),
            Move::Pass => "[1,0,0]".to_string(),
            Move::Resign(c) => format!("[2,{},0]", num(*c)),
        })
        .collect();
    format!("[{}]", v.join(","))
}

/// Random legal continuation of a game; never more than two passes in a row.
pub fn continuation(r: &mut Rng, g: &Game, k: usize, resign: bool) -> Vec<Move> {
    let mut g = g.clone();
    let mut out = vec![];
    let mut streak = 0;
    let mut recent = vec![];
    for _ in 0..k {
        let (h, w) = dims(g.goban());
        let bd = B {
            h,
            w,
            c: board(g.goban()),
        };
        if streak < 2 && r.chance(10) {
            out.push(Move::Pass);
            g.play(Move::Pass);
            streak += 1;
            continue;
        }
        if resign && r.chance(2) {
            let m = Move::Resign(col(r.range(1, 2) as u8));
            out.push(m);
            g.play(m);
            continue;
        }
        if let Some(i) = crate::gen::choose(r, &bd, num(g.turn()), &recent) {
            let (x, y) = ((i / w) as u8, (i % w) as u8);
            recent.insert(0, i);
            recent.truncate(5);
            if g.check_point((x, y)).is_none() {
                let m = Move::Play(x, y);
                out.push(m);
                g.play(m);
                streak = 0;
                let after = board(g.goban());
                for q in 0..bd.n() {
                    if bd.c[q] != 0 && after[q] == 0 && recent.len() < 8 {
                        recent.push(q);
                    }
                }
            }
        }
    }
    out
}

/// A call of the builder.
#[derive(Clone, Debug)]
pub enum Call {
    Size(u8, u8),
    Rule(u32, u32, i64),
    Komi(i64),
    Points(Vec<(u8, u8)>),
    Handicap(u32),
    Turn(u8),
    Add((u8, u8), u8),
    Outcome(EndGame),
    Moves(Vec<Move>),
    Names,
}

impl Call {
    pub fn make(&self, bu: &mut GameBuilder) {
        match self {
            Call::Size(h, w) => bu.size((*h, *w)),
            Call::Rule(i, s, k) => bu.rule(rule(*i, *s, *k)),
            Call::Komi(k) => bu.komi(*k as f32 / 4.0),
            Call::Points(v) => bu.put_handicap(v),
            Call::Handicap(n) => bu.handicap(*n),
            Call::Turn(c) => bu.turn(col(*c)),
            Call::Add(p, c) => bu.add(Stone {
                coord: *p,
                color: col(*c),
            }),
            Call::Outcome(o) => bu.outcome(*o),
            Call::Moves(m) => bu.moves(m),
            Call::Names => bu.black_player("b").white_player("w"),
        };
    }
    fn json(&self) -> String {
        match self {
            Call::Size(h, w) => format!("[0,{h},{w}]"),
            Call::Rule(i, s, k) => format!("[1,{i},{s},{k}]"),
            Call::Komi(k) => format!("[2,{k}]"),
            Call::Points(v) => format!("[3,{}]", cpts(v)),
            Call::Handicap(n) => format!("[4,{n}]"),
            Call::Turn(c) => format!("[5,{c}]"),
            Call::Add(p, c) => format!("[6,{},{},{c}]", p.0, p.1),
            Call::Outcome(o) => format!("[7,{}]", arr(&outcome(Some(*o)))),
            Call::Moves(m) => format!("[8,{}]", moves_json(m)),
            Call::Names => "[9]".to_string(),
        }
    }
}

pub fn builds(sid: &str, seed: u64, out: &mut Out) {
    let mut r = Rng::new(seed);
    let szd = r.chance(8);
    let (h, w) = if szd { (19, 19) } else { size(&mut r, 361) };
    let n = h * w;
    out.scenarios += 1;
    let rdef = r.chance(15);
    let (ill, sco, rk) = if rdef {
        (7, 3, 30)
    } else {
        (
            rule_for("C14", &mut r),
            r.below(8) as u32,
            *r.pick(&[26i64, 30, 0, 2, -6]),
        )
    };
    let kov = if r.chance(50) {
        Some(*r.pick(&[0i64, 1, 22, 26, -10, 31]))
    } else {
        None
    };
    // stones: handicap points first, then set-up on other points; no dead groups
    let b = if r.chance(40) {
        B::new(h, w)
    } else {
        position(&mut r, h, w)
    };
    let mut hp = vec![];
    let mut add = vec![];
    let with_hp = r.chance(50);
    let lim = r.below(10);
    for i in 0..n {
        let xy = ((i / w) as u8, (i % w) as u8);
        match b.c[i] {
            0 => {}
            1 if with_hp && hp.len() < lim && r.chance(60) => hp.push(xy),
            c => add.push((xy, c)),
        }
    }
    r.shuffle(&mut hp);
    r.shuffle(&mut add);
    let hc = if r.chance(20) {
        1 + r.below(9) as i64
    } else {
        -1
    };
    let tg = if r.chance(35) {
        1 + r.below(2) as u8
    } else {
        0
    };
    let oc = if r.chance(20) {
        Some(preset_outcome(&mut r))
    } else {
        None
    };
    let turn0 = if tg > 0 {
        tg
    } else if hc > 0 || (hc < 0 && !hp.is_empty()) {
        2
    } else {
        1
    };
    // the reference game the moves are chosen on
    let rf = match set_up(&b, ill, sco, rk, turn0) {
        Ok(g) => g,
        Err(m) => return broken(sid, &m, out),
    };
    let mk = if n > 100 { r.below(20) } else { r.below(40) };
    let mv = if r.chance(75) {
        match guard(|| continuation(&mut r, &rf, mk, true)) {
            Ok(v) => v,
            Err(m) => return broken(sid, &m, out),
        }
    } else {
        vec![]
    };
    let mut calls: Vec<Call> = vec![Call::Names];
    if !szd {
        calls.push(Call::Size(h as u8, w as u8));
    }
    if !rdef {
        calls.push(Call::Rule(ill, sco, rk));
    }
    if let Some(k) = kov {
        calls.push(Call::Komi(k));
    }
    if !hp.is_empty() {
        calls.push(Call::Points(hp.clone()));
    }
    if hc > 0 {
        calls.push(Call::Handicap(hc as u32));
    }
    if tg > 0 {
        calls.push(Call::Turn(tg));
    }
    if let Some(o) = oc {
        calls.push(Call::Outcome(o));
    }
    calls.push(Call::Moves(mv.clone()));
    r.shuffle(&mut calls);
    // options given before, which the later call overrides
    if r.chance(35) {
        for _ in 0..1 + r.below(3) {
            let i = r.below(calls.len());
            let d = match &calls[i] {
                Call::Size(..) => Call::Size(r.below(24) as u8, r.below(24) as u8),
                Call::Rule(..) => Call::Rule(r.below(8) as u32, r.below(8) as u32, r.below(60) as i64),
                Call::Komi(_) => Call::Komi(r.below(60) as i64 - 30),
                Call::Points(_) => Call::Points(some_points(&mut r, h, w, 3)),
                Call::Handicap(_) => Call::Handicap(r.below(9) as u32),
                Call::Turn(_) => Call::Turn(1 + r.below(2) as u8),
                Call::Outcome(_) => Call::Outcome(preset_outcome(&mut r)),
                Call::Moves(_) => Call::Moves(vec![Move::Play(0, 0), Move::Pass]),
                _ => continue,
            };
            let at = r.below(i + 1);
            calls.insert(at, d);
        }
    }
    for &(p, c) in &add {
        let at = r.below(calls.len() + 1);
        calls.insert(at, Call::Add(p, c));
    }
    let fill = |bu: &mut GameBuilder, with_moves: bool| {
        for c in &calls {
            if with_moves || !matches!(c, Call::Moves(_)) {
                c.make(bu);
            }
        }
    };
    let made = guard(|| {
        let mut bu = if r.chance(50) {
            Game::builder()
        } else {
            Default::default()
        };
        fill(&mut bu, true);
        let g = bu.build()?;
        let mut b2 = Game::builder();
        fill(&mut b2, false);
        let mut g2 = b2.build()?;
        let d = direct(&mut g2, &mv);
        Ok::<_, String>((g, d))
    });
    let cj: Vec<String> = calls.iter().map(Call::json).collect();
    let hd = format!(
        "\"e\":\"build\",\"sid\":{},\"h\":{h},\"w\":{w},\"ill\":{ill},\"sco\":{sco},\"calls\":[{}],\"mv\":{}",
        jstr(sid),
        cj.join(","),
        moves_json(&mv)
    );
    let tail = match made.and_then(|x| x) {
        Err(m) => format!("\"r\":1,\"msg\":{}", jstr(&m)),
        Ok((g, d)) => match guard(|| format!("\"r\":0,{},{d}", result_json(&g, ill, sco))) {
            Ok(s) => s,
            Err(m) => format!("\"r\":9,\"pn\":{}", jstr(&m)),
        },
    };
    out.lines.push(format!("{{{hd},{tail}}}"));
    out.cost += 40 + n + mv.len() * 8;
}

/// A handicap placed on a game that is under way.
pub fn handicap(sid: &str, seed: u64, out: &mut Out) {
    let mut r = Rng::new(seed);
    let (h, w) = size(&mut r, 150);
    let (ill, sco, rk) = (rule_for("C14", &mut r), r.below(8) as u32, *r.pick(&[26i64, 30, 0, 2, -6]));
    let b = if r.chance(60) {
        B::new(h, w)
    } else {
        position(&mut r, h, w)
    };
    let t = 1 + r.below(2) as u8;
    let mut g = match set_up(&b, ill, sco, rk, t) {
        Ok(g) => g,
        Err(m) => return broken(sid, &m, out),
    };
    let mk = if r.chance(30) { 0 } else { r.below(30) };
    let mut mv = match guard(|| continuation(&mut r, &g, mk, false)) {
        Ok(v) => v,
        Err(m) => return broken(sid, &m, out),
    };
    if r.chance(40) {
        mv.push(Move::Pass);
    }
    if r.chance(8) {
        mv.push(Move::Resign(col(1 + r.below(2) as u8)));
    }
    if let Err(m) = guard(|| {
        for &m in &mv {
            if !g.is_over() {
                g.play(m);
            }
        }
    }) {
        return broken(sid, &m, out);
    }
    // stones that leave every group a liberty
    let mut now = B::new(h, w);
    now.c = board(g.goban());
    let mut pts = vec![];
    let want = r.below(6);
    let mut es = now.empties();
    r.shuffle(&mut es);
    for p in es {
        if pts.len() >= want {
            break;
        }
        let mut next = now.clone();
        next.c[p] = 1;
        if (0..h * w).all(|i| next.c[i] == 0 || !next.group(i).1.is_empty()) {
            pts.push(((p / w) as u8, (p % w) as u8));
            now = next;
        }
    }
    let tell = |g: &Game, k: u8| {
        let p = g.prisoners();
        let mut a = g.clone();
        let po = if g.is_over() {
            2
        } else {
            a.play(Move::Pass);
            a.is_over() as u8
        };
        format!(
            "\"b{k}\":{},\"t{k}\":{},\"p{k}\":[{},{}],\"ov{k}\":{},\"oc{k}\":{},\"hi{k}\":{},\"kk{k}\":{},\"po{k}\":{po},\"gh{k}\":{},\"gw{k}\":{}",
            arr(&board(g.goban())),
            num(g.turn()),
            p.0,
            p.1,
            g.is_over(),
            arr(&outcome(g.outcome())),
            history(g).len(),
            q4(g.komi()),
            dims(g.goban()).0,
            dims(g.goban()).1
        )
    };
    let before = tell(&g, 0);
    let done = guard(|| {
        g.put_handicap(&pts);
        let so = g.calculate_score();
        let sb = g.calculate_score_by(sflags(sco));
        format!("{},\"so\":[{},{}],\"sb\":[{},{}]", tell(&g, 1), q4(so.0), q4(so.1), q4(sb.0), q4(sb.1))
    });
    let after = match done {
        Ok(s) => format!("\"r\":0,{s}"),
        Err(m) => format!("\"r\":1,\"pn\":{}", jstr(&m)),
    };
    out.lines.push(format!(
        "{{\"e\":\"given\",\"sid\":{},\"h\":{h},\"w\":{w},\"mv\":{},\"pts\":{},{before},{after}}}",
        jstr(sid),
        moves_json(&mv),
        cpts(&pts)
    ));
    out.scenarios += 1;
    out.cost += 40 + h * w + mv.len() * 4;
}

/// Plays the moves one by one; tells the state before and after.
pub fn direct(g: &mut Game, mv: &[Move]) -> String {
    let tell = |g: &Game, k: u8| {
        let p = g.prisoners();
        format!(
            "\"b{k}\":{},\"t{k}\":{},\"p{k}\":[{},{}],\"ov{k}\":{},\"oc{k}\":{},\"nh{k}\":{},\"kk{k}\":{}",
            arr(&board(g.goban())),
            num(g.turn()),
            p.0,
            p.1,
            g.is_over(),
            arr(&outcome(g.outcome())),
            history(g).len(),
            q4(g.komi())
        )
    };
    let a = tell(g, 0);
    for &m in mv {
        g.play(m);
    }
    format!("{a},{}", tell(g, 1))
}

/// The observable result of building or loading a game.
pub fn result_json(g: &Game, ill: u32, sco: u32) -> String {
    let so = g.calculate_score();
    let sb = g.calculate_score_by(sflags(sco));
    let (h, w) = dims(g.goban());
    let cp: Vec<u8> = coords(g.goban())
        .iter()
        .map(|&c| code(g.check_point(c)))
        .collect();
    let hi = history(g).len();
    format!(
        "{},\"gh\":{h},\"gw\":{w},\"kk\":{},\"oc\":{},\"so\":[{},{}],\"sb\":[{},{}],\"cp\":{},\"cf\":{},\"nh\":{hi}",
        base(g),
        q4(g.komi()),
        arr(&outcome(g.outcome())),
        q4(so.0),
        q4(so.1),
        q4(sb.0),
        q4(sb.1),
        arr(&cp),
        codes(g, ill)
    )
}
