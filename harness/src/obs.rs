//! Observations of a game through its public interface, as JSON.
use crate::util::{arr, Rng};
use goban::pieces::goban::Goban;
use goban::pieces::stones::{Color, Point, Stone};
use goban::rules::game::Game;
use goban::rules::{EndGame, IllegalRules, Move, PlayError, ScoreRules};

pub type Coord = (u8, u8);

pub fn col(c: u8) -> Color {
    if c == 1 {
        Color::Black
    } else {
        Color::White
    }
}
pub fn num(c: Color) -> u8 {
    match c {
        Color::Black => 1,
        Color::White => 2,
    }
}
pub fn mnum(c: Option<Color>) -> u8 {
    c.map_or(0, num)
}
pub fn flags(f: u32) -> IllegalRules {
    IllegalRules::from_bits_truncate(f)
}
pub fn sflags(f: u32) -> ScoreRules {
    ScoreRules::from_bits_truncate(f)
}
pub fn perr(e: PlayError) -> u8 {
    match e {
        PlayError::Ko => 1,
        PlayError::Suicide => 2,
        PlayError::GamePaused => 3,
        PlayError::FillEye => 4,
        PlayError::PointNotEmpty => 5,
    }
}
pub fn code(e: Option<PlayError>) -> u8 {
    e.map_or(0, perr)
}
/// Quarter points; a number out of range stands for "not a multiple of a quarter".
pub fn q4(f: f32) -> i64 {
    let v = f * 4.0;
    if v.is_finite() && v.fract() == 0.0 && v.abs() < 1e8 {
        v as i64
    } else {
        -99_999_999
    }
}
pub fn outcome(o: Option<EndGame>) -> [i64; 3] {
    match o {
        None => [0, 0, 0],
        Some(EndGame::WinnerByScore(c, m)) => [1, num(c) as i64, q4(m)],
        Some(EndGame::WinnerByResign(c)) => [2, num(c) as i64, 0],
        Some(EndGame::WinnerByTime(c)) => [3, num(c) as i64, 0],
        Some(EndGame::WinnerByForfeit(c)) => [4, num(c) as i64, 0],
        Some(EndGame::Draw) => [5, 0, 0],
    }
}

pub fn dims(gb: &Goban) -> (usize, usize) {
    let s = gb.size();
    (s.0 as usize, s.1 as usize)
}
pub fn coords(gb: &Goban) -> Vec<Coord> {
    let (h, w) = dims(gb);
    (0..h * w).map(|i| ((i / w) as u8, (i % w) as u8)).collect()
}
/// 1-based row-major number of a coordinate (also of off-board ones, for logging).
pub fn pn(gb: &Goban, c: Coord) -> usize {
    c.0 as usize * dims(gb).1 + c.1 as usize + 1
}
pub fn board(gb: &Goban) -> Vec<u8> {
    coords(gb)
        .into_iter()
        .map(|c| mnum(gb.get_color(c)))
        .collect()
}
pub fn pts(gb: &Goban, it: impl Iterator<Item = Coord>) -> String {
    let lim = gb.size().0 as usize * gb.size().1 as usize * 2 + 8;
    arr(&it.take(lim).map(|c| pn(gb, c)).collect::<Vec<_>>())
}
pub fn base(g: &Game) -> String {
    let p = g.prisoners();
    format!(
        "\"b\":{},\"t\":{},\"p\":[{},{}],\"ov\":{}",
        arr(&board(g.goban())),
        num(g.turn()),
        p.0,
        p.1,
        g.is_over()
    )
}

/// Every group index visible from some intersection.
pub fn group_idxs(gb: &Goban) -> Vec<usize> {
    let (h, w) = dims(gb);
    let mut v: Vec<usize> = vec![];
    for i in 0..h * w {
        for g in gb.get_connected_groups_idx(i) {
            if !v.contains(&g) {
                v.push(g);
            }
        }
    }
    v
}
/// (colour, stones as 1-based numbers) of a group.
pub fn stones_of(gb: &Goban, idx: usize) -> (u8, Vec<usize>) {
    let (h, w) = dims(gb);
    let v: Vec<Stone> = gb.chain_stones(idx).take(h * w + 2).collect();
    let c = v.first().map_or(0, |s| num(s.color));
    (c, v.iter().map(|s| pn(gb, s.coord)).collect())
}
/// How many stones the enumeration of a group announces before each step and at its end.
pub fn announced(gb: &Goban, idx: usize) -> Vec<i64> {
    let (h, w) = dims(gb);
    let mut it = gb.chain_stones(idx);
    let mut v = vec![];
    for _ in 0..h * w + 2 {
        let (lo, hi) = it.size_hint();
        v.push(if hi == Some(lo) { lo as i64 } else { -1 });
        if it.next().is_none() {
            break;
        }
    }
    v
}
pub fn groups(gb: &Goban) -> String {
    let (h, w) = dims(gb);
    let gs: Vec<String> = group_idxs(gb)
        .into_iter()
        .map(|i| {
            let (c, s) = stones_of(gb, i);
            format!("[{},{},{}]", c, arr(&s), arr(&announced(gb, i)))
        })
        .collect();
    let ch: Vec<String> = gb
        .chains()
        .take(h * w + 2)
        .map(|g| {
            let l: Vec<usize> = g.liberties().iter().map(|x| x + 1).collect();
            let cl: Vec<usize> = (0..h * w)
                .filter(|&i| g.contains_liberty(i))
                .map(|x| x + 1)
                .collect();
            format!(
                "[{},{},{},{},{},{},{}]",
                num(g.color),
                g.num_stones,
                arr(&l),
                g.number_of_liberties(),
                g.is_atari() as u8,
                g.is_dead() as u8,
                arr(&cl)
            )
        })
        .collect();
    let ns = gb.number_of_stones();
    format!(
        "\"gs\":[{}],\"ch\":[{}],\"ns\":[{},{}]",
        gs.join(","),
        ch.join(","),
        ns.0,
        ns.1
    )
}

pub fn codes(g: &Game, f: u32) -> String {
    arr(&coords(g.goban())
        .into_iter()
        .map(|c| code(g.check_point_by(c, flags(f))))
        .collect::<Vec<_>>())
}
/// Verdict of a checked play of every point, on clones.
pub fn try_codes(g: &Game) -> Vec<u8> {
    coords(g.goban())
        .into_iter()
        .map(|c| {
            let mut k = g.clone();
            let r = k.try_play(Move::Play(c.0, c.1)).err();
            code(r)
        })
        .collect()
}
pub fn history(g: &Game) -> Vec<Vec<u8>> {
    g.history().map(board).collect()
}
fn hash_of(v: &[u8], h: &mut u64) {
    for &x in v {
        *h = (*h ^ x as u64).wrapping_mul(0x100_0000_01b3);
    }
}
/// Everything observable that a query or a refused play may not change, as numbers.
pub fn snapshot(g: &Game) -> String {
    let mut v: Vec<i64> = board(g.goban()).iter().map(|&x| x as i64).collect();
    v.push(num(g.turn()) as i64);
    v.push(g.prisoners().0 as i64);
    v.push(g.prisoners().1 as i64);
    v.push(g.is_over() as i64);
    v.extend(outcome(g.outcome()));
    v.push(q4(g.komi()));
    let hi = history(g);
    v.push(hi.len() as i64);
    let mut h = 0xcbf2_9ce4_8422_2325;
    for b in &hi {
        hash_of(b, &mut h);
    }
    v.push((h & 0x3fff_ffff) as i64);
    for c in coords(g.goban()) {
        v.push(code(g.check_point_by(c, flags(1))) as i64);
        v.push(code(g.check_point_by(c, flags(6))) as i64);
    }
    let z = g.goban().zobrist_hash();
    v.extend(words(z));
    let mut gs: Vec<i64> = g
        .goban()
        .chains()
        .map(|c| {
            let mut h = 7u64 + num(c.color) as u64 * 31 + c.num_stones as u64 * 1009;
            for l in c.liberties() {
                h = (h ^ l as u64).wrapping_mul(0x100_0000_01b3);
            }
            (h & 0x3fff_ffff) as i64
        })
        .collect();
    gs.sort();
    v.extend(gs);
    arr(&v)
}
pub fn words(z: u64) -> [i64; 4] {
    [
        (z >> 48) as i64 & 0xffff,
        (z >> 32) as i64 & 0xffff,
        (z >> 16) as i64 & 0xffff,
        z as i64 & 0xffff,
    ]
}
fn score(s: (f32, f32)) -> String {
    format!("[{},{}]", q4(s.0), q4(s.1))
}
fn pairs(gb: &Goban, it: impl Iterator<Item = Point>) -> String {
    let lim = gb.size().0 as usize * gb.size().1 as usize * 2 + 8;
    let v: Vec<String> = it
        .take(lim)
        .map(|p| format!("[{},{}]", pn(gb, p.coord), mnum(p.color)))
        .collect();
    format!("[{}]", v.join(","))
}
fn spairs(gb: &Goban, it: impl Iterator<Item = Stone>) -> String {
    pairs(
        gb,
        it.map(|s| Point {
            coord: s.coord,
            color: Some(s.color),
        }),
    )
}

/// Run every read-only query.
pub fn queries(g: &Game, r: &mut Rng) {
    let gb = g.goban();
    let cs = coords(gb);
    let _ = g.legals().count();
    for f in 0..16 {
        let _ = g.legals_by(flags(f)).count();
    }
    let _ = g.pseudo_legals().count();
    let _ = g.pseudo_legals_vec().len();
    let _ = g.calculate_score();
    for f in 0..8 {
        let _ = g.calculate_score_by(sflags(f));
    }
    let _ = g.outcome();
    let _ = gb.to_vec();
    let _ = gb.matrix();
    let _ = gb.pretty_string();
    let _ = gb.get_stones().count();
    let _ = g.get_floating_stones();
    for _ in 0..6 {
        let c = *r.pick(&cs);
        if gb.get_color(c).is_none() {
            let _ = g.will_capture(c);
            let _ = g.play_for_verification(c);
            for k in [Color::Black, Color::White] {
                let st = Stone { coord: c, color: k };
                let _ = g.check_eye(st);
                let _ = g.check_ko(st);
                let _ = g.check_suicide(st);
                let _ = g.check_super_ko(st);
            }
        }
        let _ = g.check_point(c);
        let _ = gb.get_group_from_point(Point {
            coord: c,
            color: gb.get_color(c),
        });
    }
}

/// The observation a property needs in every state; empty when there is none.
pub fn obs(prop: &str, g: &Game, own: u32, r: &mut Rng) -> String {
    if r.chance(15) {
        decoy(prop, g, own, r);
    }
    observe(prop, g, own, r)
}

/// Asks the same of a board of another shape that has its stones in the same places of the
/// row-major order, and forgets the answers: they must not leak into those about `g'.
fn decoy(prop: &str, g: &Game, own: u32, r: &mut Rng) {
    let gb = g.goban();
    let (h, w) = dims(gb);
    let (h2, w2) = *r.pick(&[(h + 1, w), (w, h), (h, w + 1), (h + 1, w + 1), (1 + h / 2, 2 * w)]);
    if h2 > 19 || w2 > 19 || (h2, w2) == (h, w) || h2 * w2 < h * w || h2 * w2 > 150 {
        return;
    }
    let mut r2 = Rng::new(r.next());
    let _ = crate::drive::guard(|| {
        let mut b = Game::builder();
        b.size((h2 as u8, w2 as u8)).turn(g.turn());
        for (i, &c) in board(gb).iter().enumerate() {
            if c != 0 {
                b.add(Stone {
                    coord: ((i / w2) as u8, (i % w2) as u8),
                    color: col(c),
                });
            }
        }
        let other = b.build().unwrap();
        std::hint::black_box(observe(prop, &other, own, &mut r2));
    });
}

fn observe(prop: &str, g: &Game, own: u32, r: &mut Rng) -> String {
    let gb = g.goban();
    let cs = coords(gb);
    let n = cs.len();
    match prop {
        "C02" => groups(gb),
        "C03" => {
            let su = |k: Color| {
                pts(
                    gb,
                    cs.iter().copied().filter(|&c| {
                        gb.get_color(c).is_none() && g.check_suicide(Stone { coord: c, color: k })
                    }),
                )
            };
            let mut s = format!(
                "\"s4\":{},\"s0\":{},\"sk\":{},\"sb\":{},\"sw\":{}",
                codes(g, 4),
                codes(g, 0),
                codes(g, 11),
                su(Color::Black),
                su(Color::White)
            );
            if n <= 81 || r.chance(20) {
                s += &format!(",\"ty\":{}", arr(&try_codes(g)));
            }
            s
        }
        "C04" => {
            let ko = pts(
                gb,
                cs.iter().copied().filter(|&c| {
                    gb.get_color(c).is_none()
                        && g.check_ko(Stone {
                            coord: c,
                            color: g.turn(),
                        })
                }),
            );
            let mut s = format!(
                "\"k1\":{},\"k5\":{},\"kk\":{},\"k4\":{},\"lk\":{}",
                codes(g, 1),
                codes(g, 5),
                ko,
                codes(g, 4),
                pts(gb, g.legals_by(flags(1)))
            );
            if n <= 81 || r.chance(20) {
                s += &format!(",\"ty\":{}", arr(&try_codes(g)));
            }
            s
        }
        "C05" => {
            let mut s = format!(
                "\"k2\":{},\"k6\":{},\"k4\":{}",
                codes(g, 2),
                codes(g, 6),
                codes(g, 4)
            );
            if n <= 81 {
                s += &format!(",\"ty\":{}", arr(&try_codes(g)));
            }
            s
        }
        "C06" => {
            let l: Vec<String> = (0..16).map(|f| pts(gb, g.legals_by(flags(f)))).collect();
            let c: Vec<String> = (0..16).map(|f| codes(g, f)).collect();
            let cp: Vec<u8> = cs.iter().map(|&c| code(g.check_point(c))).collect();
            // rejected checked plays that changed anything
            let before = snapshot(g);
            let mut tu = vec![];
            let mut ty = vec![];
            for &c in &cs {
                let mut k = g.clone();
                let e = code(k.try_play(Move::Play(c.0, c.1)).err());
                ty.push(e);
                if e != 0 && (n <= 30 || r.chance(10)) && snapshot(&k) != before {
                    tu.push(pn(gb, c));
                }
            }
            format!(
                "\"L\":[{}],\"C\":[{}],\"lg\":{},\"cp\":{},\"ty\":{},\"tu\":{}",
                l.join(","),
                c.join(","),
                pts(gb, g.legals()),
                arr(&cp),
                arr(&ty),
                arr(&tu)
            )
        }
        "C09" => {
            let sc: Vec<String> = (0..8)
                .map(|f| score(g.calculate_score_by(sflags(f))))
                .collect();
            let (tb, tw) = gb.get_territories();
            let ct = gb.calculate_territories();
            format!(
                "\"sc\":[{}],\"so\":{},\"tb\":{},\"tw\":{},\"ct\":[{},{}]",
                sc.join(","),
                score(g.calculate_score()),
                pts(gb, tb.map(|p| p.coord)),
                pts(gb, tw.map(|p| p.coord)),
                ct.0,
                ct.1
            )
        }
        "C10" => {
            let o = g.outcome();
            format!(
                "\"so\":{},\"oc\":{},\"wn\":{}",
                score(g.calculate_score()),
                arr(&outcome(o)),
                o.map_or(0, |e| mnum(e.get_winner()))
            )
        }
        "C11" => format!("\"hs\":{}", arr(&words(gb.zobrist_hash()))),
        "C12" => {
            let p = |c: Option<Color>| pts(gb, gb.get_coords_by_color(c));
            let sp = |c: Option<Color>| pairs(gb, gb.get_stones_by_color(c));
            let (h, w) = dims(gb);
            let mx: Vec<String> = gb
                .matrix()
                .iter()
                .map(|row| arr(&row.iter().map(|&c| mnum(c)).collect::<Vec<_>>()))
                .collect();
            let text = |s: String| {
                let rows: Vec<String> = s
                    .lines()
                    .map(|l| {
                        arr(&l
                            .chars()
                            .map(|c| match c {
                                '●' => 1,
                                '○' => 2,
                                // how an empty point is drawn says where on the board it lies
                                o => "┏┓┗┛┯┷┠┨┼".chars().position(|d| d == o).map_or(99, |k| k + 3),
                            })
                            .collect::<Vec<_>>())
                    })
                    .collect();
                format!("[{}]", rows.join(","))
            };
            let tv = gb.to_vec();
            let ns = gb.number_of_stones();
            let mut s = format!(
                "\"gi\":{},\"gst\":{},\"pb\":{},\"pw\":{},\"pe\":{},\"sb\":{},\"sw\":{},\"se\":{},\"ei\":{},\"ec\":{},\"tv\":{},\"mx\":[{}],\"ns\":[{},{}],\"ps\":{},\"ds\":{},\"pl\":{},\"plv\":{},\"sz\":[{},{}]",
                arr(&(0..h * w).map(|i| mnum(gb.get_color(i))).collect::<Vec<_>>()),
                spairs(gb, gb.get_stones()),
                p(Some(Color::Black)),
                p(Some(Color::White)),
                p(None),
                sp(Some(Color::Black)),
                sp(Some(Color::White)),
                sp(None),
                arr(&gb.get_empty_idx().map(|i| i + 1).collect::<Vec<_>>()),
                pts(gb, gb.get_empty_coords()),
                arr(&tv.iter().map(|&c| mnum(c)).collect::<Vec<_>>()),
                mx.join(","),
                ns.0,
                ns.1,
                text(gb.pretty_string()),
                text(format!("{gb}")),
                pts(gb, g.pseudo_legals()),
                arr(&g.pseudo_legals_vec().iter().map(|&c| pn(gb, c)).collect::<Vec<_>>()),
                g.size().0,
                g.size().1
            );
            if h == w {
                let rb = Goban::from(&tv[..]);
                s += &format!(
                    ",\"rb\":{},\"req\":{}",
                    arr(&board(&rb)),
                    rb == *gb && *gb == rb
                );
            }
            s
        }
        "C16" => {
            let v: Vec<String> = history(g).iter().map(|b| arr(b)).collect();
            format!("\"hi\":[{}]", v.join(","))
        }
        "C17" => {
            let sn = snapshot(g);
            let mut es: Vec<Coord> = gb.get_empty_coords().collect();
            if n > 16 {
                // prefer points next to stones in atari, then any
                r.shuffle(&mut es);
                es.sort_by_key(|&c| {
                    if g.will_capture(c) {
                        0
                    } else if !gb.has_liberties(c) {
                        1
                    } else {
                        2
                    }
                });
                let k = es.len();
                if k > 6 {
                    let extra = [es[k - 1], es[k / 2]];
                    es.truncate(4);
                    es.extend(extra);
                }
            }
            let sm: Vec<String> = es
                .iter()
                .map(|&c| {
                    let sim = g.play_for_verification(c);
                    let mut k = g.clone();
                    k.play(Move::Play(c.0, c.1));
                    format!(
                        "[{},{},{},{},{}]",
                        pn(gb, c),
                        arr(&board(&sim)),
                        arr(&board(k.goban())),
                        g.will_capture(c) as u8,
                        (sim == *k.goban()) as u8
                    )
                })
                .collect();
            queries(g, r);
            let sn2 = snapshot(g);
            // a clone and its original evolve independently
            let mut a = g.clone();
            let b = a.clone();
            let sb = snapshot(&b);
            for _ in 0..3 {
                let l: Vec<Coord> = a.legals().collect();
                if l.is_empty() || a.is_over() {
                    break;
                }
                let c = *r.pick(&l);
                a.play(Move::Play(c.0, c.1));
            }
            a.set_komi(12.5);
            a.play(Move::Resign(Color::Black));
            let sb2 = snapshot(&b);
            format!(
                "\"sm\":[{}],\"sn\":{},\"sn2\":{},\"sb\":{},\"sb2\":{}",
                sm.join(","),
                sn,
                sn2,
                sb,
                sb2
            )
        }
        "C18" => {
            let e = |k: Color| {
                pts(
                    gb,
                    cs.iter()
                        .copied()
                        .filter(|&c| g.check_eye(Stone { coord: c, color: k })),
                )
            };
            format!(
                "\"eb\":{},\"ew\":{},\"k5\":{},\"f13\":{},\"f8\":{},\"cp\":{},\"cn\":{}",
                e(Color::Black),
                e(Color::White),
                codes(g, 5),
                codes(g, 13),
                codes(g, 8),
                arr(&cs
                    .iter()
                    .map(|&c| code(g.check_point(c)))
                    .collect::<Vec<_>>()),
                codes(g, own & 7)
            )
        }
        "C28" => {
            use oxymcts::GameTrait;
            let so = g.calculate_score();
            let lm: Vec<i64> = GameTrait::legals_moves(g)
                .into_iter()
                .map(|m| match m {
                    Move::Play(x, y) => pn(gb, (x, y)) as i64,
                    Move::Pass => 0,
                    Move::Resign(_) => -1,
                })
                .collect();
            let over = GameTrait::is_final(g);
            let wn = if !over {
                -1
            } else {
                crate::drive::guard(|| num(GameTrait::get_winner(g)) as i64).unwrap_or(0)
            };
            format!(
                "\"lm\":{},\"fi\":{},\"pt\":{},\"so\":[{},{}],\"wn\":{}",
                arr(&lm),
                over,
                num(GameTrait::player_turn(g)),
                q4(so.0),
                q4(so.1),
                wn
            )
        }
        "C20" => {
            let mut ps = cs.clone();
            r.shuffle(&mut ps);
            ps.truncate(if n <= 30 { 30 } else { 10 });
            let q: Vec<String> = ps
                .iter()
                .map(|&c| {
                    let gi: Vec<String> = gb
                        .get_connected_groups_idx(c)
                        .into_iter()
                        .map(|i| arr(&stones_of(gb, i).1))
                        .collect();
                    let gi2: Vec<String> = gb
                        .get_connected_groups_idx(pn(gb, c) - 1)
                        .into_iter()
                        .map(|i| arr(&stones_of(gb, i).1))
                        .collect();
                    format!(
                        "[{},{},{},{},{},{},[{}],[{}]]",
                        pn(gb, c),
                        pairs(gb, gb.get_connected_points(c)),
                        spairs(gb, gb.get_connected_stones(c)),
                        spairs(gb, gb.get_connected_stones(pn(gb, c) - 1)),
                        pts(gb, gb.get_liberties(c)),
                        gb.has_liberties(c) as u8,
                        gi.join(","),
                        gi2.join(",")
                    )
                })
                .collect();
            let pt = |c: Coord| Point {
                coord: c,
                color: gb.get_color(c),
            };
            let mut rs = vec![];
            for &c in ps.iter().take(if n <= 30 { 6 } else { 3 }) {
                let v = gb.get_group_from_point(pt(c));
                rs.push(format!("[{},{}]", pn(gb, c), pairs(gb, v.into_iter())));
            }
            // partition of a list of points (with repetitions)
            let k = r.range(0, if n <= 30 { n } else { 40 });
            let mut list: Vec<Coord> = (0..k).map(|_| *r.pick(&cs)).collect();
            if r.chance(30) {
                list = cs.clone();
                r.shuffle(&mut list);
                if n > 100 {
                    list.truncate(60);
                }
            }
            let part: Vec<String> = gb
                .get_chains_from_stones(list.iter().map(|&c| pt(c)))
                .into_iter()
                .map(|v| pairs(gb, v.into_iter()))
                .collect();
            format!(
                "\"q\":[{}],\"rg\":[{}],\"ls\":{},\"pa\":[{}]",
                q.join(","),
                rs.join(","),
                pts(gb, list.into_iter()),
                part.join(",")
            )
        }
        "C21" => {
            // everything at once: any panic is an event the specification does not have
            queries(g, r);
            let snap = snapshot(g);
            let ty = if n <= 49 { try_codes(g).len() } else { 0 };
            std::hint::black_box((snap, ty, groups(gb)));
            groups(gb)
        }
        "C23" => {
            let sn = snapshot(g);
            let fl: Vec<String> = g
                .get_floating_stones()
                .into_iter()
                .map(|i| arr(&stones_of(gb, i).1))
                .collect();
            let e = |k: Color| {
                pts(
                    gb,
                    cs.iter()
                        .copied()
                        .filter(|&c| g.check_eye(Stone { coord: c, color: k })),
                )
            };
            let mut s = format!(
                "\"fl\":[{}],\"eb\":{},\"ew\":{}",
                fl.join(","),
                e(Color::Black),
                e(Color::White)
            );
            if n <= 42 && r.chance(35) {
                let sims = r.range(1, 12);
                let dead = if n <= 6 && r.chance(5) {
                    g.dead_stones()
                } else {
                    g.dead_stones_wth_simulations(sims)
                };
                let ds: Vec<String> = dead
                    .into_iter()
                    .map(|i| arr(&stones_of(gb, i).1))
                    .collect();
                s += &format!(",\"ds\":[{}]", ds.join(","));
            }
            s += &format!(",\"sn\":{},\"sn2\":{}", sn, snapshot(g));
            s
        }
        _ => String::new(),
    }
}
