//! Walks the real code through the state graph and the games that TLC generated from the
//! specification (Graph.tla, Games.tla).
use crate::drive::{empty_game, guard, rule, set_up};
use crate::gen::B;
use crate::obs::*;
use crate::util::{jstr, Rng};
use goban::pieces::goban::Goban;
use goban::pieces::stones::{Color, Point, Stone};
use goban::rules::game::Game;
use goban::rules::{Move, PlayError};
use std::collections::{BTreeSet, HashMap, HashSet};

type Bd = Vec<u8>;
type Set = BTreeSet<usize>;

pub struct Tally {
    pub checks: u64,
    pub states: u64,
    pub transitions: u64,
    pub skipped: u64,
    pub bad: Vec<String>,
    pub sample: Vec<String>,
}

impl Tally {
    pub fn new() -> Self {
        Tally {
            checks: 0,
            states: 0,
            transitions: 0,
            skipped: 0,
            bad: vec![],
            sample: vec![],
        }
    }
    pub fn ck(&mut self, ok: bool, msg: impl FnOnce() -> String) {
        self.checks += 1;
        if !ok {
            self.bad.push(msg());
        }
    }
    pub fn full(&self) -> bool {
        self.bad.len() >= 5
    }
    pub fn print(&self) {
        let q = |v: &[String]| v.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",");
        println!(
            "{{\"checks\":{},\"states\":{},\"transitions\":{},\"skipped\":{},\"bad\":[{}],\"samples\":[{}]}}",
            self.checks,
            self.states,
            self.transitions,
            self.skipped,
            q(&self.bad),
            q(&self.sample)
        );
    }
}

struct Mv {
    code: u8,
    to: Option<(Bd, u32, u32)>,
}
struct Node {
    b: Bd,
    t: u8,
    prev: Option<Bd>,
    mv: Vec<Mv>,
}
struct Info {
    tb: Set,
    tw: Set,
    eb: Set,
    ew: Set,
    groups: Vec<(Set, Set)>,
    regions: Vec<Set>,
    floating: Vec<Set>,
}

fn digits(s: &str) -> Bd {
    s.bytes().map(|c| c - b'0').collect()
}
fn dots(s: &str) -> Set {
    s.split('.')
        .filter(|x| !x.is_empty())
        .map(|x| x.parse().unwrap())
        .collect()
}
fn sets(s: &str) -> Vec<Set> {
    s.split('/').filter(|x| !x.is_empty()).map(dots).collect()
}

pub struct Graph {
    h: usize,
    w: usize,
    ill: u32,
    nodes: Vec<Node>,
    index: HashMap<(Bd, u8, Option<Bd>), usize>,
    boards: HashMap<Bd, Info>,
}

impl Graph {
    pub fn read(h: usize, w: usize, ill: u32, file: &str) -> Self {
        let mut g = Graph {
            h,
            w,
            ill,
            nodes: vec![],
            index: HashMap::new(),
            boards: HashMap::new(),
        };
        let text = std::fs::read_to_string(file).unwrap();
        for l in text.lines() {
            let l = l.trim_matches('"');
            let f: Vec<&str> = l.split('|').collect();
            if f[0] == "N" {
                let mv = f[4]
                    .split(';')
                    .filter(|x| !x.is_empty())
                    .map(|m| {
                        let p: Vec<&str> = m.split(',').collect();
                        Mv {
                            code: p[1].parse().unwrap(),
                            to: (p.len() > 2).then(|| {
                                (digits(p[2]), p[3].parse().unwrap(), p[4].parse().unwrap())
                            }),
                        }
                    })
                    .collect();
                let n = Node {
                    b: digits(f[1]),
                    t: f[2].parse().unwrap(),
                    prev: (f[3] != "-").then(|| digits(f[3])),
                    mv,
                };
                g.index
                    .insert((n.b.clone(), n.t, n.prev.clone()), g.nodes.len());
                g.nodes.push(n);
            } else if f[0] == "B" {
                let groups = f[6]
                    .split('/')
                    .filter(|x| !x.is_empty())
                    .map(|x| {
                        let (a, b) = x.split_once(':').unwrap();
                        (dots(a), dots(b))
                    })
                    .collect();
                g.boards.insert(
                    digits(f[1]),
                    Info {
                        tb: dots(f[2]),
                        tw: dots(f[3]),
                        eb: dots(f[4]),
                        ew: dots(f[5]),
                        groups,
                        regions: sets(f[7]),
                        floating: sets(f[8]),
                    },
                );
            }
        }
        g
    }
    fn xy(&self, p: usize) -> Coord {
        (((p - 1) / self.w) as u8, ((p - 1) % self.w) as u8)
    }
}

fn set(gb: &Goban, it: impl Iterator<Item = Coord>) -> (Set, bool) {
    let v: Vec<usize> = it.map(|c| pn(gb, c)).collect();
    let s: Set = v.iter().copied().collect();
    let nodup = s.len() == v.len();
    (s, nodup)
}

fn show(b: &[u8]) -> String {
    b.iter().map(|x| (b'0' + x) as char).collect()
}

/// Facts about the position that depend on the board alone.
fn board_facts(
    prop: &str,
    gr: &Graph,
    g: &Game,
    k4: i64,
    hashes: &mut HashMap<Bd, u64>,
    t: &mut Tally,
) {
    let gb = g.goban();
    let b = board(gb);
    let Some(i) = gr.boards.get(&b) else {
        t.skipped += 1;
        return;
    };
    board_info(prop, gr, g, gb, &b, i, k4, hashes, t);
}

#[allow(clippy::too_many_arguments)]
fn board_info(
    prop: &str,
    gr: &Graph,
    g: &Game,
    gb: &Goban,
    b: &Bd,
    i: &Info,
    k4: i64,
    hashes: &mut HashMap<Bd, u64>,
    t: &mut Tally,
) {
    let at = || show(b);
    let n = b.len();
    match prop {
        "C02" | "C21" | "C19" => {
            let want: BTreeSet<(u8, Set)> = i
                .groups
                .iter()
                .map(|(s, _)| (b[*s.iter().next().unwrap() - 1], s.clone()))
                .collect();
            let ids = group_idxs(gb);
            let got: BTreeSet<(u8, Set)> = ids
                .iter()
                .map(|&x| {
                    let (c, s) = stones_of(gb, x);
                    (c, s.into_iter().collect())
                })
                .collect();
            t.ck(got == want && ids.len() == want.len(), || {
                format!("{}: groups {got:?}", at())
            });
            t.ck(
                ids.iter().all(|&x| {
                    let k = stones_of(gb, x).1.len() as i64;
                    let down: Vec<i64> = (0..=k).rev().collect();
                    stones_of(gb, x).1.into_iter().collect::<Set>().len() as i64 == k && announced(gb, x) == down
                }),
                || format!("{}: enumeration of stones", at()),
            );
            let mut want: Vec<(u8, usize, Set)> = i
                .groups
                .iter()
                .map(|(s, l)| (b[*s.iter().next().unwrap() - 1], s.len(), l.clone()))
                .collect();
            want.sort();
            let mut got: Vec<(u8, usize, Set)> = gb
                .chains()
                .take(n + 2)
                .map(|c| {
                    (
                        num(c.color),
                        c.num_stones as usize,
                        c.liberties().iter().map(|x| x + 1).collect(),
                    )
                })
                .collect();
            got.sort();
            t.ck(got == want, || format!("{}: chains {got:?}", at()));
            t.ck(
                gb.chains().take(n + 2).all(|c| {
                    let k = c.liberties().iter().count();
                    k == c.number_of_liberties() as usize
                        && (k == 1) == c.is_atari()
                        && (k == 0) == c.is_dead()
                }),
                || format!("{}: liberty counts", at()),
            );
        }
        "C09" => {
            let (tb, tw) = gb.get_territories();
            let (tb, n1) = set(gb, tb.map(|p| p.coord));
            let (tw, n2) = set(gb, tw.map(|p| p.coord));
            t.ck(n1 && n2 && tb == i.tb && tw == i.tw, || {
                format!("{}: territories {tb:?} {tw:?}", at())
            });
            let ct = gb.calculate_territories();
            t.ck(
                (ct.0 as usize, ct.1 as usize) == (i.tb.len(), i.tw.len()),
                || format!("{}: counts {ct:?}", at()),
            );
            let st = |c: u8| b.iter().filter(|&&x| x == c).count() as i64;
            for f in 0..8u32 {
                let s = g.calculate_score_by(sflags(f));
                let one = |l: usize, c: u8, p: u32| {
                    4 * (l as i64
                        + if f & 1 != 0 { st(c) } else { 0 }
                        + if f & 4 != 0 { p as i64 } else { 0 })
                };
                let want = (
                    one(i.tb.len(), 1, g.prisoners().0),
                    one(i.tw.len(), 2, g.prisoners().1) + if f & 2 != 0 { k4 } else { 0 },
                );
                t.ck((q4(s.0), q4(s.1)) == want, || {
                    format!("{}: score by {f} {s:?} want {want:?}/4", at())
                });
            }
        }
        "C11" => {
            let z = gb.zobrist_hash();
            let first = *hashes.entry(b.clone()).or_insert(z);
            t.ck(first == z, || format!("{}: two hashes", at()));
            t.ck((z == 0) == b.iter().all(|&x| x == 0) || z != 0, || {
                format!("{}: hash of the empty board", at())
            });
            let mut k = Goban::new((gr.h as u8, gr.w as u8));
            for p in (1..=n).rev() {
                if b[p - 1] != 0 {
                    k.push(gr.xy(p), col(b[p - 1]));
                }
            }
            t.ck(k == *gb && *gb == k && k.zobrist_hash() == z, || {
                format!("{}: differs from the same position set up", at())
            });
            // the same position with one point changed
            let p = 1 + (z as usize ^ b.len()) % n;
            if b[p - 1] == 0 {
                k.push(gr.xy(p), col(1 + (z >> 8 & 1) as u8));
                t.ck(k != *gb, || format!("{}: equal to another position", at()));
            }
        }
        "C12" => {
            let all = coords(gb);
            let of = |c: u8| -> Set { (1..=n).filter(|&p| b[p - 1] == c).collect() };
            for c in [Some(Color::Black), Some(Color::White), None] {
                let want = of(mnum(c));
                let (s, nd) = set(gb, gb.get_coords_by_color(c));
                t.ck(nd && s == want, || {
                    format!("{}: points of {c:?} {s:?}", at())
                });
                let (s, nd) = set(gb, gb.get_stones_by_color(c).map(|x| x.coord));
                t.ck(
                    nd && s == want && gb.get_stones_by_color(c).all(|x| x.color == c),
                    || format!("{}: stones of {c:?} {s:?}", at()),
                );
            }
            let (s, nd) = set(gb, gb.get_stones().map(|x| x.coord));
            t.ck(
                nd && s == (1..=n).filter(|&p| b[p - 1] != 0).collect::<Set>(),
                || format!("{}: stones", at()),
            );
            t.ck(
                gb.get_stones()
                    .all(|x| b[pn(gb, x.coord) - 1] == num(x.color)),
                || format!("{}: stone colours", at()),
            );
            let e = of(0);
            let idx: Vec<usize> = gb.get_empty_idx().map(|x| x + 1).collect();
            t.ck(
                idx.len() == e.len() && idx.iter().copied().collect::<Set>() == e,
                || format!("{}: empty indices {idx:?}", at()),
            );
            let mut lists = vec![set(gb, gb.get_empty_coords())];
            if board(g.goban()) == *b {
                lists.push(set(gb, g.pseudo_legals()));
                lists.push(set(gb, g.pseudo_legals_vec().into_iter()));
            }
            for (k, (s, nd)) in lists.into_iter().enumerate() {
                t.ck(nd && s == e, || format!("{}: empty points {k} {s:?}", at()));
            }
            let v = gb.to_vec();
            t.ck(
                v.len() == n
                    && all
                        .iter()
                        .all(|&c| mnum(v[pn(gb, c) - 1]) == b[pn(gb, c) - 1]),
                || format!("{}: vector", at()),
            );
            let m = gb.matrix();
            t.ck(
                m.len() == gr.h
                    && m.iter().all(|r| r.len() == gr.w)
                    && all
                        .iter()
                        .all(|&c| mnum(m[c.0 as usize][c.1 as usize]) == b[pn(gb, c) - 1]),
                || format!("{}: matrix", at()),
            );
            let ns = gb.number_of_stones();
            t.ck(
                (ns.0 as usize, ns.1 as usize) == (of(1).len(), of(2).len()),
                || format!("{}: counts", at()),
            );
            if gr.h == gr.w {
                let r = Goban::from(&v[..]);
                t.ck(r == *gb, || format!("{}: rebuilt board", at()));
            }
        }
        "C18" => {
            for (c, want) in [(Color::Black, &i.eb), (Color::White, &i.ew)] {
                let (s, _) = set(
                    gb,
                    coords(gb)
                        .into_iter()
                        .filter(|&p| g.check_eye(Stone { coord: p, color: c })),
                );
                t.ck(s == *want, || format!("{}: eyes of {c:?} {s:?}", at()));
            }
            let mine = if g.turn() == Color::Black {
                &i.eb
            } else {
                &i.ew
            };
            for c in coords(gb) {
                let p = pn(gb, c);
                let k = code(g.check_point_by(c, flags(8)));
                let want = if b[p - 1] != 0 {
                    5
                } else if mine.contains(&p) {
                    4
                } else {
                    0
                };
                t.ck(k == want, || format!("{} point {p}: fill-eye {k}", at()));
                let k = code(g.check_point_by(c, flags(13)));
                let o = code(g.check_point_by(c, flags(5)));
                let want = if o == 0 && mine.contains(&p) { 4 } else { o };
                t.ck(k == want, || {
                    format!("{} point {p}: fill-eye with ko and suicide {k}", at())
                });
            }
        }
        "C20" => {
            let pt = |c: Coord| Point {
                coord: c,
                color: gb.get_color(c),
            };
            let region = |p: usize| -> &Set {
                i.groups
                    .iter()
                    .map(|x| &x.0)
                    .chain(i.regions.iter())
                    .find(|s| s.contains(&p))
                    .unwrap()
            };
            for c in coords(gb) {
                let p = pn(gb, c);
                let v = gb.get_group_from_point(pt(c));
                let (s, nd) = set(gb, v.iter().map(|x| x.coord));
                t.ck(nd && s == *region(p), || {
                    format!("{}: region of {p} {s:?}", at())
                });
                let (nb, nd) = set(gb, gb.get_connected_points(c).map(|x| x.coord));
                let (r0, c0) = ((p - 1) / gr.w, (p - 1) % gr.w);
                let want: Set = (1..=n)
                    .filter(|&q| {
                        let (r1, c1) = ((q - 1) / gr.w, (q - 1) % gr.w);
                        r0.abs_diff(r1) + c0.abs_diff(c1) == 1
                    })
                    .collect();
                t.ck(nd && nb == want, || {
                    format!("{}: neighbours of {p} {nb:?}", at())
                });
                let st: Set = want.iter().copied().filter(|&q| b[q - 1] != 0).collect();
                let em: Set = want.iter().copied().filter(|&q| b[q - 1] == 0).collect();
                let (s1, n1) = set(gb, gb.get_connected_stones(c).map(|x| x.coord));
                let (s2, n2) = set(gb, gb.get_connected_stones(p - 1).map(|x| x.coord));
                let (s3, n3) = set(gb, gb.get_liberties(c));
                t.ck(
                    n1 && n2
                        && n3
                        && s1 == st
                        && s2 == st
                        && s3 == em
                        && gb.has_liberties(c) != em.is_empty(),
                    || format!("{}: stones and liberties next to {p}", at()),
                );
                let gs: BTreeSet<Set> = st.iter().map(|&q| region(q).clone()).collect();
                let ids = gb.get_connected_groups_idx(c);
                let got: BTreeSet<Set> = ids
                    .iter()
                    .map(|&x| stones_of(gb, x).1.into_iter().collect())
                    .collect();
                t.ck(got == gs && ids.len() == gs.len(), || {
                    format!("{}: groups next to {p} {got:?}", at())
                });
            }
            let part = gb.get_chains_from_stones(coords(gb).into_iter().map(pt));
            let got: BTreeSet<Set> = part
                .iter()
                .map(|v| set(gb, v.iter().map(|x| x.coord)).0)
                .collect();
            let want: BTreeSet<Set> = i
                .groups
                .iter()
                .map(|x| x.0.clone())
                .chain(i.regions.iter().cloned())
                .collect();
            t.ck(part.len() == want.len() && got == want, || {
                format!("{}: partition {got:?}", at())
            });
        }
        "C23" => {
            let v = g.get_floating_stones();
            let got: BTreeSet<Set> = v
                .iter()
                .map(|&x| stones_of(gb, x).1.into_iter().collect())
                .collect();
            let want: BTreeSet<Set> = i.floating.iter().cloned().collect();
            t.ck(v.len() == want.len() && got == want, || {
                format!("{}: floating {got:?}", at())
            });
        }
        _ => {}
    }
}

/// Facts about the state of the game (board, turn, board before the last play).
fn node_facts(prop: &str, gr: &Graph, g: &Game, nd: &Node, r: &mut Rng, t: &mut Tally) {
    let gb = g.goban();
    if board(gb) != nd.b || num(g.turn()) != nd.t {
        t.skipped += 1;
        return;
    }
    let at = || {
        format!(
            "{} turn {} before {}",
            show(&nd.b),
            nd.t,
            nd.prev.as_ref().map_or("-".to_string(), |b| show(b))
        )
    };
    let n = nd.b.len();
    match prop {
        "C03" => {
            for p in 1..=n {
                let c = gr.xy(p);
                let m = nd.mv[p - 1].code;
                let own = code(g.check_point(c));
                let k4 = code(g.check_point_by(c, flags(4)));
                if gr.ill & 4 != 0 {
                    t.ck((own == 2) == (m == 2), || {
                        format!("{} point {p}: verdict {own}", at())
                    });
                    t.ck((k4 == 2) == (m == 2), || {
                        format!("{} point {p}: suicide verdict {k4}", at())
                    });
                    if m != 5 {
                        let s = g.check_suicide(Stone {
                            coord: c,
                            color: g.turn(),
                        });
                        t.ck(s == (m == 2), || {
                            format!("{} point {p}: check_suicide {s}", at())
                        });
                    }
                    if m == 2 || m == 0 {
                        let mut k = g.clone();
                        let e = code(k.try_play(Move::Play(c.0, c.1)).err());
                        t.ck((e == 2) == (m == 2), || {
                            format!("{} point {p}: try_play {e}", at())
                        });
                    }
                } else {
                    t.ck(own != 2, || format!("{} point {p}: verdict {own}", at()));
                    if m != 5 {
                        let mut k = g.clone();
                        let e = code(k.try_play(Move::Play(c.0, c.1)).err());
                        t.ck(e != 2, || format!("{} point {p}: try_play {e}", at()));
                    }
                }
            }
        }
        "C28" => {
            use oxymcts::GameTrait;
            let Some(i) = gr.boards.get(&nd.b) else {
                t.skipped += 1;
                return;
            };
            let eyes = if nd.t == 1 { &i.eb } else { &i.ew };
            let want: Vec<usize> = (1..=n)
                .filter(|&p| nd.mv[p - 1].code == 0 && !eyes.contains(&p))
                .collect();
            let mut k = g.clone();
            k.resume();
            let mv = GameTrait::legals_moves(&k);
            let mut got: Vec<usize> = mv
                .iter()
                .map(|m| match m {
                    Move::Play(x, y) => pn(gb, (*x, *y)),
                    _ => 0,
                })
                .collect();
            got.sort();
            let only_pass = mv == vec![Move::Pass];
            t.ck(
                got == want && !want.is_empty() || want.is_empty() && only_pass,
                || format!("{}: offered {mv:?} want {want:?}", at()),
            );
            t.ck(
                num(GameTrait::player_turn(&k)) == nd.t && !GameTrait::is_final(&k),
                || format!("{}: player or end", at()),
            );
            for &p in want.iter() {
                let c = gr.xy(p);
                let mut x = k.clone();
                GameTrait::do_move(&mut x, &Move::Play(c.0, c.1));
                let (b2, cap, own) = nd.mv[p - 1].to.as_ref().unwrap();
                let (me, foe) = if nd.t == 1 {
                    (k.prisoners().0 + cap, k.prisoners().1 + own)
                } else {
                    (k.prisoners().1 + cap, k.prisoners().0 + own)
                };
                let pr = if nd.t == 1 { (me, foe) } else { (foe, me) };
                t.ck(
                    board(x.goban()) == *b2 && num(x.turn()) == 3 - nd.t && x.prisoners() == pr,
                    || format!("{} point {p}: move of the search", at()),
                );
            }
        }
        "C04" => {
            for p in 1..=n {
                let c = gr.xy(p);
                let m = nd.mv[p - 1].code;
                let own = code(g.check_point(c));
                let k1 = code(g.check_point_by(c, flags(1)));
                t.ck((own == 1) == (m == 1), || {
                    format!("{} point {p}: verdict {own}", at())
                });
                t.ck((k1 == 1) == (m == 1), || {
                    format!("{} point {p}: ko verdict {k1}", at())
                });
                if m != 5 {
                    let s = g.check_ko(Stone {
                        coord: c,
                        color: g.turn(),
                    });
                    t.ck(s == (m == 1), || {
                        format!("{} point {p}: check_ko {s}", at())
                    });
                }
            }
            // a pass lifts every ko
            let mut k = g.clone();
            k.play(Move::Pass);
            k.play(Move::Pass);
            k.resume();
            t.ck(
                coords(gb)
                    .into_iter()
                    .all(|c| code(k.check_point_by(c, flags(1))) != 1),
                || format!("{}: ko after two passes", at()),
            );
        }
        "C06" => {
            let es: Vec<Coord> = coords(gb)
                .into_iter()
                .filter(|&c| gb.get_color(c).is_none())
                .collect();
            for f in 0..16 {
                let (s, nd2) = set(gb, g.legals_by(flags(f)));
                let want: Set = es
                    .iter()
                    .filter(|&&c| g.check_point_by(c, flags(f)).is_none())
                    .map(|&c| pn(gb, c))
                    .collect();
                t.ck(nd2 && s == want, || {
                    format!("{}: legals_by {f} {s:?}", at())
                });
            }
            let (s, nd2) = set(gb, g.legals());
            let want: Set = (1..=n)
                .filter(|&p| g.check_point(gr.xy(p)).is_none())
                .collect();
            t.ck(nd2 && s == want, || format!("{}: legals {s:?}", at()));
            let mine: Set = (1..=n).filter(|&p| nd.mv[p - 1].code == 0).collect();
            t.ck(s == mine, || {
                format!("{}: legals {s:?}, by the specification {mine:?}", at())
            });
            let before = snapshot(g);
            for p in 1..=n {
                let c = gr.xy(p);
                let mut k = g.clone();
                let e = code(k.try_play(Move::Play(c.0, c.1)).err());
                let w = code(g.check_point(c));
                t.ck(e == w, || {
                    format!("{} point {p}: try_play {e}, check_point {w}", at())
                });
                if e != 0 && r.chance(10) {
                    t.ck(snapshot(&k) == before, || {
                        format!("{} point {p}: refused play had an effect", at())
                    });
                }
            }
        }
        "C17" => {
            let before = snapshot(g);
            for p in 1..=n {
                let m = nd.mv[p - 1].code;
                let c = gr.xy(p);
                if m == 0 || m == 1 {
                    let s = g.play_for_verification(c);
                    let w = g.will_capture(c);
                    let mut k = g.clone();
                    k.play(Move::Play(c.0, c.1));
                    let after = board(k.goban());
                    t.ck(board(&s) == after && s == *k.goban(), || {
                        format!("{} point {p}: simulated {}", at(), show(&board(&s)))
                    });
                    let foe = 3 - nd.t;
                    let took = (0..n).any(|q| nd.b[q] == foe && after[q] != foe);
                    t.ck(w == took, || {
                        format!("{} point {p}: will_capture {w}", at())
                    });
                } else if m == 2 {
                    let w = g.will_capture(c);
                    t.ck(!w, || format!("{} point {p}: will_capture {w}", at()));
                    // a suicide the rules forbid: the simulation does what the play would
                    let s = g.play_for_verification(c);
                    let mut k = g.clone();
                    k.play(Move::Play(c.0, c.1));
                    t.ck(board(&s) == board(k.goban()) && s == *k.goban(), || {
                        format!("{} point {p}: simulated {}", at(), show(&board(&s)))
                    });
                }
            }
            let _ = (g.outcome(), g.calculate_score(), g.legals().count());
            t.ck(snapshot(g) == before, || {
                format!("{}: queries had an effect", at())
            });
        }
        "C14" => {
            // reached by set-up only when there is no board before
            if nd.prev.is_none() {
                t.ck(
                    g.prisoners() == (0, 0) && !g.is_over() && g.outcome().is_none(),
                    || format!("{}: not a fresh game", at()),
                );
            }
        }
        "C19" => {
            // take every group away; put a stone everywhere
            let info = &gr.boards[&nd.b];
            let mut hs = HashMap::new();
            for (s, _) in &info.groups {
                let mut k = gb.clone();
                let Some(&i) = group_idxs(&k)
                    .iter()
                    .find(|&&i| stones_of(&k, i).1.into_iter().collect::<Set>() == *s)
                else {
                    t.skipped += 1;
                    continue;
                };
                k.remove_chain(i);
                let mut want = nd.b.clone();
                for &p in s {
                    want[p - 1] = 0;
                }
                let got = board(&k);
                t.ck(got == want, || {
                    format!("{}: removing {s:?} gives {}", at(), show(&got))
                });
                if let Some(i) = gr.boards.get(&want) {
                    if got == want {
                        board_info("C19", gr, g, &k, &want, i, 0, &mut hs, t);
                    }
                }
            }
            for p in 1..=n {
                if nd.b[p - 1] != 0 {
                    continue;
                }
                for c in [1u8, 2] {
                    let mut k = gb.clone();
                    k.push(gr.xy(p), col(c));
                    let mut want = nd.b.clone();
                    want[p - 1] = c;
                    let got = board(&k);
                    t.ck(got == want, || {
                        format!("{}: {c} put on {p} gives {}", at(), show(&got))
                    });
                    if let Some(i) = gr.boards.get(&want) {
                        if got == want {
                            board_info("C19", gr, g, &k, &want, i, 0, &mut hs, t);
                        }
                    }
                }
            }
        }
        "C15" => {
            // the position and one move as a record
            let ps: Vec<usize> = (1..=n).filter(|&p| nd.mv[p - 1].code == 0).collect();
            if nd.prev.is_some() || ps.is_empty() || gr.ill & 4 == 0 {
                return;
            }
            let p = *r.pick(&ps);
            let co = |p: usize| {
                let c = gr.xy(p);
                format!("{}{}", (b'a' + c.1) as char, (b'a' + c.0) as char)
            };
            let mut s = format!(
                "(;SZ[{}:{}]RU[Japanese]PL[{}]",
                gr.w,
                gr.h,
                if nd.t == 1 { "B" } else { "W" }
            );
            for (k, c) in [("AB", 1u8), ("AW", 2)] {
                for q in 1..=n {
                    if nd.b[q - 1] == c {
                        s += &format!("{k}[{}]", co(q));
                    }
                }
            }
            s += &format!(";{}[{}])", if nd.t == 1 { "B" } else { "W" }, co(p));
            let mut k = g.clone();
            let c = gr.xy(p);
            k.play(Move::Play(c.0, c.1));
            match Game::from_sgf(&s) {
                Ok(l) => t.ck(
                    board(l.goban()) == board(k.goban())
                        && l.turn() == k.turn()
                        && l.prisoners() == k.prisoners(),
                    || format!("{s}: loaded as {}", show(&board(l.goban()))),
                ),
                Err(e) => t.ck(false, || format!("{s}: {e}")),
            }
        }
        _ => {}
    }
}

/// Facts about one accepted play.
fn step_facts(prop: &str, pr0: (u32, u32), g1: &Game, nd: &Node, p: usize, t: &mut Tally) {
    let m = &nd.mv[p - 1];
    let Some((to, cap, own)) = &m.to else { return };
    let at = || format!("{} turn {} play {p}", show(&nd.b), nd.t);
    let b = board(g1.goban());
    match prop {
        "C01" => t.ck(b == *to, || {
            format!("{}: board {} instead of {}", at(), show(&b), show(to))
        }),
        "C07" => t.ck(num(g1.turn()) == 3 - nd.t && !g1.is_over(), || {
            format!("{}: turn", at())
        }),
        "C08" => {
            if b == *to {
                let (x, y) = pr0;
                let want = if nd.t == 1 {
                    (x + cap, y + own)
                } else {
                    (x + own, y + cap)
                };
                t.ck(g1.prisoners() == want, || {
                    format!("{}: prisoners {:?} want {want:?}", at(), g1.prisoners())
                });
            }
        }
        _ => {}
    }
}

pub fn walk(prop: &str, gr: &Graph, steps: usize, seed: u64) -> Tally {
    let mut t = Tally::new();
    let mut r = Rng::new(seed);
    let k4 = 26;
    let mut hashes: HashMap<Bd, u64> = HashMap::new();
    let with_nodes = !matches!(prop, "C01" | "C07" | "C08");
    let mut seen: HashSet<usize> = HashSet::new();
    // every state without a board before: set up
    for (ni, nd) in gr.nodes.iter().enumerate() {
        if nd.prev.is_some() || t.full() {
            continue;
        }
        let bd = B {
            h: gr.h,
            w: gr.w,
            c: nd.b.clone(),
        };
        let at = format!("{} turn {}", show(&nd.b), nd.t);
        let g = match set_up(&bd, gr.ill, 6, k4, nd.t) {
            Ok(g) => g,
            Err(m) => {
                t.bad.push(format!("{at}: set-up {m}"));
                continue;
            }
        };
        if prop == "C14" {
            t.ck(board(g.goban()) == nd.b && num(g.turn()) == nd.t, || {
                format!("{at}: set-up")
            });
        }
        let res = guard(|| {
            let mut t2 = Tally::new();
            seen.insert(ni);
            t2.states += 1;
            if with_nodes {
                node_facts(prop, gr, &g, nd, &mut r, &mut t2);
                board_facts(prop, gr, &g, k4, &mut hashes, &mut t2);
            }
            for p in 1..=nd.b.len() {
                if nd.mv[p - 1].code != 0 {
                    continue;
                }
                let c = gr.xy(p);
                let mut g1 = g.clone();
                if (ni + p) % 2 == 0 {
                    if g1.try_play(Move::Play(c.0, c.1)).is_err() {
                        if matches!(prop, "C03" | "C04" | "C06") {
                            continue; // reported by the state's own facts
                        }
                        t2.skipped += 1;
                        continue;
                    }
                } else {
                    g1.play(Move::Play(c.0, c.1));
                }
                t2.transitions += 1;
                step_facts(prop, g.prisoners(), &g1, nd, p, &mut t2);
                let key = (board(g1.goban()), num(g1.turn()), Some(nd.b.clone()));
                let Some(&n1) = gr.index.get(&key) else {
                    t2.skipped += 1;
                    continue;
                };
                if !seen.insert(n1) {
                    continue;
                }
                t2.states += 1;
                let nd1 = &gr.nodes[n1];
                if with_nodes {
                    node_facts(prop, gr, &g1, nd1, &mut r, &mut t2);
                    if r.chance(30) {
                        board_facts(prop, gr, &g1, k4, &mut hashes, &mut t2);
                    }
                }
                for p in 1..=nd1.b.len() {
                    if nd1.mv[p - 1].code != 0 {
                        continue;
                    }
                    let c = gr.xy(p);
                    let mut g2 = g1.clone();
                    if g2.try_play(Move::Play(c.0, c.1)).is_err() {
                        t2.skipped += 1;
                        continue;
                    }
                    t2.transitions += 1;
                    step_facts(prop, g1.prisoners(), &g2, nd1, p, &mut t2);
                }
            }
            t2
        });
        match res {
            Ok(t2) => {
                t.checks += t2.checks;
                t.states += t2.states;
                t.transitions += t2.transitions;
                t.skipped += t2.skipped;
                t.bad.extend(t2.bad);
            }
            Err(m) => t.bad.push(format!("{at}: panic {m}")),
        }
    }
    if t.sample.is_empty() {
        if let Some(nd) = gr.nodes.get(gr.nodes.len() / 2) {
            t.sample
                .push(format!("state {} turn {}", show(&nd.b), nd.t));
        }
    }
    // one long game, preferring plays not made yet
    if steps > 0 && !t.full() && !matches!(prop, "C14" | "C15") {
        long_game(prop, gr, steps, &mut r, k4, &mut hashes, &mut t);
    }
    if gr.h == 1 && steps > 0 && !t.full() && !matches!(prop, "C14" | "C15") {
        marathon(prop, gr, &mut r, k4, &mut hashes, &mut t);
    }
    t
}

/// One game of several hundred thousand moves that takes stones whenever it can, so that every
/// count passes the limits of the small integer types.
fn marathon(
    prop: &str,
    gr: &Graph,
    r: &mut Rng,
    k4: i64,
    hashes: &mut HashMap<Bd, u64>,
    t: &mut Tally,
) {
    let kind = r.below(24);
    let mut g = empty_game(gr.h, gr.w, gr.ill, 6, k4, kind);
    let mut prev: Option<Bd> = None;
    let mut made = 0u64;
    while made < 300_000 && !t.full() {
        let res = guard(|| {
            let mut t2 = Tally::new();
            let key = (board(g.goban()), num(g.turn()), prev.clone());
            let Some(&ni) = gr.index.get(&key) else {
                return None; // reported by the walks under the property it belongs to
            };
            let nd = &gr.nodes[ni];
            if made % 4001 == 0 {
                node_facts(prop, gr, &g, nd, r, &mut t2);
                board_facts(prop, gr, &g, k4, hashes, &mut t2);
            }
            let legal: Vec<usize> = (1..=nd.b.len())
                .filter(|&p| nd.mv[p - 1].code == 0)
                .collect();
            if legal.is_empty() {
                g.play(Move::Pass);
                g.resume();
                prev = None;
                return Some(t2);
            }
            let takes: Vec<usize> = legal
                .iter()
                .copied()
                .filter(|&p| nd.mv[p - 1].to.as_ref().is_some_and(|m| m.1 + m.2 > 0))
                .collect();
            let p = if !takes.is_empty() && r.chance(90) {
                *r.pick(&takes)
            } else {
                *r.pick(&legal)
            };
            let c = gr.xy(p);
            let pr0 = g.prisoners();
            g.play(Move::Play(c.0, c.1));
            t2.transitions += 1;
            step_facts(prop, pr0, &g, nd, p, &mut t2);
            prev = Some(nd.b.clone());
            Some(t2)
        });
        match res {
            Ok(None) => {
                t.skipped += 1;
                break;
            }
            Ok(Some(t2)) => {
                t.checks += t2.checks;
                t.transitions += t2.transitions;
                t.skipped += t2.skipped;
                t.bad.extend(
                    t2.bad
                        .into_iter()
                        .map(|m| format!("{m} (move {made} of a game that takes what it can)")),
                );
            }
            Err(m) => {
                t.bad.push(format!(
                    "panic {m} (move {made} of a game that takes what it can)"
                ));
                break;
            }
        }
        made += 1;
    }
    t.sample
        .push(format!("marathon of {made} moves, prisoners {:?}", g.prisoners()));
}

fn long_game(
    prop: &str,
    gr: &Graph,
    steps: usize,
    r: &mut Rng,
    k4: i64,
    hashes: &mut HashMap<Bd, u64>,
    t: &mut Tally,
) {
    let kind = r.below(24);
    let fresh = || empty_game(gr.h, gr.w, gr.ill, 6, k4, kind);
    let mut done: HashSet<(usize, usize)> = HashSet::new();
    let mut g = fresh();
    let mut prev: Option<Bd> = None;
    let mut log: Vec<u8> = vec![];
    let heavy = matches!(
        prop,
        "C12" | "C20" | "C23" | "C28" | "C11" | "C19" | "C06" | "C17" | "C18" | "C15" | "C03" | "C04"
    );
    for i in 0..steps {
        if t.full() {
            break;
        }
        let res = guard(|| {
            let mut t2 = Tally::new();
            let key = (board(g.goban()), num(g.turn()), prev.clone());
            let Some(&ni) = gr.index.get(&key) else {
                t2.skipped += 1;
                g = fresh();
                prev = None;
                log.clear();
                return t2;
            };
            let nd = &gr.nodes[ni];
            if prop != "C21" && log.len() >= 300 {
                g = fresh();
                prev = None;
                log.clear();
                return t2;
            }
            if !heavy || i % 5 == 0 {
                node_facts(prop, gr, &g, nd, r, &mut t2);
                board_facts(prop, gr, &g, k4, hashes, &mut t2);
            }
            let legal: Vec<usize> = (1..=nd.b.len())
                .filter(|&p| nd.mv[p - 1].code == 0)
                .collect();
            let new: Vec<usize> = legal
                .iter()
                .copied()
                .filter(|&p| !done.contains(&(ni, p)))
                .collect();
            if legal.is_empty() || r.chance(2) {
                g.play(Move::Pass);
                g.resume();
                prev = None;
                log.push(0);
                return t2;
            }
            let p = if new.is_empty() {
                *r.pick(&legal)
            } else {
                *r.pick(&new)
            };
            done.insert((ni, p));
            let c = gr.xy(p);
            let pr0 = g.prisoners();
            log.push(p as u8);
            if r.chance(50) {
                if g.try_play(Move::Play(c.0, c.1)).is_err() {
                    t2.skipped += 1;
                    g.play(Move::Play(c.0, c.1));
                }
            } else {
                g.play(Move::Play(c.0, c.1));
            }
            t2.transitions += 1;
            step_facts(prop, pr0, &g, nd, p, &mut t2);
            prev = Some(nd.b.clone());
            t2
        });
        let tail = |log: &[u8]| {
            format!(
                "after {} moves, the last {:?}",
                log.len(),
                &log[log.len().saturating_sub(12)..]
            )
        };
        match res {
            Ok(t2) => {
                t.checks += t2.checks;
                t.transitions += t2.transitions;
                t.skipped += t2.skipped;
                let w = tail(&log);
                t.bad
                    .extend(t2.bad.into_iter().map(|m| format!("{m} ({w})")));
            }
            Err(m) => {
                t.bad.push(format!("panic {m} ({})", tail(&log)));
                break;
            }
        }
    }
    t.sample.push(format!(
        "long game of {} moves ending in {}",
        log.len(),
        show(&board(g.goban()))
    ));
}

// ------------------------------------------------------------------ games

struct Line {
    acts: Vec<String>,
    b: Bd,
    t: u8,
    p: (u32, u32),
    passes: u32,
    v: Bd,
    oc: [i64; 3],
    sc: [i64; 2],
    hist: Vec<Bd>,
}

fn ints(s: &str) -> Vec<i64> {
    s.split('.').map(|x| x.parse().unwrap()).collect()
}

fn parse(l: &str) -> Option<Line> {
    let l = l.trim_matches('"');
    let f: Vec<&str> = l.split('|').collect();
    if f[0] != "M" {
        return None;
    }
    let (p, o, s) = (ints(f[4]), ints(f[7]), ints(f[8]));
    Some(Line {
        acts: f[1]
            .split(' ')
            .filter(|x| !x.is_empty())
            .map(|x| x.to_string())
            .collect(),
        b: digits(f[2]),
        t: f[3].parse().unwrap(),
        p: (p[0] as u32, p[1] as u32),
        passes: f[5].parse().unwrap(),
        v: digits(f[6]),
        oc: [o[0], o[1], o[2]],
        sc: [s[0], s[1]],
        hist: f[9]
            .split('/')
            .filter(|x| !x.is_empty())
            .map(digits)
            .collect(),
    })
}

pub fn games(prop: &str, h: usize, w: usize, ill: u32, sco: u32, k4: i64, file: &str) -> Tally {
    let mut t = Tally::new();
    let text = std::fs::read_to_string(file).unwrap();
    for l in text.lines().filter_map(parse) {
        if t.full() {
            break;
        }
        t.states += 1;
        t.transitions += l.acts.len() as u64;
        if t.states % 4001 == 7 && t.sample.len() < 3 {
            t.sample.push(format!(
                "{} -> {} verdicts {}",
                l.acts.join(" "),
                show(&l.b),
                show(&l.v)
            ));
        }
        let res = guard(|| {
            let mut t2 = Tally::new();
            one(prop, h, w, ill, sco, k4, &l, &mut t2);
            t2
        });
        match res {
            Ok(t2) => {
                t.checks += t2.checks;
                t.skipped += t2.skipped;
                t.bad.extend(t2.bad);
            }
            Err(m) => t.bad.push(format!("{}: panic {m}", l.acts.join(" "))),
        }
    }
    t
}

#[allow(clippy::too_many_arguments)]
fn one(prop: &str, h: usize, w: usize, ill: u32, sco: u32, k4: i64, l: &Line, t: &mut Tally) {
    let at = || format!("{h}x{w} rules {ill}: {}", l.acts.join(" "));
    let xy = |p: usize| (((p - 1) / w) as u8, ((p - 1) % w) as u8);
    let kind = l.acts.iter().flat_map(|a| a.bytes()).fold(l.acts.len(), |k, b| k * 31 % 9973 + b as usize);
    let mut g = empty_game(h, w, ill, sco, k4, kind);
    let mut moves: Vec<Option<Move>> = vec![];
    for a in &l.acts {
        let m = match a.as_str() {
            "R" => {
                g.resume();
                moves.push(None);
                continue;
            }
            "P" => Move::Pass,
            "Q1" => Move::Resign(Color::Black),
            "Q2" => Move::Resign(Color::White),
            p => {
                let c = xy(p.parse().unwrap());
                Move::Play(c.0, c.1)
            }
        };
        moves.push(Some(m));
        if g.try_play(m).is_err() {
            if matches!(prop, "C05" | "C06") {
                t.ck(false, || format!("{}: {a} is refused", at()));
            }
            t.skipped += 1;
            return;
        }
    }
    let gb = g.goban();
    let b = board(gb);
    if prop == "C01" {
        t.ck(b == l.b, || {
            format!("{}: board {} instead of {}", at(), show(&b), show(&l.b))
        });
    }
    if b != l.b {
        t.skipped += 1;
        return;
    }
    let cs = coords(gb);
    match prop {
        "C05" if l.passes < 2 => {
            let v: Vec<u8> = cs.iter().map(|&c| code(g.check_point(c))).collect();
            t.ck(v == l.v, || {
                format!("{}: verdicts {} instead of {}", at(), show(&v), show(&l.v))
            });
            let v = try_codes(&g);
            t.ck(v == l.v, || {
                format!("{}: try_play {} instead of {}", at(), show(&v), show(&l.v))
            });
        }
        "C06" => {
            let v = try_codes(&g);
            t.ck(v == l.v, || {
                format!("{}: try_play {} instead of {}", at(), show(&v), show(&l.v))
            });
            let (s, nd) = set(gb, g.legals());
            let want: Set = cs
                .iter()
                .filter(|&&c| g.check_point(c).is_none())
                .map(|&c| pn(gb, c))
                .collect();
            t.ck(nd && s == want, || format!("{}: legals {s:?}", at()));
        }
        "C07" => {
            t.ck(num(g.turn()) == l.t, || format!("{}: turn", at()));
            let over = l.passes == 2 || l.oc[0] > 1 && l.oc[0] < 5 || l.oc[0] == 2;
            t.ck(g.is_over() == over, || {
                format!("{}: is_over {}", at(), g.is_over())
            });
            let mut k = g.clone();
            let e = code(k.try_play(Move::Pass).err());
            t.ck((e == 3) == (l.passes == 2), || {
                format!("{}: a further pass gives {e}", at())
            });
            let mut k = g.clone();
            k.resume();
            t.ck(
                k.turn() == g.turn() && board(k.goban()) == b && k.prisoners() == g.prisoners(),
                || format!("{}: resume", at()),
            );
            t.ck(k.is_over() == (l.oc[0] == 2), || {
                format!("{}: over after resume", at())
            });
            k.play(Move::Pass);
            t.ck(k.is_over() == (l.oc[0] == 2), || {
                format!("{}: over after one pass", at())
            });
            k.play(Move::Pass);
            t.ck(k.is_over() && k.turn() == g.turn(), || {
                format!("{}: two passes", at())
            });
        }
        "C08" => t.ck(g.prisoners() == l.p, || {
            format!("{}: prisoners {:?}", at(), g.prisoners())
        }),
        "C09" => {
            if g.prisoners() == l.p {
                let s = g.calculate_score();
                t.ck([q4(s.0), q4(s.1)] == l.sc, || {
                    format!("{}: score {s:?}", at())
                });
            }
        }
        "C10" => {
            let s = g.calculate_score();
            if [q4(s.0), q4(s.1)] == l.sc {
                let o = outcome(g.outcome());
                t.ck(o == l.oc, || {
                    format!("{}: outcome {o:?} instead of {:?}", at(), l.oc)
                });
                t.ck(g.is_over() == (l.oc[0] != 0), || {
                    format!("{}: is_over", at())
                });
                let w = g.outcome().map_or(0, |e| mnum(e.get_winner()));
                t.ck(w as i64 == if l.oc[0] == 5 { 0 } else { l.oc[1] }, || {
                    format!("{}: winner {w}", at())
                });
            }
        }
        "C11" => {
            let mut k = Goban::new((h as u8, w as u8));
            for &c in &cs {
                if let Some(x) = gb.get_color(c) {
                    k.push(c, x);
                }
            }
            t.ck(k == *gb && k.zobrist_hash() == gb.zobrist_hash(), || {
                format!("{}: board differs from the same position set up", at())
            });
        }
        "C14" => {
            if moves.iter().all(|m| m.is_some()) {
                let ms: Vec<Move> = moves.iter().map(|m| m.unwrap()).collect();
                let k = Game::builder()
                    .size((h as u8, w as u8))
                    .rule(rule(ill, sco, k4))
                    .moves(&ms)
                    .build();
                same_game(&g, k, &at(), t);
            }
        }
        "C15" => {
            if ill == 7
                && sco == 3
                && moves
                    .iter()
                    .all(|m| matches!(m, Some(Move::Play(..) | Move::Pass)))
            {
                let mut s = format!("(;SZ[{w}:{h}]RU[Chinese]KM[{}]", k4 as f32 / 4.0);
                for (i, m) in moves.iter().enumerate() {
                    s += if i % 2 == 0 { ";B[" } else { ";W[" };
                    if let Some(Move::Play(x, y)) = m {
                        s += &format!("{}{}", (b'a' + y) as char, (b'a' + x) as char);
                    }
                    s += "]";
                }
                s += ")";
                same_game(&g, Game::from_sgf(&s), &s, t);
            }
        }
        "C24" => {
            t.ck(
                num(g.turn()) == l.t
                    && g.prisoners() == l.p
                    && outcome(g.outcome()) == l.oc
                    && history(&g) == l.hist,
                || format!("{}: another state than the script's", at()),
            );
            // unchecked plays, with clones and refused plays on the way
            let mut k = empty_game(h, w, ill, sco, k4, kind + 1);
            for m in &moves {
                let mut o = k.clone();
                match m {
                    Some(m) => {
                        k.play(*m);
                    }
                    None => k.resume(),
                }
                for &c in &cs {
                    if o.check_point(c).is_some() {
                        let _ = o.try_play(Move::Play(c.0, c.1));
                        let _ = k.check_point(c);
                    }
                }
                if let Some(&c) = cs.iter().find(|&&c| k.check_point(c) == Some(PlayError::PointNotEmpty)) {
                    let _ = k.try_play(Move::Play(c.0, c.1));
                }
                let _ = o.try_play(Move::Pass);
            }
            same_game(&g, Ok(k), &at(), t);
            if moves.iter().all(|m| m.is_some()) {
                let ms: Vec<Move> = moves.iter().map(|m| m.unwrap()).collect();
                let k = Game::builder()
                    .moves(&ms)
                    .komi(k4 as f32 / 4.0)
                    .rule(rule(ill, sco, 77))
                    .size((h as u8, w as u8))
                    .build();
                same_game(&g, k, &at(), t);
            }
        }
        "C16" => {
            let hi = history(&g);
            t.ck(hi == l.hist, || format!("{}: history {hi:?}", at()));
        }
        "C17" => {
            let sn = snapshot(&g);
            for (i, &c) in cs.iter().enumerate() {
                if g.goban().get_color(c).is_some() {
                    continue;
                }
                let s = g.play_for_verification(c);
                let mut k = g.clone();
                k.play(Move::Play(c.0, c.1));
                t.ck(s == *k.goban() && board(&s) == board(k.goban()), || {
                    format!("{} then {}: simulated {}", at(), i + 1, show(&board(&s)))
                });
            }
            t.ck(snapshot(&g) == sn, || {
                format!("{}: queries had an effect", at())
            });
        }
        _ => {}
    }
}

fn same_game(g: &Game, k: Result<Game, String>, at: &str, t: &mut Tally) {
    match k {
        Err(e) => t.ck(false, || format!("{at}: {e}")),
        Ok(k) => {
            let f = |g: &Game| {
                (
                    board(g.goban()),
                    num(g.turn()),
                    g.prisoners(),
                    g.is_over(),
                    outcome(g.outcome()),
                    q4(g.komi()),
                    history(g),
                    coords(g.goban())
                        .into_iter()
                        .map(|c| code(g.check_point(c)))
                        .collect::<Vec<_>>(),
                )
            };
            let (a, b) = (f(g), f(&k));
            t.ck(a == b, || format!("{at}: {b:?} instead of {a:?}"));
        }
    }
}

/// Every board of a size, reached by editing, and every single edit of it.
pub fn boards(prop: &str, gr: &Graph, seed: u64) -> Tally {
    let mut t = Tally::new();
    let mut r = Rng::new(seed);
    let (h, w) = (gr.h, gr.w);
    let n = h * w;
    let mut hashes: HashMap<Bd, u64> = HashMap::new();
    let mut list: Vec<&Bd> = gr.boards.keys().collect();
    list.sort();
    r.shuffle(&mut list);
    let mut work = Goban::new((h as u8, w as u8));
    for b in list {
        if t.full() {
            break;
        }
        t.states += 1;
        if t.sample.len() < 3 && r.chance(1) {
            t.sample.push(format!("board {}", show(b)));
        }
        let i = &gr.boards[b];
        let res = guard(|| {
            let mut u = Tally::new();
            let turn = r.range(1, 2) as u8;
            let k4 = *r.pick(&[0i64, 26, 2, -3]);
            let ill = *r.pick(&[0u32, 5, 7, 13, 15]);
            let g = match set_up(
                &B {
                    h,
                    w,
                    c: b.clone(),
                },
                ill,
                r.below(8) as u32,
                k4,
                turn,
            ) {
                Ok(g) => g,
                Err(e) => {
                    u.ck(false, || format!("{}: not set up: {e}", show(b)));
                    return u;
                }
            };
            u.ck(board(g.goban()) == *b, || {
                format!("{}: set up as {}", show(b), show(&board(g.goban())))
            });
            board_info(prop, gr, &g, g.goban(), b, i, k4, &mut hashes, &mut u);
            if !matches!(prop, "C02" | "C19" | "C11" | "C12" | "C20" | "C21") {
                return u;
            }
            // the same board from the one before, by taking groups and placing stones
            loop {
                let cur = board(&work);
                let bad: Vec<usize> = group_idxs(&work)
                    .into_iter()
                    .filter(|&x| {
                        let (c, s) = stones_of(&work, x);
                        r.chance(40) || s.iter().any(|&p| b[p - 1] != c)
                    })
                    .collect();
                if bad.is_empty() || cur.iter().all(|&x| x == 0) {
                    break;
                }
                let x = *r.pick(&bad);
                let (_, s) = stones_of(&work, x);
                work.remove_chain(x);
                u.transitions += 1;
                let mut want = cur.clone();
                for p in s {
                    want[p - 1] = 0;
                }
                let got = board(&work);
                u.ck(got == want, || {
                    format!("{} group {x} taken: {}", show(&cur), show(&got))
                });
                board_info(
                    prop,
                    gr,
                    &g,
                    &work,
                    &want,
                    &gr.boards[&want],
                    k4,
                    &mut hashes,
                    &mut u,
                );
                if got != want {
                    work = Goban::new((h as u8, w as u8));
                }
            }
            let mut todo: Vec<usize> = (0..n)
                .filter(|&p| b[p] != 0 && mnum(work.get_color(gr.xy(p + 1))) == 0)
                .collect();
            r.shuffle(&mut todo);
            for p in todo {
                if r.chance(30) {
                    work.push_stone(Stone {
                        coord: gr.xy(p + 1),
                        color: col(b[p]),
                    });
                } else {
                    work.push(gr.xy(p + 1), col(b[p]));
                }
                u.transitions += 1;
            }
            let got = board(&work);
            u.ck(got == *b, || format!("{}: edited into {}", show(b), show(&got)));
            board_info(prop, gr, &g, &work, b, i, k4, &mut hashes, &mut u);
            u.ck(work == *g.goban(), || {
                format!("{}: set up and edited boards differ", show(b))
            });
            if !matches!(prop, "C02" | "C19") {
                return u;
            }
            // every single edit
            for p in 0..n {
                if b[p] != 0 {
                    continue;
                }
                for c in [1u8, 2] {
                    let mut k = work.clone();
                    k.push(gr.xy(p + 1), col(c));
                    let mut want = b.clone();
                    want[p] = c;
                    u.transitions += 1;
                    let got = board(&k);
                    u.ck(got == want, || {
                        format!("{} with {c} on {}: {}", show(b), p + 1, show(&got))
                    });
                    board_info(prop, gr, &g, &k, &want, &gr.boards[&want], k4, &mut hashes, &mut u);
                }
            }
            for x in group_idxs(&work) {
                let mut k = work.clone();
                let (_, s) = stones_of(&k, x);
                k.remove_chain(x);
                let mut want = b.clone();
                for p in &s {
                    want[p - 1] = 0;
                }
                u.transitions += 1;
                let got = board(&k);
                u.ck(got == want, || {
                    format!("{} without {s:?}: {}", show(b), show(&got))
                });
                board_info(prop, gr, &g, &k, &want, &gr.boards[&want], k4, &mut hashes, &mut u);
                u.ck(board(&work) == *b, || format!("{}: changed by a clone", show(b)));
            }
            u
        });
        match res {
            Ok(u) => {
                t.checks += u.checks;
                t.transitions += u.transitions;
                t.bad.extend(u.bad);
            }
            Err(e) => {
                t.bad.push(format!("{}: panic: {e}", show(b)));
                work = Goban::new((h as u8, w as u8));
            }
        }
    }
    t.bad.truncate(6);
    t
}
