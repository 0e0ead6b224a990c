//! Every position of a size against its images under the symmetries of the board and the
//! exchange of the colours; positions and symmetries come from Images.tla.
use crate::drive::{guard, set_up};
use crate::gen::B;
use crate::graph::Tally;
use crate::obs::*;
use crate::util::Rng;
use goban::rules::game::Game;
use goban::rules::Move;

/// What a game says, in terms of the points and colours of the position it came from.
#[derive(PartialEq, Debug)]
struct Said {
    verdicts: Vec<Vec<u8>>,
    legal: Vec<bool>,
    captures: Vec<bool>,
    after: Vec<Option<Vec<u8>>>,
    territory: [Vec<bool>; 2],
    stones: [u32; 2],
    scores: Vec<[i64; 2]>,
}

struct Map<'a> {
    to: &'a [usize],
    w: usize,
    swap: bool,
}

impl Map<'_> {
    fn xy(&self, p: usize) -> (u8, u8) {
        let q = self.to[p];
        ((q / self.w) as u8, (q % self.w) as u8)
    }
    fn color(&self, c: u8) -> u8 {
        if self.swap && c != 0 {
            3 - c
        } else {
            c
        }
    }
    fn back(&self, b: &[u8]) -> Vec<u8> {
        self.to.iter().map(|&q| self.color(b[q])).collect()
    }
    fn pair<T>(&self, a: T, b: T) -> [T; 2] {
        if self.swap {
            [b, a]
        } else {
            [a, b]
        }
    }
}

fn said(g: &Game, m: &Map) -> Said {
    let n = m.to.len();
    let gb = g.goban();
    let empty = |p: usize| gb.get_color(m.xy(p)).is_none();
    let mark = |v: Vec<(u8, u8)>| (0..n).map(|p| v.contains(&m.xy(p))).collect::<Vec<bool>>();
    let (tb, tw) = gb.get_territories();
    let s = gb.number_of_stones();
    Said {
        verdicts: [5u32, 1, 7]
            .iter()
            .map(|&f| {
                (0..n)
                    .map(|p| code(g.check_point_by(m.xy(p), flags(f))))
                    .collect()
            })
            .collect(),
        legal: mark(g.legals().collect()),
        captures: (0..n).map(|p| empty(p) && g.will_capture(m.xy(p))).collect(),
        after: (0..n)
            .map(|p| empty(p).then(|| m.back(&board(&g.play_for_verification(m.xy(p))))))
            .collect(),
        territory: m.pair(
            mark(tb.map(|p| p.coord).collect()),
            mark(tw.map(|p| p.coord).collect()),
        ),
        stones: m.pair(s.0, s.1),
        scores: [0u32, 1, 4, 5]
            .iter()
            .map(|&f| {
                let s = g.calculate_score_by(sflags(f));
                m.pair(q4(s.0), q4(s.1))
            })
            .collect(),
    }
}

/// images PROP H W FILE SEED
pub fn replay(h: usize, w: usize, file: &str, seed: u64) -> Tally {
    let mut t = Tally::new();
    let mut r = Rng::new(seed);
    let txt = std::fs::read_to_string(file).unwrap();
    let n = h * w;
    // image of each point, with the shape of the image
    let mut sym: Vec<(usize, usize, Vec<usize>)> = vec![];
    let mut boards: Vec<Vec<u8>> = vec![];
    for l in txt.lines() {
        let l = l.trim().trim_matches('"');
        if let Some(x) = l.strip_prefix("S|") {
            let f: Vec<&str> = x.split('|').collect();
            let v = f[3].split('.').map(|x| x.parse::<usize>().unwrap() - 1);
            sym.push((f[1].parse().unwrap(), f[2].parse().unwrap(), v.collect()));
        } else if let Some(x) = l.strip_prefix("I|") {
            boards.push(x.bytes().map(|b| b - b'0').collect());
        }
    }
    boards.sort();
    let own: Vec<usize> = (0..n).collect();
    let few = boards.len() > 30_000;
    for b in &boards {
        if t.full() {
            break;
        }
        t.states += 1;
        if t.sample.len() < 3 && r.chance(1) {
            t.sample.push(format!("board {b:?}"));
        }
        let ill = *r.pick(&[5u32, 0, 7, 1]);
        let turn = r.range(1, 2) as u8;
        let res = guard(|| {
            let mut u = Tally::new();
            let start = B { h, w, c: b.clone() };
            let me = Map {
                to: &own,
                w,
                swap: false,
            };
            let Ok(g) = set_up(&start, ill, 0, 0, turn) else {
                return u; // judged where building games is
            };
            let base = said(&g, &me);
            for (k, (h2, w2, to)) in sym.iter().enumerate() {
                for swap in [false, true] {
                    if few && !r.chance(12) {
                        continue;
                    }
                    let m = Map { to, w: *w2, swap };
                    let mut c = vec![0u8; n];
                    for p in 0..n {
                        c[to[p]] = m.color(b[p]);
                    }
                    let img = B {
                        h: *h2,
                        w: *w2,
                        c,
                    };
                    let Ok(g2) = set_up(&img, ill, 0, 0, m.color(turn)) else {
                        continue;
                    };
                    u.transitions += 1;
                    let other = said(&g2, &m);
                    u.ck(base == other, || {
                        format!(
                            "{h}x{w} {b:?} rules {ill} player {turn}, symmetry {} {swap}: {base:?} but {other:?}",
                            k + 1
                        )
                    });
                    // one play further: prisoners and ko
                    let caps: Vec<usize> = (0..n).filter(|&p| base.captures[p]).collect();
                    if base != other || caps.is_empty() {
                        continue;
                    }
                    let p = *r.pick(&caps);
                    let (mut a, mut z) = (g.clone(), g2);
                    let q = me.xy(p);
                    a.play(Move::Play(q.0, q.1));
                    let q = m.xy(p);
                    z.play(Move::Play(q.0, q.1));
                    let pr = (a.prisoners(), z.prisoners());
                    u.ck(
                        [pr.0 .0, pr.0 .1] == m.pair(pr.1 .0, pr.1 .1)
                            && said(&a, &me) == said(&z, &m),
                        || {
                            format!(
                                "{h}x{w} {b:?} rules {ill} player {turn}, symmetry {} {swap}, after {q:?}: {:?} but {:?}",
                                k + 1,
                                said(&a, &me),
                                said(&z, &m)
                            )
                        },
                    );
                }
            }
            u
        });
        match res {
            Ok(u) => {
                t.checks += u.checks;
                t.transitions += u.transitions;
                t.bad.extend(u.bad);
            }
            Err(e) => t.bad.push(format!("{b:?}: panic: {e}")),
        }
    }
    t
}
