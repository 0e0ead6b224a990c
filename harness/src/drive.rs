//! Drives the real code and records what it does, as ndjson events.
use crate::gen::{choose, position, size, B};
use crate::obs::*;
use crate::util::{arr, jstr, Rng};
use goban::pieces::goban::Goban;
use goban::pieces::stones::{Color, Stone};
use goban::rules::game::Game;
use goban::rules::{EndGame, GobanSizes, Move, Rule};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".to_string()
        }
    })
}

pub struct Out {
    pub lines: Vec<String>,
    pub cost: usize,
    pub scenarios: usize,
}

impl Out {
    pub fn new() -> Self {
        Out {
            lines: vec![],
            cost: 0,
            scenarios: 0,
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Act {
    Try(u8, u8),
    Raw(u8, u8),
    TryPass,
    RawPass,
    TryResign(u8),
    RawResign(u8),
    Resume,
    Komi(i64),
}

pub struct Sc<'a> {
    pub prop: &'a str,
    pub g: Game,
    pub ill: u32,
    pub out: &'a mut Out,
    pub r: Rng,
    pub dead: bool,
    pub recent: Vec<usize>,
    /// percentage of the events that carry an observation
    pub obs_pct: usize,
    pub last_base: String,
}

pub fn rule(ill: u32, sco: u32, k4: i64) -> Rule {
    Rule {
        komi: k4 as f32 / 4.0,
        flag_illegal: flags(ill),
        flag_score: sflags(sco),
    }
}

impl<'a> Sc<'a> {
    fn observe(&mut self, force: bool) -> String {
        if !force && !self.r.chance(self.obs_pct) {
            return String::new();
        }
        let mut r = Rng::new(self.r.next());
        let o = guard(|| obs(self.prop, &self.g, self.ill, &mut r));
        match o {
            Ok(s) if s.is_empty() => s,
            Ok(s) => format!(",\"o\":{{{s}}}"),
            Err(m) => {
                self.dead = true;
                format!(",\"pn\":{}", jstr(&format!("query: {m}")))
            }
        }
    }
    fn emit(&mut self, head: String, force: bool) {
        let b = match guard(|| base(&self.g)) {
            Ok(b) => {
                self.last_base = b.clone();
                b
            }
            Err(m) => {
                self.dead = true;
                format!("{},\"pn\":{}", self.last_base, jstr(&m))
            }
        };
        let o = if self.dead {
            String::new()
        } else {
            self.observe(force)
        };
        let n = self.g.size().0 as usize * self.g.size().1 as usize;
        self.out.cost += 20 + n;
        self.out.lines.push(format!("{{{head},{b}{o}}}"));
    }
    pub fn start(&mut self, sid: &str, sco: u32, k4: i64, extra: &str) {
        let s = self.g.size();
        self.out.scenarios += 1;
        let hd = format!(
            "\"e\":\"start\",\"sid\":{},\"h\":{},\"w\":{},\"ill\":{},\"sco\":{},\"k\":{}{}",
            jstr(sid),
            s.0,
            s.1,
            self.ill,
            sco,
            k4,
            extra
        );
        self.emit(hd, true);
    }
    /// Returns the verdict code, 9 for a panic.
    pub fn act(&mut self, a: Act) -> u8 {
        if self.dead {
            return 9;
        }
        let ok = |r: Result<&mut Game, goban::rules::PlayError>| r.err().map_or(0, perr);
        let search = self.prop == "C28";
        let g = &mut self.g;
        let raw = move |g: &mut Game, m: Move| {
            if search {
                oxymcts::GameTrait::do_move(g, &m);
            } else {
                g.play(m);
            }
            0
        };
        let r = guard(move || match a {
            Act::Try(x, y) => ok(g.try_play(Move::Play(x, y))),
            Act::Raw(x, y) => raw(g, Move::Play(x, y)),
            Act::TryPass => ok(g.try_play(Move::Pass)),
            Act::RawPass => raw(g, Move::Pass),
            Act::TryResign(c) => ok(g.try_play(Move::Resign(col(c)))),
            Act::RawResign(c) => raw(g, Move::Resign(col(c))),
            Act::Resume => {
                g.resume();
                0
            }
            Act::Komi(k) => {
                g.set_komi(k as f32 / 4.0);
                0
            }
        });
        let (c, p) = match r {
            Ok(c) => (c, String::new()),
            Err(m) => {
                self.dead = true;
                (9, format!(",\"pn\":{}", jstr(&m)))
            }
        };
        let hd = match a {
            Act::Try(x, y) => format!("\"e\":\"play\",\"m\":\"try\",\"x\":{x},\"y\":{y}"),
            Act::Raw(x, y) => format!("\"e\":\"play\",\"m\":\"raw\",\"x\":{x},\"y\":{y}"),
            Act::TryPass => "\"e\":\"pass\",\"m\":\"try\"".to_string(),
            Act::RawPass => "\"e\":\"pass\",\"m\":\"raw\"".to_string(),
            Act::TryResign(c) => format!("\"e\":\"resign\",\"m\":\"try\",\"c\":{c}"),
            Act::RawResign(c) => format!("\"e\":\"resign\",\"m\":\"raw\",\"c\":{c}"),
            Act::Resume => "\"e\":\"resume\"".to_string(),
            Act::Komi(k) => format!("\"e\":\"komi\",\"k\":{k}"),
        };
        if let Act::Try(x, y) | Act::Raw(x, y) = a {
            let i = x as usize * self.g.size().1 as usize + y as usize;
            self.recent.insert(0, i);
            self.recent.truncate(6);
        }
        self.emit(format!("{hd},\"r\":{c}{p}"), false);
        c
    }
    /// A pass of a paused game, without a check.
    fn third_pass(&mut self) {
        let g = &mut self.g;
        let r = guard(|| {
            g.play(Move::Pass);
        });
        let hd = format!("\"e\":\"third\",\"r\":{}", r.is_err() as u8);
        self.emit(hd, true);
    }
    pub fn bd(&self) -> B {
        let (h, w) = dims(self.g.goban());
        B {
            h,
            w,
            c: board(self.g.goban()),
        }
    }
}

/// The rule sets a property is driven under.
pub fn rule_for(prop: &str, r: &mut Rng) -> u32 {
    let v: &[u32] = match prop {
        "C03" => &[5, 7, 1, 0, 4, 3, 12],
        "C04" => &[5, 5, 5, 1, 13, 9, 4, 7],
        "C05" => &[7, 7, 2, 3, 6, 7, 4, 0, 15],
        "C18" => &[5, 13, 15, 9, 8, 7],
        "C16" => &[7, 5, 0, 4, 1, 3],
        "C28" => &[5, 7, 1, 0, 4, 3, 13, 15, 9, 8, 2],
        "C06" => &[5, 7, 0, 1, 2, 3, 4, 6, 8, 13, 15],
        "C23" => &[5, 7],
        _ => &[5, 5, 7, 7, 1, 0, 4, 3, 13],
    };
    *r.pick(v)
}

/// The biggest board (points) and the percentage of events observed.
fn bounds(prop: &str, r: &mut Rng) -> usize {
    match prop {
        "C05" => {
            if r.chance(80) {
                12
            } else {
                49
            }
        }
        "C16" | "C28" => {
            if r.chance(70) {
                16
            } else {
                100
            }
        }
        "C04" => {
            if r.chance(70) {
                49
            } else {
                361
            }
        }
        "C06" => {
            if r.chance(75) {
                36
            } else {
                361
            }
        }
        "C23" => {
            if r.chance(60) {
                42
            } else {
                200
            }
        }
        _ => {
            if r.chance(50) {
                60
            } else {
                361
            }
        }
    }
}

fn obs_pct(prop: &str, n: usize) -> usize {
    let dense: usize = match prop {
        "C02" | "C09" | "C21" => 100 * 60 / n.max(1),
        "C03" | "C04" => 100 * 80 / n.max(1),
        "C05" => 100,
        "C06" => 100 * 12 / n.max(1),
        "C12" => 100 * 60 / n.max(1),
        "C16" => 20,
        "C28" => 100 * 30 / n.max(1),
        "C17" => 100 * 30 / n.max(1),
        "C18" => 100 * 80 / n.max(1),
        "C20" => 100 * 20 / n.max(1),
        "C23" => 100 * 30 / n.max(1),
        _ => 100,
    };
    dense.clamp(4, 100)
}

/// A game on an empty board: the plain constructor, the builder, or the builder told a
/// handicap number (which puts no stones down) and that Black starts.
pub fn empty_game(h: usize, w: usize, ill: u32, sco: u32, k4: i64, kind: usize) -> Game {
    if kind % 4 < 2 {
        return Game::new(GobanSizes::Custom(h, w), rule(ill, sco, k4));
    }
    let mut b = Game::builder();
    b.size((h as u8, w as u8)).rule(rule(ill, sco, k4));
    if kind % 4 == 3 {
        b.handicap([3, 9, 2, 5, 1, 60][kind / 4 % 6]).turn(col(1));
    }
    b.build()
        .unwrap_or_else(|_| Game::new(GobanSizes::Custom(h, w), rule(ill, sco, k4)))
}

/// A game set up with the given stones; in every second one some of them are a handicap.
pub fn set_up(b: &B, ill: u32, sco: u32, k4: i64, turn: u8) -> Result<Game, String> {
    let seed = b.c.iter().fold(7u64 + ill as u64 * 8 + sco as u64, |h, &c| {
        (h ^ c as u64).wrapping_mul(0x100_0000_01b3)
    });
    let mut r = Rng::new(seed ^ (k4 as u64) << 8 ^ turn as u64);
    let given = match r.below(8) {
        0 | 1 => 3,
        2 => 9,
        3 => r.below(20),
        _ => 0,
    };
    guard(|| {
        let mut bu = Game::builder();
        bu.size((b.h as u8, b.w as u8)).rule(rule(ill, sco, k4));
        let mut hp = vec![];
        for i in 0..b.n() {
            if b.c[i] != 0 {
                let at = ((i / b.w) as u8, (i % b.w) as u8);
                if b.c[i] == 1 && hp.len() < given {
                    hp.push(at);
                    continue;
                }
                bu.add(Stone {
                    coord: at,
                    color: col(b.c[i]),
                });
            }
        }
        if given > 0 {
            bu.put_handicap(&hp).handicap(given as u32);
        }
        bu.turn(col(turn));
        bu.build()
    })
    .and_then(|x| x)
}

/// Learned position keys, two per point.
fn keys(h: usize, w: usize) -> String {
    let mut v = vec![];
    for i in 0..h * w {
        let k: Vec<String> = [Color::Black, Color::White]
            .iter()
            .map(|&c| {
                let mut g = Goban::new((h as u8, w as u8));
                g.push(((i / w) as u8, (i % w) as u8), c);
                arr(&words(g.zobrist_hash()))
            })
            .collect();
        v.push(format!("[{}]", k.join(",")));
    }
    format!("[{}]", v.join(","))
}

fn komi(r: &mut Rng) -> i64 {
    *r.pick(&[26i64, 30, 0, 2, -2, 1, 3, 22, 4, -14, 8, 402])
}

/// Shapes every run visits: big boards, all squares, and a sweep over all sizes.
fn forced(prop: &str, seed: u64, k: u64) -> Option<(usize, usize, usize)> {
    let big = |i: u64| (19 - (i % 3) as usize, 19 - (i / 3 % 3) as usize);
    if matches!(prop, "C05" | "C16") {
        return None;
    }
    match k {
        0 => Some((19, 19, 10)),
        1 => Some((big(seed).0, big(seed).1, 8)),
        2 => Some((19, 19, 9)),
        3 => Some((big(seed + 4).0, big(seed + 4).1, 11)),
        4 => Some((19, 19, 12)),
        _ if prop == "C12" && k % 2 == 0 => {
            let m = ((seed + k / 2) % 19) as usize + 1;
            Some((m, m, 1))
        }
        _ if k % 6 == 5 => {
            let i = ((seed * 53 + k / 6) * 67 % 361) as usize;
            Some((
                i / 19 + 1,
                i % 19 + 1,
                [1, 3, 8, 9, 10, 12][(k / 6 % 6) as usize],
            ))
        }
        _ => None,
    }
}

/// One game scenario.
pub fn game(prop: &str, sid: &str, seed: u64, k: u64, run: u64, out: &mut Out) {
    let mut r = Rng::new(seed);
    let max = bounds(prop, &mut r);
    let force = forced(prop, run, k);
    let (h, w) = if let Some(f) = force {
        (f.0, f.1)
    } else if prop == "C05" && max <= 12 {
        *r.pick(&[
            (2, 2),
            (1, 3),
            (1, 4),
            (2, 3),
            (3, 2),
            (3, 3),
            (1, 5),
            (1, 6),
            (5, 1),
            (3, 4),
            (2, 4),
            (4, 2),
        ])
    } else {
        size(&mut r, max)
    };
    let n = h * w;
    let ill = rule_for(prop, &mut r);
    let sco = r.below(8) as u32;
    let k4 = komi(&mut r);
    let turn = 1 + r.below(2) as u8;
    let mut extra = String::new();
    let empty_start = match prop {
        _ if force.is_some() => false,
        "C05" | "C16" => r.chance(60),
        "C04" | "C23" | "C20" => r.chance(10),
        "C07" | "C10" => r.chance(50),
        _ => r.chance(25),
    };
    let g = if empty_start {
        let kind = r.below(24);
        guard(|| empty_game(h, w, ill, sco, k4, kind))
    } else {
        let b = if let Some(f) = force {
            crate::gen::position_of(&mut r, h, w, f.2)
        } else if prop == "C04" && r.chance(60) {
            let mut b;
            loop {
                b = position(&mut r, h, w);
                if b.n() < 9 || b.c.iter().any(|&x| x != 0) {
                    break;
                }
            }
            b
        } else {
            position(&mut r, h, w)
        };
        set_up(&b, ill, sco, k4, turn)
    };
    let g = match g {
        Ok(g) => g,
        Err(m) => {
            out.lines.push(format!(
                "{{\"e\":\"broken\",\"sid\":{},\"pn\":{}}}",
                jstr(sid),
                jstr(&m)
            ));
            return;
        }
    };
    if empty_start {
        extra += ",\"fresh\":1";
    }
    if prop == "C11" {
        match guard(|| keys(h, w)) {
            Ok(k) => extra += &format!(",\"keys\":{k}"),
            Err(m) => extra += &format!(",\"pn\":{}", jstr(&m)),
        }
    }
    let mut s = Sc {
        prop,
        g,
        ill,
        out,
        r,
        dead: false,
        recent: vec![],
        obs_pct: obs_pct(prop, n),
        last_base: String::new(),
    };
    s.start(sid, sco, k4, &extra);
    if force.is_some() {
        s.obs_pct = s.obs_pct.max(30);
        play_for(&mut s, 3 + 600 / (n + 40));
    } else {
        play_on(&mut s);
    }
}

/// Plays a while from the current state.
pub fn play_on(s: &mut Sc) {
    let prop = s.prop;
    let n = s.g.size().0 as usize * s.g.size().1 as usize;
    let steps = match prop {
        "C05" => s.r.range(10, 60),
        "C16" => s.r.range(10, 80),
        "C20" | "C23" => s.r.range(1, 12),
        "C07" | "C10" => s.r.range(10, 40),
        _ => {
            let k = n.min(150);
            s.r.range(8, 20 + k)
        }
    };
    play_for(s, steps);
}

pub fn play_for(s: &mut Sc, steps: usize) {
    let prop = s.prop;
    let pass_pct = match prop {
        "C07" | "C10" => 30,
        "C16" | "C05" | "C04" => 8,
        "C28" => 12,
        _ => 4,
    };
    let resign_pct = match prop {
        "C07" | "C10" => 6,
        "C08" | "C16" | "C28" => 1,
        _ => 0,
    };
    let mut paused = false;
    let mut streak = 0;
    let mut aside = false;
    for _ in 0..steps {
        if s.dead {
            break;
        }
        if paused {
            // a few refused attempts, then resume
            if matches!(prop, "C07" | "C10" | "C06") && s.r.chance(60) {
                if prop != "C06" && s.r.chance(20) {
                    s.third_pass();
                    continue;
                }
                let c = s.r.range(1, 2) as u8;
                let b = s.bd();
                let k = s.r.below(b.n());
                let a = match s.r.below(4) {
                    0 => Act::TryPass,
                    1 => Act::TryResign(c),
                    2 if prop == "C10" => Act::RawResign(c),
                    _ => Act::Try((k / b.w) as u8, (k % b.w) as u8),
                };
                s.act(a);
                if prop == "C10" && s.r.chance(40) {
                    let k = komi(&mut s.r);
                    s.act(Act::Komi(k));
                }
                continue;
            }
            if s.r.chance(15) {
                break;
            }
            s.act(Act::Resume);
            paused = false;
            streak = 0;
            continue;
        }
        if prop == "C09" && s.r.chance(4) || prop == "C10" && s.r.chance(6) {
            let k = komi(&mut s.r);
            s.act(Act::Komi(k));
        }
        if s.r.chance(pass_pct) {
            let a = if s.r.chance(50) {
                Act::TryPass
            } else {
                Act::RawPass
            };
            if s.act(a) == 0 {
                streak += 1;
                if streak == 2 {
                    paused = true;
                }
            }
            continue;
        }
        if s.r.chance(resign_pct) {
            let c = s.r.range(1, 2) as u8;
            let a = if s.r.chance(50) {
                Act::TryResign(c)
            } else {
                Act::RawResign(c)
            };
            s.act(a);
            continue;
        }
        // what is not a move changes neither the stones nor what is allowed next
        if aside && s.r.chance(35) {
            let a = match s.r.below(3) {
                0 => Act::Resume,
                1 => Act::TryResign(s.r.range(1, 2) as u8),
                _ => Act::Komi(komi(&mut s.r)),
            };
            s.act(a);
            if matches!(a, Act::Resume) {
                streak = 0;
            }
        }
        aside = false;
        if s.r.chance(1) {
            s.act(Act::Resume); // a resume without a pause only restarts the count
            streak = 0;
            continue;
        }
        let b = s.bd();
        let turn = num(s.g.turn());
        let rec = s.recent.clone();
        match choose(&mut s.r, &b, turn, &rec) {
            None => {
                if s.act(Act::TryPass) == 0 {
                    streak += 1;
                    paused = streak == 2;
                }
            }
            Some(i) => {
                let (x, y) = ((i / b.w) as u8, (i % b.w) as u8);
                // the unchecked play is only used for moves the rules accept
                let raw = s.r.chance(25)
                    && b.c[i] == 0
                    && guard(|| match s.g.check_point((x, y)) {
                        None => true,
                        // what is made through the search interface is played, allowed or not
                        Some(e) => {
                            prop == "C28" && e != goban::rules::PlayError::Suicide
                        }
                    })
                    .unwrap_or(false);
                let c = s.act(if raw { Act::Raw(x, y) } else { Act::Try(x, y) });
                if c == 0 {
                    streak = 0;
                    // points that became empty
                    let a = s.bd();
                    let mut gone: Vec<usize> =
                        (0..b.n()).filter(|&q| b.c[q] != 0 && a.c[q] == 0).collect();
                    aside = gone.len() == 1;
                    gone.truncate(4);
                    for q in gone {
                        s.recent.insert(0, q);
                    }
                    s.recent.truncate(8);
                }
            }
        }
    }
}

/// Fill the whole budget with scenarios.
pub fn drive(prop: &str, seed: u64, cost: usize) -> Out {
    let mut out = Out::new();
    let mut k = 0u64;
    while out.cost < cost && k < 100_000 {
        let sid = format!("{prop}-{seed}-{k}");
        let sseed = seed
            .wrapping_mul(1_000_003)
            .wrapping_add(k)
            .wrapping_add(prop.bytes().map(|b| b as u64).sum::<u64>() << 40);
        one(prop, &sid, sseed, k, seed, &mut out);
        k += 1;
        out.cost += 20;
    }
    out
}

pub fn one(prop: &str, sid: &str, sseed: u64, k: u64, run: u64, out: &mut Out) {
    match prop {
        "C07" if k % 4 == 3 => crate::misc::starts(prop, sid, sseed, out),
        "C10" if k % 4 == 3 => crate::misc::preset(prop, sid, sseed, out),
        "C11" if k % 3 == 1 => crate::misc::compare(sid, sseed, out),
        "C11" if k % 3 == 2 => crate::misc::edits(prop, sid, sseed, k, out),
        "C19" | "C21" if k == 5 => crate::misc::long_edits(sid, sseed, out),
        "C02" if k % 5 == 4 => crate::misc::edits(prop, sid, sseed, k, out),
        "C13" => crate::misc::offboard(sid, sseed, out),
        "C14" if k % 4 == 3 => crate::misc::handicap(sid, sseed, out),
        "C14" => crate::misc::builds(sid, sseed, out),
        "C15" => crate::sgf::loads(sid, sseed, false, out),
        "C22" => crate::sgf::loads(sid, sseed, true, out),
        "C19" => crate::misc::edits(prop, sid, sseed, k, out),
        "C24" if k == 5 => crate::extra::steady(sid, sseed, out),
        "C24" => crate::extra::replay(sid, sseed, out),
        "C25" => crate::extra::mirror(sid, sseed, out),
        "C26" => crate::extra::store(sid, sseed, out),
        "C27" => crate::extra::names(sid, sseed, k, run, out),
        _ if k == 4 => long_game(prop, sid, sseed, out),
        _ => game(prop, sid, sseed, k, run, out),
    }
}

/// One game far longer than the others, on a small board.
fn long_game(prop: &str, sid: &str, seed: u64, out: &mut Out) {
    let mut r = Rng::new(seed);
    let repeats = matches!(prop, "C05" | "C06" | "C16" | "C17" | "C28");
    let (h, w) = if repeats {
        *r.pick(&[(4, 4), (4, 5), (5, 4), (5, 5)])
    } else {
        *r.pick(&[(3, 3), (3, 4), (4, 4), (2, 7), (1, 9), (5, 3)])
    };
    let ill = match prop {
        _ if repeats => *r.pick(&[2u32, 3, 6, 7]),
        _ => rule_for(prop, &mut r) & !2,
    };
    let steps = match prop {
        "C05" | "C16" => 2000,
        "C28" | "C17" | "C06" => 500,
        _ => 700,
    };
    let sco = r.below(8) as u32;
    let k4 = komi(&mut r);
    let mut extra = ",\"fresh\":1".to_string();
    let kind = r.below(24);
    let g = match guard(|| empty_game(h, w, ill, sco, k4, kind)) {
        Ok(g) => g,
        Err(m) => {
            out.lines.push(format!(
                "{{\"e\":\"broken\",\"sid\":{},\"pn\":{}}}",
                jstr(sid),
                jstr(&m)
            ));
            return;
        }
    };
    if prop == "C11" {
        match guard(|| keys(h, w)) {
            Ok(k) => extra += &format!(",\"keys\":{k}"),
            Err(m) => extra += &format!(",\"pn\":{}", jstr(&m)),
        }
    }
    let mut s = Sc {
        prop,
        g,
        ill,
        out,
        r,
        dead: false,
        recent: vec![],
        obs_pct: 0,
        last_base: String::new(),
    };
    s.start(sid, sco, k4, &extra);
    let mut passes = 0;
    let mut stuck = 0;
    for i in 0..steps {
        if s.dead {
            return;
        }
        let legal: Vec<(u8, u8)> = guard(|| s.g.legals().collect()).unwrap_or_default();
        stuck = if legal.is_empty() { stuck + 1 } else { 0 };
        let last = i + 1 == steps || stuck == 4;
        s.obs_pct = match prop {
            _ if last => 100,
            "C16" => 0,
            "C05" if legal.len() < 3 => 50,
            _ => 2,
        };
        if last {
            s.act(if passes == 2 { Act::Resume } else { Act::RawPass });
            return;
        }
        if legal.is_empty() || s.r.chance(1) {
            if passes == 2 {
                s.act(Act::Resume);
                passes = 0;
            } else {
                s.act(Act::RawPass);
                passes += 1;
            }
            continue;
        }
        if passes == 2 {
            s.act(Act::Resume);
            passes = 0;
            continue;
        }
        if s.r.chance(if prop == "C05" { 20 } else { 5 }) {
            // any point, allowed or not
            let a = Act::Try(s.r.below(h) as u8, s.r.below(w) as u8);
            if s.act(a) == 0 {
                passes = 0;
            }
            continue;
        }
        let (x, y) = *s.r.pick(&legal);
        let a = if s.r.chance(50) { Act::Raw(x, y) } else { Act::Try(x, y) };
        s.act(a);
        passes = 0;
    }
}

pub fn preset_outcome(r: &mut Rng) -> EndGame {
    let c = col(1 + r.below(2) as u8);
    match r.below(5) {
        0 => EndGame::WinnerByScore(c, r.range(1, 100) as f32 / 4.0),
        1 => EndGame::WinnerByResign(c),
        2 => EndGame::WinnerByTime(c),
        3 => EndGame::WinnerByForfeit(c),
        _ => EndGame::Draw,
    }
}
