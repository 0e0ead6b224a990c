From 4ff105c1961ada8179cd275f682bc810b8b06a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 01/22] fix: use the board width as row stride so rectangular
 boards work

---
 src/pieces/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pieces/util.rs b/src/pieces/util.rs
index c681d4b..8b9083a 100644
--- a/src/pieces/util.rs
+++ b/src/pieces/util.rs
@@ -15,13 +15,13 @@ pub mod coord {
 
     #[inline(always)]
     pub const fn two_to_1dim(size: Size, point: Coord) -> usize {
-        (point.0 as u32 * size.0 as u32 + point.1 as u32) as usize
+        (point.0 as u32 * size.1 as u32 + point.1 as u32) as usize
     }
 
     #[inline(always)]
     pub const fn one_to_2dim(size: Size, index: usize) -> Coord {
         (
-            (index / size.0 as usize) as u8,
+            (index / size.1 as usize) as u8,
             (index % size.1 as usize) as u8,
         )
     }
@@ -30,7 +30,7 @@ pub mod coord {
     macro_rules! one2dim {
         ($size: expr, $index: expr) => {
             (
-                ($index / $size.0 as usize) as u8,
+                ($index / $size.1 as usize) as u8,
                 ($index % $size.1 as usize) as u8,
             )
         };
-- 
2.43.0


From bd655a83e88c19422d4565f6aeb4c48b16d0aeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 02/22] fix: size the board storage to the board so to_vec and
 matrix only cover it

---
 src/pieces/goban.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 0470670..f0eeac2 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -63,8 +63,8 @@ impl Goban {
         Goban {
             size: (height, width),
             zobrist_hash: 0,
-            board: vec![None; BOARD_MAX_LENGTH],
-            next_stone: vec![0; BOARD_MAX_LENGTH],
+            board: vec![None; height as usize * width as usize],
+            next_stone: vec![0; height as usize * width as usize],
             chains: Groups::with_capacity(MAX_CHAINS),
             //free_slots: Default::default(),
         }
-- 
2.43.0


From 3c4baae5e04ac5e9fa0957e56c77cc1756fdc6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 03/22] fix: get_empty_idx returned the occupied intersections

---
 src/pieces/goban.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index f0eeac2..e736ee3 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -369,7 +369,7 @@ impl Goban {
         self.board
             .iter()
             .enumerate()
-            .filter_map(|(idx, group)| group.map(|_| idx))
+            .filter_map(|(idx, group)| group.is_none().then_some(idx))
     }
 
     pub fn get_empty_coords(&self) -> impl Iterator<Item = Coord> + '_ {
-- 
2.43.0


From 33dea079e6b8da324399f3fa1e460b659e2e4a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 04/22] fix: get_coords_by_color listed stones as empty and
 overflowed on boards over 255 points

---
 src/pieces/goban.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index e736ee3..ea01f6c 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -390,9 +390,13 @@ impl Goban {
     #[inline]
     pub fn get_coords_by_color(&self, color: MaybeColor) -> impl Iterator<Item = Coord> + '_ {
         let mut res = ArrayVec::<Coord, BOARD_MAX_LENGTH>::new();
-        for board_idx in 0..(self.size.0 * self.size.1) as usize {
+        for board_idx in 0..self.board.len() {
             match color {
-                EMPTY => res.push(one_to_2dim(self.size, board_idx)),
+                EMPTY => {
+                    if self.board[board_idx].is_none() {
+                        res.push(one_to_2dim(self.size, board_idx))
+                    }
+                }
                 Some(c) => self.board[board_idx]
                     .filter(|&chain_idx| self.chains[chain_idx.get() as usize].color == c)
                     .map(|_| res.push(one_to_2dim(self.size, board_idx)))
-- 
2.43.0


From becf7950cce61715d9b72e9893c67536b21a83ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 05/22] fix: pseudo_legals_vec overflowed on boards over 255
 points

---
 src/rules/game.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index 56aea5c..bbc3ee3 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -138,7 +138,7 @@ impl Game {
     /// Get all moves on all empty intersections.
     pub fn pseudo_legals_vec(&self) -> Vec<Coord> {
         let size = self.size();
-        let mut vec = Vec::with_capacity((size.0 * size.1) as usize);
+        let mut vec = Vec::with_capacity(size.0 as usize * size.1 as usize);
         let board = self.goban.board();
         for i in 0..size.0 as Nat {
             for j in 0..size.1 as Nat {
-- 
2.43.0


From 4637259c1481fbf3a1a5cba5f3713765c36eb002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 06/22] fix: play_for_verification inverted the suicide rule

---
 src/rules/game.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index bbc3ee3..c257211 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -203,7 +203,7 @@ impl Game {
         let mut test_goban = self.goban.clone();
         let (dead_go_strings, added_ren) = test_goban.push_wth_feedback((x, y), self.turn);
         test_goban.remove_captured_stones_aux(
-            self.rule.flag_illegal.contains(IllegalRules::SUICIDE),
+            !self.rule.flag_illegal.contains(IllegalRules::SUICIDE),
             &dead_go_strings,
             added_ren,
         );
-- 
2.43.0


From f261b7ccb3ca4f7c6869785f787a6d78f3eb155c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 07/22] fix: superko missed repetitions early in the game and
 by non-capturing moves

---
 src/rules/game.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index c257211..c684837 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -411,14 +411,15 @@ impl Game {
 
     /// Rule of the super Ko, if any before configuration was already played then return true.
     pub fn check_super_ko(&self, stone: Stone) -> bool {
-        if self.history.len() <= 2 || !self.will_capture(stone.coord) {
+        // While no stone ever left the board every play gives a new configuration, except the
+        // suicide of a lone stone which gives back the current one.
+        if self.goban.get_color(stone.coord).is_some()
+            || (self.prisoners == (0, 0) && !self.check_suicide(stone))
+        {
             false
         } else {
             let to_check = self.play_for_verification(stone.coord);
-            let is_it_ko = self.check_ko(stone);
-                is_it_ko ||  self
-                    .history
-                    .contains(&to_check)
+            to_check == self.goban || self.history.contains(&to_check)
         }
     }
 
-- 
2.43.0


From 9c71a62e03e566246202d93cf0717df3d437b4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 08/22] fix: check_ko reported a suicide on the ko point as a
 ko

---
 src/rules/game.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rules/game.rs b/src/rules/game.rs
index c684837..e30e6fa 100644
--- a/src/rules/game.rs
+++ b/src/rules/game.rs
@@ -400,6 +400,7 @@ impl Game {
     /// If the move captures more than 1 stone then it's not a ko.
     pub fn check_ko(&self, stone: Stone) -> bool {
         self.ko_point == Some(stone.coord)
+            && self.will_capture(stone.coord)
             && !self
                 .goban
                 .get_connected_groups(stone.coord)
-- 
2.43.0


From 27b6e8af105761bba8f7818d1937e1d7115ebbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 09/22] fix: plays outside the board panic as documented
 instead of landing elsewhere

---
 src/pieces/goban.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index ea01f6c..76a947d 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -5,7 +5,7 @@ use crate::pieces::group::CircularGroupIter;
 use crate::pieces::group::{merge, set, Group, Groups, Liberties, EMPTY_LIBERTIES};
 use crate::pieces::stones::*;
 use crate::pieces::util::coord::{
-    one_to_2dim, two_to_1dim, valid_coords, Coord, IntoCoord, IntoIdx, Size,
+    is_coord_valid, one_to_2dim, two_to_1dim, valid_coords, Coord, IntoCoord, IntoIdx, Size,
 };
 use crate::pieces::zobrist::*;
 use crate::pieces::{Connections, Nat};
@@ -154,6 +154,10 @@ impl Goban {
         point: Coord,
         color: Color,
     ) -> (ArrayVec<usize, 4>, GroupIdx) {
+        assert!(
+            is_coord_valid(self.size, point),
+            "Coordinate {point:?} out of bounds"
+        );
         let pushed_stone_idx = two_to_1dim(self.size, point);
 
         let mut adjacent_same_color_str_set = ArrayVec::<BoardIdx, 4>::new();
-- 
2.43.0


From 2d190e94e8a881eb6b14e6f6671a1bae936d1808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 10/22] fix: refuse custom board sizes that do not fit instead
 of truncating them

---
 src/rules/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rules/mod.rs b/src/rules/mod.rs
index 9a0b8e1..6191ffd 100644
--- a/src/rules/mod.rs
+++ b/src/rules/mod.rs
@@ -26,7 +26,10 @@ impl From<GobanSizes> for Size {
             GobanSizes::Nine => (9, 9),
             GobanSizes::Thirteen => (13, 13),
             GobanSizes::Nineteen => (19, 19),
-            GobanSizes::Custom(height, width) => (height as u8, width as u8),
+            GobanSizes::Custom(height, width) => (
+                Nat::try_from(height).expect("The height of the board is too big"),
+                Nat::try_from(width).expect("The width of the board is too big"),
+            ),
         }
     }
 }
-- 
2.43.0


From 8b472d6cfda9bb789b44123cd2f174b8f031857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 11/22] fix: reuse the free group slots, long games ran out of
 group indices

---
 src/pieces/group.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pieces/group.rs b/src/pieces/group.rs
index f5220bc..d1b6f08 100644
--- a/src/pieces/group.rs
+++ b/src/pieces/group.rs
@@ -214,8 +214,16 @@ impl Groups {
     }
 
     pub fn put_free_spot(&mut self, group: Group) -> GroupIdx {
-        self.0.push(Some(group));
-        self.0.len() - 1
+        match self.0.iter().position(Option::is_none) {
+            Some(free_spot) => {
+                self.0[free_spot] = Some(group);
+                free_spot
+            }
+            None => {
+                self.0.push(Some(group));
+                self.0.len() - 1
+            }
+        }
     }
 
     pub fn remove(&mut self, index: usize) {
-- 
2.43.0


From cafa2b9ba6c87d4df61fed6648c05ed9b4b9545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 12/22] fix: SGF sizes are columns by rows

---
 src/rules/sgf_bridge.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 9acad92..362e31f 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -28,7 +28,7 @@ impl Game {
                             game_builder.komi(*komi);
                         }
                         SgfToken::Size(x, y) => {
-                            game_builder.size((*x as u8, *y as u8));
+                            game_builder.size((*y as u8, *x as u8));
                         }
                         SgfToken::Result(o) => {
                             game_builder.outcome((*o).into());
-- 
2.43.0


From 83efa392c8a1969881d26e13ea27fc26e2f30e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 13/22] fix: SGF moves were lost in the root node and after
 another property

---
 src/rules/sgf_bridge.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 362e31f..da35b89 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -75,11 +75,13 @@ impl Game {
                     }
                 }
                 first = false;
-            } else if !node.tokens.is_empty() {
-                let token = node.tokens.first().unwrap();
-                if let SgfToken::Move { action, .. } = token {
-                    moves.push((*action).into());
-                }
+            }
+            let move_token = node.tokens.iter().find_map(|token| match token {
+                SgfToken::Move { action, .. } => Some(*action),
+                _ => None,
+            });
+            if let Some(action) = move_token {
+                moves.push(action.into());
             }
         }
         game_builder.moves(&moves);
-- 
2.43.0


From 8f9b1e76bc798f2d00eff871c8d7baf437848fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 14/22] fix: without PL the first SGF move tells who moves
 first

---
 src/rules/sgf_bridge.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index da35b89..d9d74e8 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -17,6 +17,7 @@ impl Game {
         let mut game_builder: GameBuilder = Default::default();
         let mut first = true;
         let mut moves = vec![];
+        let mut turn_given = false;
 
         for node in game_tree.iter() {
             if first {
@@ -61,6 +62,7 @@ impl Game {
                     for tokens in node.get_unknown_tokens() {
                         if let SgfToken::Unknown((key, value)) = tokens {
                             if key.as_str() == "PL" {
+                                turn_given = true;
                                 match value.as_str() {
                                     "B" => {
                                         game_builder.turn(Color::Black);
@@ -77,10 +79,13 @@ impl Game {
                 first = false;
             }
             let move_token = node.tokens.iter().find_map(|token| match token {
-                SgfToken::Move { action, .. } => Some(*action),
+                SgfToken::Move { color, action } => Some((*color, *action)),
                 _ => None,
             });
-            if let Some(action) = move_token {
+            if let Some((color, action)) = move_token {
+                if moves.is_empty() && !turn_given {
+                    game_builder.turn(color.into());
+                }
                 moves.push(action.into());
             }
         }
-- 
2.43.0


From ce7374cc48eba3a857248390e76e81066d5a73be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 15/22] fix: refuse SGF records and builds that cannot be
 represented instead of panicking

---
 src/rules/game_builder.rs | 25 ++++++++++++++++++++++++-
 src/rules/sgf_bridge.rs   | 22 ++++++++++++++++++----
 2 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/rules/game_builder.rs b/src/rules/game_builder.rs
index f8204fe..6100600 100644
--- a/src/rules/game_builder.rs
+++ b/src/rules/game_builder.rs
@@ -20,7 +20,7 @@
 
 use crate::pieces::goban::Goban;
 use crate::pieces::stones::{Color, Stone};
-use crate::pieces::util::coord::{Coord, Size};
+use crate::pieces::util::coord::{is_coord_valid, Coord, Size};
 use crate::rules::game::Game;
 use crate::rules::{EndGame, Move, Rule, CHINESE};
 use std::mem::take;
@@ -97,16 +97,21 @@ impl GameBuilder {
     }
 
     fn build_inner(mut self) -> Result<Game, String> {
+        if self.size.0 > 19 || self.size.1 > 19 {
+            return Err(format!("The size {:?} is bigger than 19", self.size));
+        }
         let mut goban: Goban = Goban::new(self.size);
 
         let handicap = self.handicap.unwrap_or(self.handicap_points.len() as u32);
 
         for point in self.handicap_points {
+            check_free(&goban, point)?;
             goban.push(point, Color::Black);
         }
 
         // Setup
         for s in self.setup {
+            check_free(&goban, s.coord)?;
             goban.push_stone(s);
         }
 
@@ -136,6 +141,13 @@ impl GameBuilder {
 
         // Moves to play
         for &m in &self.moves {
+            match m {
+                Move::Play(x, y) => check_free(&g.goban, (x, y))?,
+                Move::Pass if g.passes >= 2 => {
+                    return Err("Pass in a paused game".to_string());
+                }
+                _ => {}
+            }
             g.play(m);
         }
 
@@ -149,6 +161,17 @@ impl GameBuilder {
     }
 }
 
+/// A stone can only be put on an empty point of the board.
+fn check_free(goban: &Goban, point: Coord) -> Result<(), String> {
+    if !is_coord_valid(goban.size(), point) {
+        Err(format!("The point {point:?} is outside the board"))
+    } else if goban.get_color(point).is_some() {
+        Err(format!("The point {point:?} is already occupied"))
+    } else {
+        Ok(())
+    }
+}
+
 impl Default for GameBuilder {
     fn default() -> Self {
         GameBuilder {
diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index d9d74e8..bb2f550 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -29,7 +29,9 @@ impl Game {
                             game_builder.komi(*komi);
                         }
                         SgfToken::Size(x, y) => {
-                            game_builder.size((*y as u8, *x as u8));
+                            let height = Nat::try_from(*y).map_err(|e| e.to_string())?;
+                            let width = Nat::try_from(*x).map_err(|e| e.to_string())?;
+                            game_builder.size((height, width));
                         }
                         SgfToken::Result(o) => {
                             game_builder.outcome((*o).into());
@@ -47,13 +49,25 @@ impl Game {
                             });
                         }
                         SgfToken::Rule(rule) => {
-                            game_builder.rule(rule.clone().into());
+                            match rule {
+                                RuleSet::Japanese | RuleSet::Chinese => {
+                                    game_builder.rule(rule.clone().into());
+                                }
+                                _ => {
+                                    return Err(format!(
+                                        "The rule {} is not implemented yet !",
+                                        rule.to_string()
+                                    ))
+                                }
+                            }
                         }
                         SgfToken::Handicap(handicap) => {
                             game_builder.handicap(*handicap);
                         }
                         SgfToken::Game(go) => {
-                            assert_eq!(*go, sgf_parser::Game::Go);
+                            if *go != sgf_parser::Game::Go {
+                                return Err(format!("The game {go:?} is not Go"));
+                            }
                         }
 
                         //TODO another options
@@ -70,7 +84,7 @@ impl Game {
                                     "W" => {
                                         game_builder.turn(Color::White);
                                     }
-                                    _ => unreachable!(),
+                                    _ => return Err(format!("Unknown player {value}")),
                                 }
                             }
                         }
-- 
2.43.0


From f474720c16d93b4cd518acad2d9ac4946f47bce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 16/22] fix: SGF coordinate 0 underflowed

---
 src/rules/sgf_bridge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index bb2f550..9ba9494 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -41,7 +41,7 @@ impl Game {
                             coordinate: (x, y),
                         } => {
                             game_builder.add(Stone {
-                                coord: ((*y - 1) as Nat, (*x - 1) as Nat),
+                                coord: (y.wrapping_sub(1), x.wrapping_sub(1)),
                                 color: match color {
                                     SgfColor::Black => Color::Black,
                                     SgfColor::White => Color::White,
@@ -142,7 +142,7 @@ impl From<Outcome> for EndGame {
 impl From<Action> for Move {
     fn from(a: Action) -> Self {
         match a {
-            Action::Move(col, line) => Move::Play((line - 1) as Nat, (col - 1) as Nat),
+            Action::Move(col, line) => Move::Play(line.wrapping_sub(1), col.wrapping_sub(1)),
             Action::Pass => Move::Pass,
         }
     }
-- 
2.43.0


From 50094cbed692b15a5cad31bb501e270c31fa175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 17/22] fix: SGF move tt is a pass

---
 src/rules/sgf_bridge.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 9ba9494..8364527 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -142,6 +142,8 @@ impl From<Outcome> for EndGame {
 impl From<Action> for Move {
     fn from(a: Action) -> Self {
         match a {
+            // "tt" is a pass on boards up to 19x19
+            Action::Move(20, 20) => Move::Pass,
             Action::Move(col, line) => Move::Play(line.wrapping_sub(1), col.wrapping_sub(1)),
             Action::Pass => Move::Pass,
         }
-- 
2.43.0


From 89b9375177b7d57c954cd588963a9985d914a006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 18/22] fix: get_floating_stones returned the wrong groups and
 indices

---
 src/pieces/goban.rs      | 5 +++++
 src/rules/dead_stones.rs | 6 +++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pieces/goban.rs b/src/pieces/goban.rs
index 76a947d..2fa5d0e 100644
--- a/src/pieces/goban.rs
+++ b/src/pieces/goban.rs
@@ -83,6 +83,11 @@ impl Goban {
         self.chains.iter()
     }
 
+    #[cfg(feature = "deadstones")]
+    pub(crate) fn chains_with_index(&self) -> impl Iterator<Item = (GroupIdx, Group)> + '_ {
+        self.chains.iter_with_index()
+    }
+
     pub fn chain_stones(&self, idx: impl IntoIdx) -> impl Iterator<Item = Stone> + '_ {
         let idx = idx.into_idx(self.size);
         let chain = self.chains[idx];
diff --git a/src/rules/dead_stones.rs b/src/rules/dead_stones.rs
index 83e9af4..a630ba1 100644
--- a/src/rules/dead_stones.rs
+++ b/src/rules/dead_stones.rs
@@ -148,10 +148,10 @@ impl Game {
                 chains_wth_eye
                     .entry(chain_idx)
                     .and_modify(|v| *v += 1)
-                    .or_insert(0);
+                    .or_insert(1);
             }
         }
-        let all_chains = self.goban.chains().enumerate();
+        let all_chains = self.goban.chains_with_index();
         let string_with_2eyes = chains_wth_eye
             .into_iter()
             .filter(|(_, v)| *v >= 2)
@@ -159,7 +159,7 @@ impl Game {
             .collect::<HashSet<_>>();
 
         all_chains
-            .filter(|(idx, _chain)| string_with_2eyes.contains(idx))
+            .filter(|(idx, _chain)| !string_with_2eyes.contains(idx))
             .map(|(idx, _chain)| idx)
             .collect()
     }
-- 
2.43.0


From 3f5b7f36c9a46fb92b429e436206ee34c9a0b7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 19/22] fix: dead stone simulations panicked on drawn games

---
 src/rules/dead_stones.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rules/dead_stones.rs b/src/rules/dead_stones.rs
index a630ba1..1578d85 100644
--- a/src/rules/dead_stones.rs
+++ b/src/rules/dead_stones.rs
@@ -4,7 +4,7 @@ use std::collections::{HashMap, HashSet};
 use crate::pieces::goban::GroupIdx;
 use crate::pieces::stones::Stone;
 use crate::rules::game::Game;
-use crate::rules::{Color, IllegalRules, Move};
+use crate::rules::{Color, EndGame, IllegalRules, Move};
 use oxymcts::{
     uct_value, DefaultBackProp, DefaultLazyTreePolicy, Evaluator, GameTrait, LazyMcts,
     LazyMctsNode, Num, Playout,
@@ -79,8 +79,9 @@ impl Evaluator<Game, Reward, ()> for Eval {
     }
 
     fn evaluate_leaf(child: Game, turn: &<Game as GameTrait>::Player) -> Self::EvalResult {
-        let winner = child.get_winner();
-        if winner == *turn {
+        // A drawn game has no winner
+        let winner = child.outcome().and_then(EndGame::get_winner);
+        if winner == Some(*turn) {
             1
         } else {
             0
-- 
2.43.0


From 5b7a40a0f46c81de17aa158d7df96253d23fdde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 20/22] fix: refuse SGF records whose moves do not alternate or
 that set stones up later

---
 src/rules/sgf_bridge.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/rules/sgf_bridge.rs b/src/rules/sgf_bridge.rs
index 8364527..c30a54c 100644
--- a/src/rules/sgf_bridge.rs
+++ b/src/rules/sgf_bridge.rs
@@ -18,6 +18,8 @@ impl Game {
         let mut first = true;
         let mut moves = vec![];
         let mut turn_given = false;
+        // The player the next move belongs to
+        let mut to_move = None;
 
         for node in game_tree.iter() {
             if first {
@@ -79,9 +81,11 @@ impl Game {
                                 turn_given = true;
                                 match value.as_str() {
                                     "B" => {
+                                        to_move = Some(Color::Black);
                                         game_builder.turn(Color::Black);
                                     }
                                     "W" => {
+                                        to_move = Some(Color::White);
                                         game_builder.turn(Color::White);
                                     }
                                     _ => return Err(format!("Unknown player {value}")),
@@ -91,12 +95,18 @@ impl Game {
                     }
                 }
                 first = false;
+            } else if node.tokens.iter().any(is_setup) {
+                return Err("Set-up stones after the root node are not handled".to_string());
             }
             let move_token = node.tokens.iter().find_map(|token| match token {
                 SgfToken::Move { color, action } => Some((*color, *action)),
                 _ => None,
             });
             if let Some((color, action)) = move_token {
+                if to_move.is_some_and(|player| player != color.into()) {
+                    return Err("Two moves in a row by the same player are not handled".to_string());
+                }
+                to_move = Some(!Color::from(color));
                 if moves.is_empty() && !turn_given {
                     game_builder.turn(color.into());
                 }
@@ -108,6 +118,15 @@ impl Game {
     }
 }
 
+/// True when the token adds or removes stones without playing.
+fn is_setup(token: &SgfToken) -> bool {
+    match token {
+        SgfToken::Add { .. } => true,
+        SgfToken::Unknown((key, _)) => key == "AE",
+        _ => false,
+    }
+}
+
 impl From<RuleSet> for Rule {
     fn from(r: RuleSet) -> Self {
         match r {
-- 
2.43.0


From e13ec59a5950de545ac588b6b837403bc65f6338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:18 +0000
Subject: [PATCH 21/22] fix: dead stone simulations never ended on positions
 that can only be repeated

---
 src/rules/dead_stones.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rules/dead_stones.rs b/src/rules/dead_stones.rs
index 1578d85..e2a331b 100644
--- a/src/rules/dead_stones.rs
+++ b/src/rules/dead_stones.rs
@@ -167,6 +167,8 @@ impl Game {
 
     pub fn dead_stones_wth_simulations(&self, nb_simulations: usize) -> HashSet<GroupIdx> {
         let mut game = self.clone();
+        // Without superko some positions can only be repeated and would never end.
+        game.rule.flag_illegal |= IllegalRules::SUPERKO;
         let floating_stones = self.get_floating_stones();
         while !game.is_over() {
             let m = {
-- 
2.43.0


From aa4bb279de057fa69b65101e54cf4fbd2da7acd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 22/22] fix: stone iterators kept announcing the whole group's
 length

---
 src/pieces/group.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pieces/group.rs b/src/pieces/group.rs
index d1b6f08..f35ee0f 100644
--- a/src/pieces/group.rs
+++ b/src/pieces/group.rs
@@ -260,6 +260,9 @@ impl Iterator for CircularGroupIter<'_> {
             .next
             .map(|stone_idx| self.next_stone[stone_idx] as usize)
             .filter(move |&o| o != origin);
+        if ret.is_some() {
+            self.num_stones -= 1;
+        }
 
         #[cfg(debug_assertions)]
         if ret.is_some() && self.next == ret {
-- 
2.43.0

