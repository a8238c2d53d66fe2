From 15df2dac16e6f763ab0b3492c300b92464739099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 01/37] fix: recorded states are copies, not views of the live
 replay state

---
 MahjongAI/state.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/MahjongAI/state.py b/MahjongAI/state.py
index bd095df..b5dc5bf 100644
--- a/MahjongAI/state.py
+++ b/MahjongAI/state.py
@@ -28,19 +28,19 @@ class StateObject:
         player: int
     ):
         self.remaining_turns = remaining_turns
-        self.hand_tensor = hand_tensor
-        self.remaining_tiles = remaining_tiles
-        self.remaining_tiles_pov = remaining_tiles_pov
-        self.sutehai_tensors = sutehai_tensors
-        self.is_menzen = is_menzen
-        self.double_reaches = double_reaches
-        self.reaches = reaches
-        self.ippatsu = ippatsu
-        self.melds = melds
-        self.scores = scores
+        self.hand_tensor = np.copy(hand_tensor)
+        self.remaining_tiles = np.copy(remaining_tiles)
+        self.remaining_tiles_pov = np.copy(remaining_tiles_pov)
+        self.sutehai_tensors = np.copy(sutehai_tensors)
+        self.is_menzen = list(is_menzen)
+        self.double_reaches = list(double_reaches)
+        self.reaches = list(reaches)
+        self.ippatsu = list(ippatsu)
+        self.melds = [list(m) for m in melds]
+        self.scores = list(scores)
         self.kyotaku = kyotaku
         self.honba = honba
-        self.dora = dora
+        self.dora = list(dora)
         self.parent_tensor = parent_tensor
         self.rounds_remaining = rounds_remaining
         self.parent_rounds_remaining = parent_rounds_remaining
-- 
2.43.0


From 77a4a93e1d6141751838819f732e8d91026e00f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 02/37] fix: a revealed red five indicator is no longer counted
 as unseen

---
 MahjongAI/process_xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 5df14da..acb1c11 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -124,13 +124,13 @@ def process(file_path: str, verbose: bool = False):
 
             if eventtype == "DORA":
                 tile = int(event["attr"]["hai"])
-                tile_idx = TILE2IDX[tile][0]
+                tile_idx = TILE2IDX[tile]
                 doras = doras[:] + [tile]
                 remaining_tiles[tile_idx] -= 1
                 for pov in remaining_tiles_pov:
                     pov[tile_idx] -= 1
                 remaining_tsumo -= 1
-                encoding_tokens.append(new_dora2idx(tile_idx))
+                encoding_tokens.append(new_dora2idx(tile_idx[0]))
 
             elif eventtype == "REACH":
                 assert curr_halfturn is not None
-- 
2.43.0


From 81c98ced7ac5b9295ad3d7c62e513bd338cf2854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 03/37] fix: only draws consume the draw counter, not kans or
 new dora

---
 MahjongAI/process_xml.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index acb1c11..68a0836 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -129,7 +129,6 @@ def process(file_path: str, verbose: bool = False):
                 remaining_tiles[tile_idx] -= 1
                 for pov in remaining_tiles_pov:
                     pov[tile_idx] -= 1
-                remaining_tsumo -= 1
                 encoding_tokens.append(new_dora2idx(tile_idx[0]))
 
             elif eventtype == "REACH":
@@ -199,9 +198,6 @@ def process(file_path: str, verbose: bool = False):
                                 decision.executed = True
                                 break
 
-                if not naki.is_chi() and not naki.is_pon():
-                    remaining_tsumo -= 1
-
                 exposed, acquired = naki.get_exposed()
                 exposed_idx = TILE2IDX[exposed]
 
-- 
2.43.0


From 2a07d5b881beb9ce426a1144da909fd9b0db29c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 04/37] fix: discard tokens carry the discard event type

---
 MahjongAI/process_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 68a0836..fb9b32b 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -591,7 +591,7 @@ def discard2idx(who: int, tile_idx: int, is_tsumogiri: bool):
     assert 0 <= tile_idx < 37
     return (
         EventStateTypes.DISCARD << 13
-        | EventTypes.NAKI << 10
+        | EventTypes.DISCARD << 10
         | who << 8
         | int(is_tsumogiri) << 7
         | tile_idx
-- 
2.43.0


From 8fb18147d654d1132efcd4f188920ca1247de87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 05/37] fix: responders see the discard they respond to in the
 event history

---
 MahjongAI/process_xml.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index fb9b32b..76b6a3e 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -487,6 +487,10 @@ def process(file_path: str, verbose: bool = False):
                         continue
                     post_decisions[p][DECISION_NAKI_IDX] = decision_lst
 
+                encoding_tokens.append(
+                    discard2idx(player, tile_idx[0], tile == acquired)
+                )
+
                 half_turn = PostTurn(
                     player=player,
                     stateObj=stateObj,
@@ -495,10 +499,6 @@ def process(file_path: str, verbose: bool = False):
                 )
                 halfturns.append(half_turn)
                 curr_halfturn = half_turn  # carry over
-
-                encoding_tokens.append(
-                    discard2idx(player, tile_idx[0], tile == acquired)
-                )
                 acquired = None
 
             elif eventtype == "AGARI" or eventtype == "RYUUKYOKU":
-- 
2.43.0


From a45804c6c97c9f9b87129505d2d8181d76d2beaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 06/37] fix: the state recorded after a call includes the
 effects of the call

---
 MahjongAI/process_xml.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 76b6a3e..45cec37 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -216,6 +216,20 @@ def process(file_path: str, verbose: bool = False):
                 if acquired is not None:
                     hand_tensors_full[player][TILE2IDX[acquired]] += 1.0
 
+                if naki.from_who() != 0:
+                    is_menzen[player] = 0
+                if sum(ippatsu):
+                    ippatsu = [0] * 4
+
+                # remove corresponding pon from melds
+                if naki.is_kakan():
+                    for i, meld in enumerate(melds[player]):
+                        if meld.is_pon():
+                            color, number, *_ = meld.pattern_pon()
+                            if color * 9 + number == exposed[0] // 4:
+                                melds[player].pop(i)
+                                break
+
                 stateObj = StateObject(
                     remaining_turns=remaining_tsumo,
                     hand_tensor=hand_tensors[player],
@@ -238,21 +252,8 @@ def process(file_path: str, verbose: bool = False):
                     player=player,
                 )
 
-                if naki.from_who() != 0:
-                    is_menzen[player] = 0
-                if sum(ippatsu):
-                    ippatsu = [0] * 4
-
                 # in case of Kakan, create new post turn to train on chankan ron decision
                 if naki.is_kakan():
-                    # remove corresponding pon from melds
-                    for i, meld in enumerate(melds[player]):
-                        if meld.is_pon():
-                            color, number, *_ = meld.pattern_pon()
-                            if color * 9 + number == exposed[0] // 4:
-                                melds[player].pop(i)
-                                break
-
                     new_post_decisions = [[[] for _ in range(3)] for _ in range(4)]
 
                     # evaluate chankan ron
-- 
2.43.0


From f452e0f93ca42a3689f24bccabcb9e18f1765dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 07/37] fix: one-shot lasts until the riichi player's next
 discard or any call

---
 MahjongAI/process_xml.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 45cec37..29897b5 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -156,8 +156,8 @@ def process(file_path: str, verbose: bool = False):
                         double_reaches[player] = 1
                     encoding_tokens.append(reach2idx(player))
 
-                ippatsu = ippatsu[:]
-                ippatsu[player] = 1
+                    ippatsu = ippatsu[:]
+                    ippatsu[player] = 1
 
             elif eventtype == "N":
                 assert curr_halfturn is not None
@@ -319,10 +319,6 @@ def process(file_path: str, verbose: bool = False):
                 hand_tensors_full[player][tile_idx] += 1.0
                 assert int(hand_tensors[player][:34].sum()) % 3 == 2
 
-                if ippatsu[player]:
-                    ippatsu = ippatsu[:]
-                    ippatsu[player] = 0
-
                 # check if tsumo is possible
                 agari_decisions = evaluate_tsumo(
                     player=player,
@@ -412,8 +408,6 @@ def process(file_path: str, verbose: bool = False):
 
                 halfturns.append(halfturn)
                 curr_halfturn = halfturn  # carry over
-                if sum(ippatsu):
-                    ippatsu = [0] * 4
 
             elif eventtype[0] in ["D", "E", "F", "G"]:
                 assert acquired is not None
@@ -445,6 +439,10 @@ def process(file_path: str, verbose: bool = False):
                 ].sum()
                 sutehai_tensors[player, tile_idx] = 1.0
 
+                if ippatsu[player]:
+                    ippatsu = ippatsu[:]
+                    ippatsu[player] = 0
+
                 for pov in remaining_tiles_pov:
                     pov[tile_idx] -= 1.0
                 remaining_tiles_pov[player][tile_idx] += 1.0
-- 
2.43.0


From 25ceda11a02d4ea0b80d44fc1e9e29bbb088bb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:05 +0000
Subject: [PATCH 08/37] fix: a concealed kan also ends the double riichi window

---
 MahjongAI/process_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 29897b5..86cbdd7 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -151,7 +151,7 @@ def process(file_path: str, verbose: bool = False):
                     kyotaku += 1
                     scores = scores.copy()
                     scores[player] -= 10
-                    if cycles <= 4 and min(is_menzen):
+                    if cycles <= 4 and not any(melds):
                         double_reaches = double_reaches[:]
                         double_reaches[player] = 1
                     encoding_tokens.append(reach2idx(player))
-- 
2.43.0


From 73a36b7be80a2a764c45c6879d12bea997205d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 09/37] fix: added kans are offered when the fourth tile is in
 hand

---
 MahjongAI/process_xml.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 86cbdd7..bdc0507 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -359,14 +359,14 @@ def process(file_path: str, verbose: bool = False):
                 # check if kakan is possible
                 for meld in melds[player]:
                     if meld.is_pon():
-                        color, number, *_ = meld.pattern_pon()
-                        if hands[player, 9 * color + number] == 1.0:
+                        color, number, _, has_red, *_ = meld.pattern_pon()
+                        if hand_tensors[player][9 * color + number] >= 1.0:
                             naki_decisions.append(
                                 NakiDecision(
                                     player,
                                     Naki.from_kakan_info(
-                                        9 * color + number, 0
-                                    ),  # TODO get accurate "which" value
+                                        9 * color + number, int(has_red)
+                                    ),
                                     executed=False,
                                 )
                             )
-- 
2.43.0


From 2d440143d892afe47d1cf2ec2c7d446a16ac5464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 10/37] fix: pon and added kan codes have one canonical form
 per choice

---
 MahjongAI/draw.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/MahjongAI/draw.py b/MahjongAI/draw.py
index f90474f..f1a112f 100644
--- a/MahjongAI/draw.py
+++ b/MahjongAI/draw.py
@@ -91,14 +91,15 @@ class Naki(Draw):
             code += 0x60
             if which:
                 code -= (which - 1) << 9
+        else:
+            code -= which << 9
         return code
 
     def _clean_kakan(self):
-        _, _, which, red, *_ = self.pattern_kakan()
-        code = self.naki_code & ~(0x60)
-        if not red or which:
-            code |= 0x20
-        return code
+        color, number, _, red, exposed, _ = self.pattern_kakan()
+        # which = 1 if red was in the exposed pon, i.e. a black five was added
+        which = int(red and exposed[0] % 4 != 0)
+        return Naki.from_kakan_info(9 * color + number, which).naki_code
 
     def _clean_minkan(self):
         _, _, which, red, *_ = self.pattern_minkan()
-- 
2.43.0


From bd452d92b41ede3cb20728f451fad72e18d110dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 11/37] fix: red-five chi and pon have action numbers of their
 own

---
 MahjongAI/draw.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/draw.py b/MahjongAI/draw.py
index f1a112f..a4fb8e9 100644
--- a/MahjongAI/draw.py
+++ b/MahjongAI/draw.py
@@ -246,7 +246,12 @@ class Naki(Draw):
             color, number, which, has_red, _, _ = self.pattern_chi()
             if has_red and number + which != 4:
                 return (
-                    CHI_START + 63 + 6 * color + number * 2 + (number + which - 3) // 2
+                    CHI_START
+                    + 63
+                    + 6 * color
+                    + (number - 2) * 2
+                    + which
+                    - int(number + which > 4)
                 )
             else:
                 return CHI_START + color * 21 + number * 3 + which
@@ -255,7 +260,7 @@ class Naki(Draw):
             color, number, which, has_red, _, acquired = self.pattern_pon()
             if color == 3:
                 return PON_START + 30 + number
-            elif has_red and acquired % 4 == 3:
+            elif has_red and acquired % 4 != 0:
                 return PON_START + 27 + color
             else:
                 return PON_START + 9 * color + number
-- 
2.43.0


From eae54c5f9ae6e46778b0c8ca863bdb2df2f8830f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 12/37] fix: chi options around a red five name the right tiles

---
 MahjongAI/decision.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index 4dd7032..2133be7 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -144,7 +144,7 @@ def _three_and_seven_mask(
             continue
 
         player_has_red = hand_tensors[p][34 + tile_idx // 9] > 0.0
-        black_fives = hand_tensor[tile_idx] - float(player_has_red)
+        black_fives = hand_tensor[tile_idx // 9 * 9 + 4] - float(player_has_red)
 
         if (p - player) % 4 == 1:
             if hand_tensor[tile_idx - 2 * coef] * hand_tensor[tile_idx - coef]:
@@ -206,7 +206,7 @@ def _four_and_six_mask(
             continue
 
         player_has_red = hand_tensors[p][34 + tile_idx // 9] > 0.0
-        black_fives = hand_tensor[tile_idx] - float(player_has_red)
+        black_fives = hand_tensor[tile_idx // 9 * 9 + 4] - float(player_has_red)
 
         if (p - player) % 4 == 1:
             if hand_tensor[tile_idx - 2 * coef] * hand_tensor[tile_idx - coef]:
@@ -218,16 +218,13 @@ def _four_and_six_mask(
             if hand_tensor[tile_idx - 1] * hand_tensor[tile_idx + 1]:
                 if player_has_red:
                     naki = Naki.from_chi_info(
-                        tile_idx // 9, 2 if is_four else 4, 0 if is_four else 2, True
+                        tile_idx // 9, 2 if is_four else 4, 1, True
                     )
                     assert naki.is_chi()
                     decisions[p].append(NakiDecision(p, naki, False))
                     if black_fives > 0:
                         naki = Naki.from_chi_info(
-                            tile_idx // 9,
-                            2 if is_four else 4,
-                            0 if is_four else 2,
-                            False,
+                            tile_idx // 9, 2 if is_four else 4, 1, False
                         )
                         assert naki.is_chi()
                         decisions[p].append(NakiDecision(p, naki, False))
-- 
2.43.0


From 2fc9604907c5110d3451602a5881a7f2dbf3ebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 13/37] fix: pon stays an option for a player who could also
 kan

---
 MahjongAI/decision.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index 2133be7..42853a6 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -83,7 +83,7 @@ def _one_and_nine_mask(
             )
             assert naki.is_chi()
             decisions[p].append(NakiDecision(p, naki, False))
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -117,7 +117,7 @@ def _two_and_eight_mask(
                 assert naki.is_chi()
                 decisions[p].append(NakiDecision(p, naki, False))
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -179,7 +179,7 @@ def _three_and_seven_mask(
                     assert naki.is_chi()
                     decisions[p].append(NakiDecision(p, naki, False))
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -254,7 +254,7 @@ def _four_and_six_mask(
                     assert naki.is_chi()
                     decisions[p].append(NakiDecision(p, naki, False))
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
@@ -297,16 +297,16 @@ def _five_mask(
                 decisions[p].append(NakiDecision(p, naki, False))
 
         if player_has_red:
-            if hand_tensor[tile_idx] == 2.0:
+            if hand_tensor[tile_idx] >= 2.0:
                 naki = Naki.from_pon_info(tile_idx, 1, True, (player - p) % 4)
                 assert naki.is_pon()
                 decisions[p].append(NakiDecision(p, naki, False))
-            if black_fives == 2.0:
+            if black_fives >= 2.0:
                 naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
                 assert naki.is_pon()
                 decisions[p].append(NakiDecision(p, naki, False))
         else:
-            if hand_tensor[tile_idx] == 2.0:
+            if hand_tensor[tile_idx] >= 2.0:
                 naki = Naki.from_pon_info(
                     tile_idx, 1 if is_red else 0, is_red, (player - p) % 4
                 )
@@ -328,7 +328,7 @@ def _jihai_mask(player: int, hand_tensors: np.ndarray, tile_idx: int):
         if p == player:
             continue
 
-        if hand_tensor[tile_idx] == 2.0:
+        if hand_tensor[tile_idx] >= 2.0:
             naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
-- 
2.43.0


From 5611f8602cb4e469988d214cafeb3213f547bd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 14/37] fix: a pon of a discarded red five is offered as
 claiming the red

---
 MahjongAI/decision.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index 42853a6..03ff21f 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -307,9 +307,7 @@ def _five_mask(
                 decisions[p].append(NakiDecision(p, naki, False))
         else:
             if hand_tensor[tile_idx] >= 2.0:
-                naki = Naki.from_pon_info(
-                    tile_idx, 1 if is_red else 0, is_red, (player - p) % 4
-                )
+                naki = Naki.from_pon_info(tile_idx, 0, is_red, (player - p) % 4)
                 assert naki.is_pon()
                 decisions[p].append(NakiDecision(p, naki, False))
 
-- 
2.43.0


From 90835688cbb7d4a1fc0c2655b4f5e8f8c4c3e275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 15/37] fix: open kan options use the canonical claimed-tile
 value

---
 MahjongAI/decision.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/MahjongAI/decision.py b/MahjongAI/decision.py
index 03ff21f..4ef73c4 100644
--- a/MahjongAI/decision.py
+++ b/MahjongAI/decision.py
@@ -88,7 +88,7 @@ def _one_and_nine_mask(
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -123,7 +123,7 @@ def _two_and_eight_mask(
             decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -185,7 +185,7 @@ def _three_and_seven_mask(
             decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -260,7 +260,7 @@ def _four_and_six_mask(
             decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -312,7 +312,7 @@ def _five_mask(
                 decisions[p].append(NakiDecision(p, naki, False))
 
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1 if is_red else 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0 if is_red else 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
@@ -331,7 +331,7 @@ def _jihai_mask(player: int, hand_tensors: np.ndarray, tile_idx: int):
             assert naki.is_pon()
             decisions[p].append(NakiDecision(p, naki, False))
         if hand_tensor[tile_idx] == 3.0:
-            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 0)
+            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)
             assert naki.is_minkan()
             decisions[p].append(NakiDecision(p, naki, False))
 
-- 
2.43.0


From 05d49a401ee5efe8609fa6aedb53fc874e603574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 16/37] fix: no calls are offered to riichi players or on the
 last discard

---
 MahjongAI/process_xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index bdc0507..c1a2793 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -484,6 +484,9 @@ def process(file_path: str, verbose: bool = False):
                     if p == player:
                         assert len(decision_lst) == 0
                         continue
+                    # no calls from riichi hands or on the last discard
+                    if reaches[p] or remaining_tsumo == 0:
+                        continue
                     post_decisions[p][DECISION_NAKI_IDX] = decision_lst
 
                 encoding_tokens.append(
-- 
2.43.0


From 6ec63044234aa91084b9e92628878be1560e4f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 17/37] fix: riichi is offered only with four draws left and
 1,000 points

---
 MahjongAI/process_xml.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index c1a2793..0ebe0ae 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -341,7 +341,12 @@ def process(file_path: str, verbose: bool = False):
 
                 # check if reach is possible
                 reach_decisions = []
-                if not reaches[player] and is_menzen[player]:
+                if (
+                    not reaches[player]
+                    and is_menzen[player]
+                    and remaining_tsumo >= 4
+                    and scores[player] >= 10
+                ):
                     shanten = shanten_solver.calculate_shanten(
                         hand_tensors[player][:34]
                     )
-- 
2.43.0


From 19bae9ac43f564410a00ccc307131b7889994979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 18/37] fix: no kan is offered without a replacement draw or
 against a riichi hand

---
 MahjongAI/process_xml.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 0ebe0ae..8ac6c19 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -357,13 +357,19 @@ def process(file_path: str, verbose: bool = False):
                 naki_decisions = []
                 # check if ankan is possible
                 for i in np.where(hand_tensors[player] == 4.0)[0]:
+                    # no replacement draw left
+                    if remaining_tsumo == 0:
+                        break
+                    # a riichi hand can only kan the tile just drawn
+                    if reaches[player] and i != tile_idx[0]:
+                        continue
                     naki_decisions.append(
                         NakiDecision(player, Naki.from_ankan_info(i), executed=False)
                     )
 
                 # check if kakan is possible
                 for meld in melds[player]:
-                    if meld.is_pon():
+                    if meld.is_pon() and remaining_tsumo > 0:
                         color, number, _, has_red, *_ = meld.pattern_pon()
                         if hand_tensors[player][9 * color + number] >= 1.0:
                             naki_decisions.append(
-- 
2.43.0


From 4b86c9fa95f742b2219d3ffffd54538186d0df30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 19/37] fix: a win marks the win option it takes

---
 MahjongAI/process_xml.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 8ac6c19..7900b75 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -252,6 +252,8 @@ def process(file_path: str, verbose: bool = False):
                     player=player,
                 )
 
+                curr_halfturn = None
+
                 # in case of Kakan, create new post turn to train on chankan ron decision
                 if naki.is_kakan():
                     new_post_decisions = [[[] for _ in range(3)] for _ in range(4)]
@@ -295,8 +297,6 @@ def process(file_path: str, verbose: bool = False):
                 if naki.is_ankan():
                     pass
 
-                curr_halfturn = None
-
                 if naki.is_minkan() or naki.is_ankan() or naki.is_kakan():
                     cycles += 1
                     acquired = None
@@ -531,7 +531,16 @@ def process(file_path: str, verbose: bool = False):
                 result.append(
                     AgariResult(list(map(int, event["attr"]["sc"].split(","))))
                 )
-                # TODO: make decision executed = True
+
+                who = int(event["attr"]["who"])
+                if isinstance(curr_halfturn, DuringTurn):
+                    agari_decisions = curr_halfturn.decisions[DECISION_AGARI_IDX]
+                elif isinstance(curr_halfturn, PostTurn):
+                    agari_decisions = curr_halfturn.decisions[who][DECISION_AGARI_IDX]
+                else:
+                    agari_decisions = []
+                for decision in agari_decisions:
+                    decision.executed = True
 
             elif event["event"] == "RYUUKYOKU":
                 result.append(
-- 
2.43.0


From 6260592b8027230762b570c4d08ce830f0a3ddfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 20/37] fix: wins are found whatever copy of the tile completes
 the hand

---
 MahjongAI/utils/agari.py | 35 +++++++----------------------------
 1 file changed, 7 insertions(+), 28 deletions(-)

diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index 7e2b2d7..2ffe4c2 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -70,13 +70,9 @@ def evaluate_ron(
             continue
 
         hand_tensor[discarded_tile_idx] += 1
-        man, pin, sou, honors = hand_tensor2strs(hand_tensor)
+        tiles = hand_tensor2tiles(hand_tensor)
         hand_tensor[discarded_tile_idx] -= 1
 
-        tiles = TilesConverter.string_to_136_array(
-            man=man, pin=pin, sou=sou, honors=honors, has_aka_dora=True
-        )
-
         melds = []
         for naki in nakis:
             if naki.is_chi():
@@ -138,7 +134,7 @@ def evaluate_ron(
         # TODO: use Agari.is_agari instead for better performance
         result: HandResponse = hand_calculator.estimate_hand_value(
             tiles=tiles,
-            win_tile=discarded_tile,
+            win_tile=discarded_tile_idx * 4,
             melds=melds,
             dora_indicators=doras,
             config=config,
@@ -175,11 +171,7 @@ def evaluate_tsumo(
     decisions = []
     hand_tensor = hand_tensors_full[player]
 
-    man, pin, sou, honors = hand_tensor2strs(hand_tensor)
-
-    tiles = TilesConverter.string_to_136_array(
-        man=man, pin=pin, sou=sou, honors=honors, has_aka_dora=True
-    )
+    tiles = hand_tensor2tiles(hand_tensor)
     nakis = naki_list[player]
 
     melds = []
@@ -244,7 +236,7 @@ def evaluate_tsumo(
 
     result: HandResponse = hand_calculator.estimate_hand_value(
         tiles=tiles,
-        win_tile=tsumo_tile,
+        win_tile=tsumo_tile // 4 * 4,
         melds=melds,
         dora_indicators=doras,
         config=config,
@@ -259,22 +251,9 @@ def evaluate_tsumo(
     return decisions
 
 
-def hand_tensor2strs(hand_tensor):
-    tile_strs = []
-
-    for i in range(0, 27, 9):
-        lst = []
-        for j in range(9):
-            lst += [j + 1] * int(hand_tensor[i + j])
-        tile_strs.append("".join(list(map(str, lst))))
-
-    lst = []
-    for j in range(27, 34):
-        lst += [j - 26] * int(hand_tensor[j])
-    tile_strs.append("".join(list(map(str, lst))))
-
-    man, pin, sou, honors = tile_strs
-    return man, pin, sou, honors
+def hand_tensor2tiles(hand_tensor):
+    """Tiles (0-135) with the given kinds, the first copies of each kind."""
+    return TilesConverter.to_136_array([int(n) for n in hand_tensor[:34]])
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 3bdb7f6ff09c98fbc949cb81d297f0b5fd0619ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 21/37] fix: a win on the last discard is offered

---
 MahjongAI/process_xml.py |  4 ++--
 MahjongAI/utils/agari.py | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 7900b75..1482478 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -269,7 +269,7 @@ def process(file_path: str, verbose: bool = False):
                         reaches=reaches,
                         ippatsu=ippatsu,
                         is_chankan=True,
-                        is_haitei=False,
+                        is_houtei=False,
                         double_reaches=double_reaches,
                         is_renhou=[False] * 4,
                         player_wind=roundinfo.player_wind,
@@ -471,7 +471,7 @@ def process(file_path: str, verbose: bool = False):
                     reaches=reaches,
                     ippatsu=ippatsu,
                     is_chankan=False,
-                    is_haitei=(remaining_tsumo == 0),
+                    is_houtei=(remaining_tsumo == 0),
                     double_reaches=double_reaches,
                     is_renhou=[
                         (cycles <= 3 and player >= cycles and min(is_menzen))
diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index 2ffe4c2..20f5d5f 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -47,7 +47,7 @@ def evaluate_ron(
     reaches: List[int],
     ippatsu: List[int],
     is_chankan: bool,
-    is_haitei: bool,
+    is_houtei: bool,
     double_reaches: List[int],
     is_renhou: List[bool],
     player_wind: int,
@@ -120,8 +120,8 @@ def evaluate_ron(
             is_ippatsu=ippatsu[p],
             is_rinshan=False,
             is_chankan=is_chankan,
-            is_haitei=is_haitei,
-            is_houtei=False,
+            is_haitei=False,
+            is_houtei=is_houtei,
             is_daburu_riichi=double_reaches[p],
             is_renhou=is_renhou[p],
             player_wind=player_wind,
@@ -431,7 +431,7 @@ if __name__ == "__main__":
     reaches = [0, 0, 1, 1]
     ippatsu = [0, 0, 0, 0]
     is_chankan = False
-    is_haitei = False
+    is_houtei = False
     double_reaches = [0, 0, 0, 0]
     is_renhou = [False] * 4
     player_wind = 2
@@ -449,7 +449,7 @@ if __name__ == "__main__":
         reaches,
         ippatsu,
         is_chankan,
-        is_haitei,
+        is_houtei,
         double_reaches,
         is_renhou,
         player_wind,
-- 
2.43.0


From 8f361c9d15459dea58ba663fdbc3c6a29ef94af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 22/37] fix: seat and round winds are passed to the win
 evaluation as tiles, per player

---
 MahjongAI/gameinfo.py    |  8 ++++++--
 MahjongAI/process_xml.py |  6 +++---
 MahjongAI/utils/agari.py | 14 +++++++-------
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/MahjongAI/gameinfo.py b/MahjongAI/gameinfo.py
index 3519ad5..c2f876e 100644
--- a/MahjongAI/gameinfo.py
+++ b/MahjongAI/gameinfo.py
@@ -1,3 +1,6 @@
+from mahjong.constants import EAST
+
+
 class GameInfo:
     def __init__(self, go: int = 161):
         self.go = go
@@ -38,8 +41,9 @@ class RoundInfo:
         self.parent_rounds_remaining = [
             (self.remaining_rounds + i) // 4 for i in range(4)
         ]
-        self.player_wind = curr_round % 4
-        self.round_wind = curr_round // 4
+        parent = curr_round % 4
+        self.player_winds = [EAST + (player - parent) % 4 for player in range(4)]
+        self.round_wind = EAST + curr_round // 4
 
     def __repr__(self):
         return f"RoundInfo: gameinfo={self.gameinfo}, remaining_rounds={self.remaining_rounds}, parent_rounds_remaining={self.parent_rounds_remaining}"
diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 1482478..1be291e 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -272,7 +272,7 @@ def process(file_path: str, verbose: bool = False):
                         is_houtei=False,
                         double_reaches=double_reaches,
                         is_renhou=[False] * 4,
-                        player_wind=roundinfo.player_wind,
+                        player_winds=roundinfo.player_winds,
                         round_wind=roundinfo.round_wind,
                         kyotaku=kyotaku,
                         honba=honba,
@@ -333,7 +333,7 @@ def process(file_path: str, verbose: bool = False):
                     double_reaches=double_reaches,
                     is_tenhou=(cycles == 1),
                     is_chiihou=(2 <= cycles <= 4 and min(is_menzen)),
-                    player_wind=roundinfo.player_wind,
+                    player_winds=roundinfo.player_winds,
                     round_wind=roundinfo.round_wind,
                     kyotaku=kyotaku,
                     honba=honba,
@@ -477,7 +477,7 @@ def process(file_path: str, verbose: bool = False):
                         (cycles <= 3 and player >= cycles and min(is_menzen))
                         for _ in range(4)
                     ],
-                    player_wind=roundinfo.player_wind,
+                    player_winds=roundinfo.player_winds,
                     round_wind=roundinfo.round_wind,
                     kyotaku=kyotaku,
                     honba=honba,
diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index 20f5d5f..b6ab63f 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -50,7 +50,7 @@ def evaluate_ron(
     is_houtei: bool,
     double_reaches: List[int],
     is_renhou: List[bool],
-    player_wind: int,
+    player_winds: List[int],
     round_wind: int,
     kyotaku: int,
     honba: int,
@@ -124,7 +124,7 @@ def evaluate_ron(
             is_houtei=is_houtei,
             is_daburu_riichi=double_reaches[p],
             is_renhou=is_renhou[p],
-            player_wind=player_wind,
+            player_wind=player_winds[p],
             round_wind=round_wind,
             kyoutaku_number=kyotaku,
             tsumi_number=honba,
@@ -162,7 +162,7 @@ def evaluate_tsumo(
     double_reaches: List[int],
     is_tenhou: bool,
     is_chiihou: bool,
-    player_wind: int,
+    player_winds: List[int],
     round_wind: int,
     kyotaku: int,
     honba: int,
@@ -227,7 +227,7 @@ def evaluate_tsumo(
         is_tenhou=is_tenhou,
         is_chiihou=is_chiihou,
         is_renhou=False,
-        player_wind=player_wind,
+        player_wind=player_winds[player],
         round_wind=round_wind,
         kyoutaku_number=kyotaku,
         tsumi_number=honba,
@@ -434,8 +434,8 @@ if __name__ == "__main__":
     is_houtei = False
     double_reaches = [0, 0, 0, 0]
     is_renhou = [False] * 4
-    player_wind = 2
-    round_wind = 0
+    player_winds = [27, 28, 29, 30]
+    round_wind = 27
     kyotaku = 1
     honba = 0
 
@@ -452,7 +452,7 @@ if __name__ == "__main__":
         is_houtei,
         double_reaches,
         is_renhou,
-        player_wind,
+        player_winds,
         round_wind,
         kyotaku,
         honba,
-- 
2.43.0


From aefd289c87b6f01d805369bc478f95a3a762e00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 23/37] fix: first-turn wins depend on the dealer and on there
 being no call at all

---
 MahjongAI/process_xml.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 1be291e..1a59f0d 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -331,8 +331,8 @@ def process(file_path: str, verbose: bool = False):
                     is_haitei=(remaining_tsumo == 0),
                     is_rinshan=False,
                     double_reaches=double_reaches,
-                    is_tenhou=(cycles == 1),
-                    is_chiihou=(2 <= cycles <= 4 and min(is_menzen)),
+                    is_tenhou=(cycles == 1 and not any(melds)),
+                    is_chiihou=(2 <= cycles <= 4 and not any(melds)),
                     player_winds=roundinfo.player_winds,
                     round_wind=roundinfo.round_wind,
                     kyotaku=kyotaku,
@@ -474,8 +474,9 @@ def process(file_path: str, verbose: bool = False):
                     is_houtei=(remaining_tsumo == 0),
                     double_reaches=double_reaches,
                     is_renhou=[
-                        (cycles <= 3 and player >= cycles and min(is_menzen))
-                        for _ in range(4)
+                        # no call yet and the player has not had a draw
+                        not any(melds) and (p - int(parent)) % 4 >= cycles
+                        for p in range(4)
                     ],
                     player_winds=roundinfo.player_winds,
                     round_wind=roundinfo.round_wind,
-- 
2.43.0


From 434ec34074f814f4489f751b8a2eded38184a75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 24/37] fix: a win on the replacement draw after a kan is
 offered

---
 MahjongAI/process_xml.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 1a59f0d..d530bae 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -107,6 +107,7 @@ def process(file_path: str, verbose: bool = False):
         curr_halfturn = None
         cycles = 0
         acquired = None
+        after_kan = False
         result_idx = None
 
         if verbose:
@@ -300,6 +301,7 @@ def process(file_path: str, verbose: bool = False):
                 if naki.is_minkan() or naki.is_ankan() or naki.is_kakan():
                     cycles += 1
                     acquired = None
+                    after_kan = True
 
             elif eventtype[0] in ["T", "U", "V", "W"]:
                 assert acquired is None
@@ -328,8 +330,8 @@ def process(file_path: str, verbose: bool = False):
                     doras=doras,
                     reaches=reaches,
                     ippatsu=ippatsu,
-                    is_haitei=(remaining_tsumo == 0),
-                    is_rinshan=False,
+                    is_haitei=(remaining_tsumo == 0 and not after_kan),
+                    is_rinshan=after_kan,
                     double_reaches=double_reaches,
                     is_tenhou=(cycles == 1 and not any(melds)),
                     is_chiihou=(2 <= cycles <= 4 and not any(melds)),
@@ -339,6 +341,8 @@ def process(file_path: str, verbose: bool = False):
                     honba=honba,
                 )
 
+                after_kan = False
+
                 # check if reach is possible
                 reach_decisions = []
                 if (
-- 
2.43.0


From f141f4b13e750246bc5351b6270ee219ab52ba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:15 +0000
Subject: [PATCH 25/37] fix: a player is furiten on every tile that completes
 the hand

---
 MahjongAI/utils/agari.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/utils/agari.py b/MahjongAI/utils/agari.py
index b6ab63f..2617f6e 100644
--- a/MahjongAI/utils/agari.py
+++ b/MahjongAI/utils/agari.py
@@ -3,6 +3,7 @@ import sys
 
 sys.path.append("../../")
 
+from mahjong.agari import Agari
 from mahjong.tile import TilesConverter
 from mahjong.hand_calculating.hand import HandCalculator
 from mahjong.hand_calculating.hand_response import HandResponse
@@ -144,7 +145,17 @@ def evaluate_ron(
             print(result)
 
         if result.error is None:
-            rons[p] = AgariDecision(p, False)
+            # furiten also applies to the other tiles that complete the hand
+            tiles_34 = [int(n) for n in hand_tensor[:34]]
+            open_sets = [meld.tiles_34 for meld in melds]
+            for tile_idx in np.where(sutehai_tensor[p][:34])[0]:
+                tiles_34[tile_idx] += 1
+                is_furiten = Agari.is_agari(tiles_34, open_sets)
+                tiles_34[tile_idx] -= 1
+                if is_furiten:
+                    break
+            else:
+                rons[p] = AgariDecision(p, False)
 
     return rons
 
-- 
2.43.0


From 5bd65053854b31708647e41cc44854b32c7b06a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 26/37] fix: own-turn targets are the option taken, or pass

---
 MahjongAI/agents/transformer.py              | 10 +++++-----
 MahjongAI/agents/transformer_conv.py         | 10 +++++-----
 MahjongAI/agents/transformer_conv_large.py   | 10 +++++-----
 MahjongAI/agents/transformer_conv_ordered.py | 10 +++++-----
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index a677569..bd9171d 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -819,7 +819,7 @@ class TransformerTensorProcessor:
             filter_tensor = torch.zeros(71, dtype=torch.float32, device=device)
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0  # pass
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -830,12 +830,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -844,12 +844,12 @@ class TransformerTensorProcessor:
                         idx = meld.get_during_turn_filter_idx()
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
 
         encoding_tokens_batch = (
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index 04d844f..1711d14 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -798,7 +798,7 @@ class TransformerTensorProcessor:
             filter_tensor = torch.zeros(71, dtype=torch.float32, device=device)
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0  # pass
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -809,12 +809,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -823,12 +823,12 @@ class TransformerTensorProcessor:
                         idx = meld.get_during_turn_filter_idx()
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
 
         encoding_tokens_batch = (
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index 75bbec1..d0df3bf 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -798,7 +798,7 @@ class TransformerTensorProcessor:
             filter_tensor = torch.zeros(71, dtype=torch.float32, device=device)
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0  # pass
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -809,12 +809,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -823,12 +823,12 @@ class TransformerTensorProcessor:
                         idx = meld.get_during_turn_filter_idx()
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
 
         encoding_tokens_batch = (
diff --git a/MahjongAI/agents/transformer_conv_ordered.py b/MahjongAI/agents/transformer_conv_ordered.py
index 1c146c8..e4127b3 100644
--- a/MahjongAI/agents/transformer_conv_ordered.py
+++ b/MahjongAI/agents/transformer_conv_ordered.py
@@ -909,7 +909,7 @@ class TransformerTensorProcessor:
             )
             filter_tensor[0] = 1.0  # pass
 
-            decision_idx = 0
+            result = 0  # pass
 
             for decision_idx, decision_type in enumerate(turn.decisions):
                 if not decision_type:
@@ -920,12 +920,12 @@ class TransformerTensorProcessor:
                 if decision_idx == DECISION_AGARI_IDX:
                     filter_tensor[1] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 1
+                        result = 1
 
                 elif decision_idx == DECISION_REACH_IDX:
                     filter_tensor[2] = 1.0
                     if decision_type[0].executed:
-                        decision_idx = 2
+                        result = 2
 
                 elif decision_idx == DECISION_NAKI_IDX:
                     for decision in decision_type:
@@ -939,12 +939,12 @@ class TransformerTensorProcessor:
                         ), f"Filter idx {idx} out of range for DURING_TURN_ACTION_DIM"
                         filter_tensor[idx] = 1.0
                         if decision.executed:
-                            decision_idx = idx
+                            result = idx
 
                 else:
                     raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
-            y.append(decision_idx)
+            y.append(result)
             filter_tensors.append(filter_tensor)  # Shape: (71,)
             player_tensor.append(turn.player)
 
-- 
2.43.0


From b04d235dcf79ef54e99b662960ff3039afe90bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:52 +0000
Subject: [PATCH 27/37] fix: event embeddings are gated to the events that have
 the field, not the others

---
 MahjongAI/agents/transformer.py            | 18 +++++++++---------
 MahjongAI/agents/transformer_conv.py       | 18 +++++++++---------
 MahjongAI/agents/transformer_conv_large.py | 18 +++++++++---------
 3 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index bd9171d..fd7e677 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -197,7 +197,7 @@ class Encoder(nn.Module):
         type_emb = self.type_embedding(
             adjusted_embedding_type
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = event_type == EventStateTypes.EMPTY
+        mask = event_type != EventStateTypes.EMPTY
         type_emb = type_emb * mask.unsqueeze(-1).float()
 
         # retrieve tile embeddings if event_type is DISCARD or NEW_DORA
@@ -206,8 +206,8 @@ class Encoder(nn.Module):
         tile_emb = self.tile_embedding(
             adjusted_tile_encoding
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) & (
-            event_type != EventStateTypes.NEW_DORA
+        mask = (event_type == EventStateTypes.DISCARD) | (
+            event_type == EventStateTypes.NEW_DORA
         )
         tile_emb = tile_emb * mask.unsqueeze(-1).float()
 
@@ -215,9 +215,9 @@ class Encoder(nn.Module):
         player_idx = player_idx.to(self.player_coding_table.device)
         player_emb = self.player_coding_table[player_idx]  # Shape: (B, T, EMBD_SIZE)
         mask = (
-            (event_type != EventStateTypes.DISCARD)
-            & (event_type != EventStateTypes.DURING)
-            & (event_type != EventStateTypes.POST)
+            (event_type == EventStateTypes.DISCARD)
+            | (event_type == EventStateTypes.DURING)
+            | (event_type == EventStateTypes.POST)
         ).to(player_emb.device)
         player_emb = player_emb * mask.unsqueeze(-1).float()
         player_emb = player_emb.to(device)
@@ -226,7 +226,7 @@ class Encoder(nn.Module):
         tsumogiri_emb = self.tsumogiri_embedding(
             torch.tensor([0], device=device)
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) | (tsumogiri == 0)
+        mask = (event_type == EventStateTypes.DISCARD) & (tsumogiri != 0)
         tsumogiri_emb = tsumogiri_emb * mask.unsqueeze(-1).float()
 
         # Retrieve position encodings (shape: (150, EMBD_SIZE)) if embedding type is not EMPTY
@@ -242,7 +242,7 @@ class Encoder(nn.Module):
         during_naki_emb = self.during_naki_embedding(
             adjusted_during_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DURING) | (naki_idx < 3)
+        mask = (event_type == EventStateTypes.DURING) & (naki_idx >= 3)
         during_naki_emb = during_naki_emb * mask.unsqueeze(-1).float()
 
         # retrieve post naki encodings if event_type is POST and naki_idx is >= 2
@@ -250,7 +250,7 @@ class Encoder(nn.Module):
         post_naki_emb = self.post_naki_embedding(
             adjusted_post_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.POST) | (naki_idx < 2)
+        mask = (event_type == EventStateTypes.POST) & (naki_idx >= 2)
         post_naki_emb = post_naki_emb * mask.unsqueeze(-1).float()
 
         x = (
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index 1711d14..3fcd839 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -197,7 +197,7 @@ class Encoder(nn.Module):
         type_emb = self.type_embedding(
             adjusted_embedding_type
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = event_type == EventStateTypes.EMPTY
+        mask = event_type != EventStateTypes.EMPTY
         type_emb = type_emb * mask.unsqueeze(-1).float()
 
         # retrieve tile embeddings if event_type is DISCARD or NEW_DORA
@@ -206,8 +206,8 @@ class Encoder(nn.Module):
         tile_emb = self.tile_embedding(
             adjusted_tile_encoding
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) & (
-            event_type != EventStateTypes.NEW_DORA
+        mask = (event_type == EventStateTypes.DISCARD) | (
+            event_type == EventStateTypes.NEW_DORA
         )
         tile_emb = tile_emb * mask.unsqueeze(-1).float()
 
@@ -215,9 +215,9 @@ class Encoder(nn.Module):
         player_idx = player_idx.to(self.player_coding_table.device)
         player_emb = self.player_coding_table[player_idx]  # Shape: (B, T, EMBD_SIZE)
         mask = (
-            (event_type != EventStateTypes.DISCARD)
-            & (event_type != EventStateTypes.DURING)
-            & (event_type != EventStateTypes.POST)
+            (event_type == EventStateTypes.DISCARD)
+            | (event_type == EventStateTypes.DURING)
+            | (event_type == EventStateTypes.POST)
         ).to(player_emb.device)
         player_emb = player_emb * mask.unsqueeze(-1).float()
         player_emb = player_emb.to(device)
@@ -226,7 +226,7 @@ class Encoder(nn.Module):
         tsumogiri_emb = self.tsumogiri_embedding(
             torch.tensor([0], device=device)
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) | (tsumogiri == 0)
+        mask = (event_type == EventStateTypes.DISCARD) & (tsumogiri != 0)
         tsumogiri_emb = tsumogiri_emb * mask.unsqueeze(-1).float()
 
         # Retrieve position encodings (shape: (150, EMBD_SIZE)) if embedding type is not EMPTY
@@ -242,7 +242,7 @@ class Encoder(nn.Module):
         during_naki_emb = self.during_naki_embedding(
             adjusted_during_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DURING) | (naki_idx < 3)
+        mask = (event_type == EventStateTypes.DURING) & (naki_idx >= 3)
         during_naki_emb = during_naki_emb * mask.unsqueeze(-1).float()
 
         # retrieve post naki encodings if event_type is POST and naki_idx is >= 2
@@ -250,7 +250,7 @@ class Encoder(nn.Module):
         post_naki_emb = self.post_naki_embedding(
             adjusted_post_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.POST) | (naki_idx < 2)
+        mask = (event_type == EventStateTypes.POST) & (naki_idx >= 2)
         post_naki_emb = post_naki_emb * mask.unsqueeze(-1).float()
 
         x = (
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index d0df3bf..bfefacb 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -197,7 +197,7 @@ class Encoder(nn.Module):
         type_emb = self.type_embedding(
             adjusted_embedding_type
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = event_type == EventStateTypes.EMPTY
+        mask = event_type != EventStateTypes.EMPTY
         type_emb = type_emb * mask.unsqueeze(-1).float()
 
         # retrieve tile embeddings if event_type is DISCARD or NEW_DORA
@@ -206,8 +206,8 @@ class Encoder(nn.Module):
         tile_emb = self.tile_embedding(
             adjusted_tile_encoding
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) & (
-            event_type != EventStateTypes.NEW_DORA
+        mask = (event_type == EventStateTypes.DISCARD) | (
+            event_type == EventStateTypes.NEW_DORA
         )
         tile_emb = tile_emb * mask.unsqueeze(-1).float()
 
@@ -215,9 +215,9 @@ class Encoder(nn.Module):
         player_idx = player_idx.to(self.player_coding_table.device)
         player_emb = self.player_coding_table[player_idx]  # Shape: (B, T, EMBD_SIZE)
         mask = (
-            (event_type != EventStateTypes.DISCARD)
-            & (event_type != EventStateTypes.DURING)
-            & (event_type != EventStateTypes.POST)
+            (event_type == EventStateTypes.DISCARD)
+            | (event_type == EventStateTypes.DURING)
+            | (event_type == EventStateTypes.POST)
         ).to(player_emb.device)
         player_emb = player_emb * mask.unsqueeze(-1).float()
         player_emb = player_emb.to(device)
@@ -226,7 +226,7 @@ class Encoder(nn.Module):
         tsumogiri_emb = self.tsumogiri_embedding(
             torch.tensor([0], device=device)
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DISCARD) | (tsumogiri == 0)
+        mask = (event_type == EventStateTypes.DISCARD) & (tsumogiri != 0)
         tsumogiri_emb = tsumogiri_emb * mask.unsqueeze(-1).float()
 
         # Retrieve position encodings (shape: (150, EMBD_SIZE)) if embedding type is not EMPTY
@@ -242,7 +242,7 @@ class Encoder(nn.Module):
         during_naki_emb = self.during_naki_embedding(
             adjusted_during_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.DURING) | (naki_idx < 3)
+        mask = (event_type == EventStateTypes.DURING) & (naki_idx >= 3)
         during_naki_emb = during_naki_emb * mask.unsqueeze(-1).float()
 
         # retrieve post naki encodings if event_type is POST and naki_idx is >= 2
@@ -250,7 +250,7 @@ class Encoder(nn.Module):
         post_naki_emb = self.post_naki_embedding(
             adjusted_post_naki_idx
         )  # Shape: (B, T, EMBD_SIZE)
-        mask = (event_type != EventStateTypes.POST) | (naki_idx < 2)
+        mask = (event_type == EventStateTypes.POST) & (naki_idx >= 2)
         post_naki_emb = post_naki_emb * mask.unsqueeze(-1).float()
 
         x = (
-- 
2.43.0


From 2742a6cb878f59f91bc55b81b3819cd732b6f70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:33 +0000
Subject: [PATCH 28/37] fix: each responder's training row shows that
 responder's own state

---
 MahjongAI/agents/transformer.py              |  8 ++-
 MahjongAI/agents/transformer_conv.py         |  8 ++-
 MahjongAI/agents/transformer_conv_large.py   |  8 ++-
 MahjongAI/agents/transformer_conv_ordered.py |  8 ++-
 MahjongAI/process_xml.py                     | 71 ++++++++------------
 MahjongAI/turn.py                            |  5 +-
 6 files changed, 50 insertions(+), 58 deletions(-)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index fd7e677..aeb1620 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -944,9 +944,6 @@ class TransformerTensorProcessor:
                 0
             )  # Shape: (1, 150)
 
-            # Create state object tensor
-            x1, x2, x3 = self._convert_state_obj_to_tensors(turn.stateObj)
-
             # TODO: instead of going player by player, go decision type by decision type
             action_player = turn.player
             for player_idx in players[action_player + 1 :] + players[:action_player]:
@@ -987,6 +984,11 @@ class TransformerTensorProcessor:
                     else:
                         raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
+                # Create state object tensor
+                x1, x2, x3 = self._convert_state_obj_to_tensors(
+                    turn.stateObjs[player_idx]
+                )
+
                 X_embeddings.append(masked_encoding_token_tensor)
                 state_obj_tensors.append((x1, x2, x3))
                 filter_tensors.append(decision_mask)
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index 3fcd839..28febff 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -923,9 +923,6 @@ class TransformerTensorProcessor:
                 0
             )  # Shape: (1, 150)
 
-            # Create state object tensor
-            x1, x2, x3 = self._convert_state_obj_to_tensors(turn.stateObj)
-
             # TODO: instead of going player by player, go decision type by decision type
             action_player = turn.player
             for player_idx in players[action_player + 1 :] + players[:action_player]:
@@ -966,6 +963,11 @@ class TransformerTensorProcessor:
                     else:
                         raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
+                # Create state object tensor
+                x1, x2, x3 = self._convert_state_obj_to_tensors(
+                    turn.stateObjs[player_idx]
+                )
+
                 X_embeddings.append(masked_encoding_token_tensor)
                 state_obj_tensors.append((x1, x2, x3))
                 filter_tensors.append(decision_mask)
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index bfefacb..9f0966f 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -923,9 +923,6 @@ class TransformerTensorProcessor:
                 0
             )  # Shape: (1, 150)
 
-            # Create state object tensor
-            x1, x2, x3 = self._convert_state_obj_to_tensors(turn.stateObj)
-
             # TODO: instead of going player by player, go decision type by decision type
             action_player = turn.player
             for player_idx in players[action_player + 1 :] + players[:action_player]:
@@ -966,6 +963,11 @@ class TransformerTensorProcessor:
                     else:
                         raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
+                # Create state object tensor
+                x1, x2, x3 = self._convert_state_obj_to_tensors(
+                    turn.stateObjs[player_idx]
+                )
+
                 X_embeddings.append(masked_encoding_token_tensor)
                 state_obj_tensors.append((x1, x2, x3))
                 filter_tensors.append(decision_mask)
diff --git a/MahjongAI/agents/transformer_conv_ordered.py b/MahjongAI/agents/transformer_conv_ordered.py
index e4127b3..9172b3e 100644
--- a/MahjongAI/agents/transformer_conv_ordered.py
+++ b/MahjongAI/agents/transformer_conv_ordered.py
@@ -1048,9 +1048,6 @@ class TransformerTensorProcessor:
                 0
             )  # Shape: (1, 150)
 
-            # Create state object tensor
-            x1, x2, x3 = self._convert_state_obj_to_tensors(turn.stateObj)
-
             # Iterate through players in order
             action_player = turn.player
             ordered_players = players[action_player + 1 :] + players[:action_player]
@@ -1100,6 +1097,11 @@ class TransformerTensorProcessor:
                     else:
                         raise ValueError(f"Invalid decision_idx: {decision_idx}")
 
+                # Create state object tensor
+                x1, x2, x3 = self._convert_state_obj_to_tensors(
+                    turn.stateObjs[player_idx]
+                )
+
                 X_embeddings.append(masked_encoding_token_tensor)
                 state_obj_tensors.append((x1, x2, x3))
                 filter_tensors.append(decision_mask)
diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index d530bae..112a9ff 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -120,6 +120,29 @@ def process(file_path: str, verbose: bool = False):
             print(f"Parent rounds remaining: {parent_rounds_remaining}")
             print("\n" + "=" * 20 + "\n")
 
+        def current_state(player: int):
+            return StateObject(
+                remaining_turns=remaining_tsumo,
+                hand_tensor=hand_tensors[player],
+                remaining_tiles=remaining_tiles,
+                remaining_tiles_pov=remaining_tiles_pov[player],
+                sutehai_tensors=np.copy(sutehai_tensors),
+                is_menzen=is_menzen,
+                double_reaches=double_reaches,
+                reaches=reaches,  # share same reach list
+                ippatsu=ippatsu,  # share same ippatsu list
+                melds=melds,
+                scores=scores,
+                kyotaku=kyotaku,
+                honba=honba,
+                dora=doras,  # share same dora list
+                parent_tensor=parent_tensor,
+                rounds_remaining=rounds_remaining,
+                parent_rounds_remaining=parent_rounds_remaining,
+                remaining_tsumo=remaining_tsumo,
+                player=player,
+            )
+
         for event_idx, event in enumerate(kyoku_events[1:]):
             eventtype = event["event"]
 
@@ -231,27 +254,7 @@ def process(file_path: str, verbose: bool = False):
                                 melds[player].pop(i)
                                 break
 
-                stateObj = StateObject(
-                    remaining_turns=remaining_tsumo,
-                    hand_tensor=hand_tensors[player],
-                    remaining_tiles=remaining_tiles,
-                    remaining_tiles_pov=remaining_tiles_pov[player][:],
-                    sutehai_tensors=np.copy(sutehai_tensors),
-                    is_menzen=is_menzen,
-                    double_reaches=double_reaches,
-                    reaches=reaches,  # share same reach list
-                    ippatsu=ippatsu,  # share same ippatsu list
-                    melds=melds,
-                    scores=scores,
-                    kyotaku=kyotaku,
-                    honba=honba,
-                    dora=doras,  # share same dora list
-                    parent_tensor=parent_tensor,
-                    rounds_remaining=rounds_remaining,
-                    parent_rounds_remaining=parent_rounds_remaining,
-                    remaining_tsumo=remaining_tsumo,
-                    player=player,
-                )
+                stateObj = current_state(player)
 
                 curr_halfturn = None
 
@@ -287,7 +290,7 @@ def process(file_path: str, verbose: bool = False):
 
                     curr_halfturn = PostTurn(
                         player=player,
-                        stateObj=stateObj,
+                        stateObjs=[current_state(p) for p in range(4)],
                         decisions=new_post_decisions,
                         encoding_idx=len(encoding_tokens),
                     )
@@ -392,27 +395,7 @@ def process(file_path: str, verbose: bool = False):
                     naki_decisions,
                 ]
 
-                stateObj = StateObject(
-                    remaining_turns=remaining_tsumo,
-                    hand_tensor=hand_tensors[player],
-                    remaining_tiles=remaining_tiles,
-                    remaining_tiles_pov=remaining_tiles_pov[player][:],
-                    sutehai_tensors=np.copy(sutehai_tensors),
-                    is_menzen=is_menzen,
-                    double_reaches=double_reaches,
-                    reaches=reaches,  # share same reach list
-                    ippatsu=ippatsu,  # share same ippatsu list
-                    melds=melds,
-                    scores=scores,
-                    kyotaku=kyotaku,
-                    honba=honba,
-                    dora=doras,  # share same dora list
-                    parent_tensor=parent_tensor,
-                    rounds_remaining=rounds_remaining,
-                    parent_rounds_remaining=parent_rounds_remaining,
-                    remaining_tsumo=remaining_tsumo,
-                    player=player,
-                )
+                stateObj = current_state(player)
 
                 halfturn = DuringTurn(
                     player=player,
@@ -511,7 +494,7 @@ def process(file_path: str, verbose: bool = False):
 
                 half_turn = PostTurn(
                     player=player,
-                    stateObj=stateObj,
+                    stateObjs=[current_state(p) for p in range(4)],
                     decisions=post_decisions,
                     encoding_idx=len(encoding_tokens),
                 )
diff --git a/MahjongAI/turn.py b/MahjongAI/turn.py
index 6b10a21..9d9fbef 100644
--- a/MahjongAI/turn.py
+++ b/MahjongAI/turn.py
@@ -61,11 +61,12 @@ class PostTurn(HalfTurn):
     def __init__(
         self,
         player: int,
-        stateObj: StateObject,
+        stateObjs: List[StateObject],  # one per player, from their viewpoint
         decisions: List[List[List[Decision]]],
         encoding_idx: int,
     ):
-        super().__init__(player, HalfTurn.POST, stateObj, encoding_idx)
+        super().__init__(player, HalfTurn.POST, stateObjs[player], encoding_idx)
+        self.stateObjs = stateObjs
         self.decisions = decisions
 
     def __repr__(self):
-- 
2.43.0


From 91cce21c0890da5a7a63f365dc434d4d6153ab47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:14 +0000
Subject: [PATCH 29/37] fix: seven pairs and thirteen orphans distances need
 enough kinds and no melds

---
 MahjongAI/utils/constants.py |  2 +-
 MahjongAI/utils/shanten.py   | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/MahjongAI/utils/constants.py b/MahjongAI/utils/constants.py
index 52381ca..0b10960 100644
--- a/MahjongAI/utils/constants.py
+++ b/MahjongAI/utils/constants.py
@@ -17,7 +17,7 @@ MAX_SEQUENCE_LENGTH = 150
 
 
 YAOCHU_TENSOR = np.zeros(37)
-YAOCHU_TENSOR[[0, 8, 9, 17, 18, 26, 27, 28, 29, 30, 31, 32, 33, 34]] = 1.0
+YAOCHU_TENSOR[[0, 8, 9, 17, 18, 26, 27, 28, 29, 30, 31, 32, 33]] = 1.0
 
 
 DECISION_AGARI_IDX = 0
diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index e699159..0d5ea9c 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -132,18 +132,23 @@ class ShantenSolver:
             process_shuntsu(idx)
 
     def solve_chitoitsu(self):
-        self.best_shanten = min(self.best_shanten, 6 - sum(self.hand_tensor >= 2.0))
+        n_kinds = sum(self.hand_tensor >= 1.0)
+        self.best_shanten = min(
+            self.best_shanten,
+            6 - sum(self.hand_tensor >= 2.0) + max(0, 7 - n_kinds),
+        )
 
     def solve_kokushi(self):
         yaochu_arr = self.hand_tensor * YAOCHU_TENSOR
         self.best_shanten = min(
-            self.best_shanten, 13 - sum(yaochu_arr >= 1.0) - (max(yaochu_arr) - 1.0)
+            self.best_shanten, 13 - sum(yaochu_arr >= 1.0) - int(max(yaochu_arr) >= 2.0)
         )
 
     def solve(self):
         self.solve_normal()
-        self.solve_chitoitsu()
-        self.solve_kokushi()
+        if self.n_melds == 0:
+            self.solve_chitoitsu()
+            self.solve_kokushi()
 
         return self.best_shanten
 
-- 
2.43.0


From 54a4e7a4c28b0f8c465e0763b02e7d0db26c9c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 30/37] fix: shanten solver finds runs beside triplets and
 ignores exhausted kinds

---
 MahjongAI/utils/shanten.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/MahjongAI/utils/shanten.py b/MahjongAI/utils/shanten.py
index 0d5ea9c..cfd2328 100644
--- a/MahjongAI/utils/shanten.py
+++ b/MahjongAI/utils/shanten.py
@@ -13,9 +13,17 @@ class ShantenSolver:
         self.n_mentsu = self.n_melds + sum(self.hand_tensor[27:] >= 3.0)
         self.n_taatsu = 0
         self.n_toitsu = sum(self.hand_tensor[27:] == 2.0)
-        self.n_kuttsuki = 0
+        # kinds with no tile left to pair up with
+        self.is_exhausted = self.hand_tensor == 4.0
+        self.n_kuttsuki = sum(self.hand_tensor[27:] == 1.0) + sum(
+            self.is_exhausted[27:]
+        )
+        # the fourth tile of an honor quad can only be discarded
+        self.n_useless = sum(self.is_exhausted[27:])
+        if self.n_useless and self.hand_tensor.sum() % 3 == 2:
+            self.n_useless -= 1
         self.best_shanten = 14
-        self.tune = 0
+        self.tune = sum(self.is_exhausted[27:])
 
     def add_shuntsu(self, idx: int):
         self.hand_tensor[idx : idx + 3] -= 1
@@ -70,20 +78,22 @@ class ShantenSolver:
             idx += 1
 
         if idx == 27:
-            shanten = min(
-                self.best_shanten, 8 - self.n_mentsu * 2 - self.n_taatsu - self.n_toitsu
-            )
+            shanten = 8 - self.n_mentsu * 2 - self.n_taatsu - self.n_toitsu
             potential_mentsu = max(0, self.n_toitsu - 1) + self.n_taatsu
             if potential_mentsu + self.n_mentsu > 4:
                 shanten += potential_mentsu + self.n_mentsu - 4
-            if self.tune and not self.n_toitsu:
+            if self.tune and self.tune == self.n_kuttsuki and not self.n_toitsu:
                 shanten += 1
+            if shanten >= 0:
+                shanten = max(shanten, self.n_useless)
             self.best_shanten = min(self.best_shanten, shanten)
             return
 
         num = idx % 9
 
-        def process_shuntsu(idx: int, tune: bool = False):
+        def process_shuntsu(idx: int):
+            tune = self.is_exhausted[idx]
+
             if num < 7 and self.hand_tensor[idx + 2]:
                 if self.hand_tensor[idx + 1]:
                     self.add_shuntsu(idx)
@@ -104,8 +114,7 @@ class ShantenSolver:
 
         if self.hand_tensor[idx] == 4:
             self.add_koutsu(idx)
-            process_shuntsu(idx, tune=True)
-            self.solve_normal(idx + 1)
+            process_shuntsu(idx)
             self.remove_koutsu(idx)
 
             self.add_toitsu(idx)
@@ -121,6 +130,8 @@ class ShantenSolver:
             self.solve_normal(idx)
             self.remove_toitsu(idx)
 
+            process_shuntsu(idx)
+
         elif self.hand_tensor[idx] == 2:
             self.add_toitsu(idx)
             self.solve_normal(idx + 1)
-- 
2.43.0


From 8514b38c2475ebb82d88e6c90012bd50cabcad75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 31/37] fix: a game that cannot be replayed is skipped by the
 loader

---
 MahjongAI/utils/dataloader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/MahjongAI/utils/dataloader.py b/MahjongAI/utils/dataloader.py
index e330fdd..ed6c462 100644
--- a/MahjongAI/utils/dataloader.py
+++ b/MahjongAI/utils/dataloader.py
@@ -1,5 +1,4 @@
 import os
-import sys
 import torch
 
 from MahjongAI.process_xml import process, InvalidGameException
@@ -39,7 +38,7 @@ class DataLoader:
                 continue  # Skip to the next file
             except AssertionError as e:
                 print(f"Assertion error: {e} happened in {filename}")
-                sys.exit(1) # TODO: remove this line
+                continue
             except Exception as e:
                 print(f"Unexpected error: {e} happened in {filename}")
                 continue
-- 
2.43.0


From d056dc10c346b3eeb4f72bf2ccf18ab9809725af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 32/37] fix: the loader ends the epoch instead of delivering an
 empty batch

---
 MahjongAI/utils/dataloader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MahjongAI/utils/dataloader.py b/MahjongAI/utils/dataloader.py
index ed6c462..e3dcd01 100644
--- a/MahjongAI/utils/dataloader.py
+++ b/MahjongAI/utils/dataloader.py
@@ -47,6 +47,10 @@ class DataLoader:
             all_halfturns_list.append(all_halfturns)
             all_encoding_tokens_list.append(all_encoding_tokens)
 
+        # only skipped games were left
+        if not all_halfturns_list:
+            raise StopIteration
+
         self.log_func(f"{self.__repr__()} - Batch {self.batch_count}")
 
         return all_halfturns_list, all_encoding_tokens_list
-- 
2.43.0


From a6843e27a0bec691e65760eba0b2e924210d6e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 33/37] fix: checkpoints appear only once completely written

---
 MahjongAI/supervised_learning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/supervised_learning.py b/MahjongAI/supervised_learning.py
index beb9ae8..9da9760 100644
--- a/MahjongAI/supervised_learning.py
+++ b/MahjongAI/supervised_learning.py
@@ -179,7 +179,9 @@ def train(model_name: str, max_iters: int, verbose: bool = True):
             model_path = os.path.join(
                 checkpoint_dir, f"model_{model_name}_checkpoint_iter_{iter}.pt"
             )
-            torch.save(model.state_dict(), model_path)
+            # write aside, so that an interrupted save never looks like a checkpoint
+            torch.save(model.state_dict(), model_path + ".tmp")
+            os.replace(model_path + ".tmp", model_path)
             log_message(f"Model saved at {model_path}")
 
         train_dataloader.reset()
-- 
2.43.0


From dc85ebd4e8311ee1820687edc804d9a2e6509e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:25 +0000
Subject: [PATCH 34/37] fix: a discard decision sees a dora revealed since the
 draw

---
 MahjongAI/process_xml.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/MahjongAI/process_xml.py b/MahjongAI/process_xml.py
index 112a9ff..7e083ca 100644
--- a/MahjongAI/process_xml.py
+++ b/MahjongAI/process_xml.py
@@ -254,8 +254,6 @@ def process(file_path: str, verbose: bool = False):
                                 melds[player].pop(i)
                                 break
 
-                stateObj = current_state(player)
-
                 curr_halfturn = None
 
                 # in case of Kakan, create new post turn to train on chankan ron decision
@@ -395,11 +393,9 @@ def process(file_path: str, verbose: bool = False):
                     naki_decisions,
                 ]
 
-                stateObj = current_state(player)
-
                 halfturn = DuringTurn(
                     player=player,
-                    stateObj=stateObj,
+                    stateObj=current_state(player),
                     decisions=during_decisions,
                     encoding_idx=len(encoding_tokens),
                 )
@@ -421,9 +417,10 @@ def process(file_path: str, verbose: bool = False):
                 tile_idx = TILE2IDX[tile]
                 assert hands[player, tile] == 1.0
 
+                # not the snapshot of the draw: a dora may have been revealed since
                 half_turn = DiscardTurn(
                     player=player,
-                    stateObj=stateObj,
+                    stateObj=current_state(player),
                     discarded_tile=tile,
                     encoding_idx=len(encoding_tokens),
                 )
-- 
2.43.0


From dbe7b21fecf7f993a37deb3ab9bffda938125662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 35/37] fix: masked actions stay impossible whatever the scale
 of the scores

---
 MahjongAI/agents/transformer.py              | 4 +++-
 MahjongAI/agents/transformer_conv.py         | 4 +++-
 MahjongAI/agents/transformer_conv_large.py   | 4 +++-
 MahjongAI/agents/transformer_conv_ordered.py | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/MahjongAI/agents/transformer.py b/MahjongAI/agents/transformer.py
index aeb1620..1e5e845 100644
--- a/MahjongAI/agents/transformer.py
+++ b/MahjongAI/agents/transformer.py
@@ -331,7 +331,9 @@ class Decoder(nn.Module):
         ), f"Logits shape {logits.shape} and mask shape {action_mask_batch.shape} do not match."
 
         # mask out invalid actions
-        logits = logits.masked_fill(action_mask_batch == 0, -1e9)
+        logits = logits.masked_fill(
+            action_mask_batch == 0, torch.finfo(logits.dtype).min
+        )
 
         loss = F.cross_entropy(logits, y_tensor, reduction="mean")
         return logits, loss
diff --git a/MahjongAI/agents/transformer_conv.py b/MahjongAI/agents/transformer_conv.py
index 28febff..7321fc9 100644
--- a/MahjongAI/agents/transformer_conv.py
+++ b/MahjongAI/agents/transformer_conv.py
@@ -331,7 +331,9 @@ class Decoder(nn.Module):
         ), f"Logits shape {logits.shape} and mask shape {action_mask_batch.shape} do not match."
 
         # mask out invalid actions
-        logits = logits.masked_fill(action_mask_batch == 0, -1e9)
+        logits = logits.masked_fill(
+            action_mask_batch == 0, torch.finfo(logits.dtype).min
+        )
 
         loss = F.cross_entropy(logits, y_tensor, reduction="mean")
         return logits, loss
diff --git a/MahjongAI/agents/transformer_conv_large.py b/MahjongAI/agents/transformer_conv_large.py
index 9f0966f..9220d14 100644
--- a/MahjongAI/agents/transformer_conv_large.py
+++ b/MahjongAI/agents/transformer_conv_large.py
@@ -331,7 +331,9 @@ class Decoder(nn.Module):
         ), f"Logits shape {logits.shape} and mask shape {action_mask_batch.shape} do not match."
 
         # mask out invalid actions
-        logits = logits.masked_fill(action_mask_batch == 0, -1e9)
+        logits = logits.masked_fill(
+            action_mask_batch == 0, torch.finfo(logits.dtype).min
+        )
 
         loss = F.cross_entropy(logits, y_tensor, reduction="mean")
         return logits, loss
diff --git a/MahjongAI/agents/transformer_conv_ordered.py b/MahjongAI/agents/transformer_conv_ordered.py
index 9172b3e..ebff116 100644
--- a/MahjongAI/agents/transformer_conv_ordered.py
+++ b/MahjongAI/agents/transformer_conv_ordered.py
@@ -353,7 +353,9 @@ class Decoder(nn.Module):
         ), f"Logits shape {logits.shape} and mask shape {action_mask_batch.shape} do not match."
 
         # mask out invalid actions
-        logits = logits.masked_fill(action_mask_batch == 0, -1e9)
+        logits = logits.masked_fill(
+            action_mask_batch == 0, torch.finfo(logits.dtype).min
+        )
 
         loss = F.cross_entropy(logits, y_tensor, reduction="mean")
         return logits, loss
-- 
2.43.0


From 4259d3240e600f9169c43c737a334e612627e005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:50 +0000
Subject: [PATCH 36/37] fix: a game whose download gets no answer ended the
 download of all others

---
 MahjongAI/data/scrape_data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MahjongAI/data/scrape_data.py b/MahjongAI/data/scrape_data.py
index 731c60e..b3d0932 100644
--- a/MahjongAI/data/scrape_data.py
+++ b/MahjongAI/data/scrape_data.py
@@ -27,7 +27,11 @@ for filename in os.listdir(dir_name):
                 headers = {
                     "User-Agent": "Mozilla/5.0 (Macintosh; Intel Mac OS X 10_15_7) "
                 }
-                response = requests.get(modified_url, headers=headers)
+                try:
+                    response = requests.get(modified_url, headers=headers)
+                except requests.RequestException:
+                    print(f"Failed to download data from: {modified_url}")
+                    continue
                 if response.status_code == 200:
                     # Save the response content to a file
                     data_filename = os.path.join(output_dir_name, gid + ".log")
-- 
2.43.0


From e2f7ab0ff2bfc9ef3c85f122721b987fbabaef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:50 +0000
Subject: [PATCH 37/37] fix: an index left half unpacked by an interrupted run
 was kept

---
 MahjongAI/data/filter_raw.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MahjongAI/data/filter_raw.sh b/MahjongAI/data/filter_raw.sh
index cf22aac..8255c76 100644
--- a/MahjongAI/data/filter_raw.sh
+++ b/MahjongAI/data/filter_raw.sh
@@ -12,7 +12,7 @@ done
 
 # Unzip .gz files in the directory
 for file in $directory*.gz; do
-    gunzip "$file"
+    gunzip -f "$file"
     unzipped_file="${file%.gz}"
     echo "Unzipped file: $unzipped_file"
 done
-- 
2.43.0

