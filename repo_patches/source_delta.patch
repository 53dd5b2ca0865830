From 418c1dd39ca12d94793f7f7d29b5fa6a5707ed3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:32 +0000
Subject: [PATCH 01/34] fix: mannequin: bound the in-area distance by the
 number of cells

Distances of more than rows + columns were not derived, so two shaded cells
far apart in a winding area escaped the clue and the adjacent-area rule.
---
 solver/mannequin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/mannequin.py b/solver/mannequin.py
index 44aafe9..f5c3f18 100644
--- a/solver/mannequin.py
+++ b/solver/mannequin.py
@@ -15,9 +15,9 @@ def distance_in_area(grid_size: Tuple[int, int]) -> str:
     r, c = grid_size
     rule = "dist(R, C, R, C, -1) :- grid(R, C).\n"
     rule += "dist(R, C, R0, C0, N) :- grid(R, C), grid(R0, C0), dist(R0, C0, R, C, N).\n"
-    # The following r + c upper bound is not rigorous.
+    # A shortest path in an area passes at most r * c cells.
     # TODO Actually it's better to pre-calculate the distance in python for this puzzle.
-    rule += f"dist(R, C, R0, C0, N) :- grid(R, C), grid(R0, C0), N < {r + c}, (R0, C0) != (R, C), area(A, R, C), area(A, R0, C0), N - 1 = #min{{ N1 : adj_4(R0, C0, R1, C1), area(A, R1, C1), dist(R, C, R1, C1, N1) }}.\n"
+    rule += f"dist(R, C, R0, C0, N) :- grid(R, C), grid(R0, C0), N < {r * c}, (R0, C0) != (R, C), area(A, R, C), area(A, R0, C0), N - 1 = #min{{ N1 : adj_4(R0, C0, R1, C1), area(A, R1, C1), dist(R, C, R1, C1, N1) }}.\n"
     return rule.strip()
 
 
-- 
2.43.0


From 1a9485a6d0eb06933774c93dfce708f0ca5eacdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:04 +0000
Subject: [PATCH 02/34] fix: aquapelago: a numbered cell must be shaded

---
 solver/aquapelago.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/aquapelago.py b/solver/aquapelago.py
index f3d2458..08412b8 100644
--- a/solver/aquapelago.py
+++ b/solver/aquapelago.py
@@ -34,6 +34,7 @@ class AquapelagoSolver(Solver):
         for (r, c, d, tp), num in puzzle.text.items():
             validate_direction(r, c, d)
             validate_type(tp, "normal")
+            self.add_program_line(f"black({r}, {c}).")
             if isinstance(num, int):
                 self.add_program_line(grid_src_color_connected((r, c), color="black", adj_type="x"))
                 self.add_program_line(count_reachable_src(num, (r, c), color="black", adj_type="x"))
-- 
2.43.0


From 30073afd139d63be2d2cdb1ed0c7d81c2fc997f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 03/34] fix: nuribou: measure a strip along its own cells only

---
 solver/nuribou.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/nuribou.py b/solver/nuribou.py
index fa32d79..5f10fd3 100644
--- a/solver/nuribou.py
+++ b/solver/nuribou.py
@@ -23,8 +23,8 @@ def noribou_strip_different(color: str = "black") -> str:
     rule += f":- {color}(R, C), nth(R, C, N1), nth(R, C, N2), N1 < N2.\n"
 
     rule += "len_strip(R, C, 1) :- upleft(R, C), not up(R, C + 1), not left(R + 1, C).\n"
-    rule += f"len_strip(R, C, N) :- upleft(R, C), up(R, C + 1), {color}(R, C + N - 1), not {color}(R, C + N), nth(R, C + N - 1, N).\n"
-    rule += f"len_strip(R, C, N) :- upleft(R, C), left(R + 1, C), {color}(R + N - 1, C), not {color}(R + N, C), nth(R + N - 1, C, N).\n"
+    rule += f"len_strip(R, C, N) :- upleft(R, C), up(R, C + 1), up(R, C + N - 1), not {color}(R, C + N), nth(R, C + N - 1, N).\n"
+    rule += f"len_strip(R, C, N) :- upleft(R, C), left(R + 1, C), left(R + N - 1, C), not {color}(R + N, C), nth(R + N - 1, C, N).\n"
     rule += f":- {color}(R, C), len_strip(R, C, L), len_strip(R, C, L1), L < L1.\n"
     rule += "len_strip(R, C, L) :- up(R, C), nth(R, C, N), len_strip(R, C - N + 1, L).\n"
     rule += "len_strip(R, C, L) :- left(R, C), nth(R, C, N), len_strip(R - N + 1, C, L).\n"
-- 
2.43.0


From f07a87d1a0fb83298ce8c7facfb8b189e92bb15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 04/34] fix: tapa: rebuild the pattern table instead of growing
 it on every request

---
 solver/tapa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/solver/tapa.py b/solver/tapa.py
index 08c8742..084c4f4 100644
--- a/solver/tapa.py
+++ b/solver/tapa.py
@@ -41,6 +41,8 @@ def parse_pattern(pattern: str) -> Tuple[int, ...]:
 
 def tapa_pattern_rule() -> str:
     """Generate pattern reference dictionary and tapa pattern map."""
+    pattern_ref.clear()
+    pattern_idx.clear()
     for i in range(256):
         pat = bin(i)[2:].zfill(8)
         parsed = parse_pattern(pat)
-- 
2.43.0


From fa6565e9a6b21a7d0999718302ff2a4b650ba2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:43 +0000
Subject: [PATCH 05/34] fix: firefly: a line that goes straight to another
 firefly has no bend

The bend count started from the neighbouring cell even when that cell is a
firefly, and so counted the bends of that firefly's own line.
---
 solver/firefly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/firefly.py b/solver/firefly.py
index ba23ec5..db01c30 100644
--- a/solver/firefly.py
+++ b/solver/firefly.py
@@ -18,7 +18,7 @@ def restrict_num_bend(r: int, c: int, num: int, color: str) -> str:
 
     A grid_in/grid_out rule should be defined first.
     """
-    rule = f"reachable({r}, {c}, {r}, {c}).\n"
+    rule = f"reachable({r}, {c}, {r}, {c}) :- {color}({r}, {c}).\n"
     rule += f"reachable({r}, {c}, R, C) :- {color}(R, C), grid(R1, C1), reachable({r}, {c}, R1, C1), adj_loop_directed(R1, C1, R, C).\n"
     rule += f'bend(R, C) :- {color}(R, C), grid_in(R, C, "l"), not grid_out(R, C, "r").\n'
     rule += f'bend(R, C) :- {color}(R, C), grid_in(R, C, "u"), not grid_out(R, C, "d").\n'
-- 
2.43.0


From 0efda13b3fc35434d23769c01fb270e5021b9fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:24 +0000
Subject: [PATCH 06/34] fix: firefly: lines and fireflies are connected also
 when no number is given

The atoms the connectivity rule speaks about were only defined together with a
number clue, so boards without numbers accepted detached loops.
---
 solver/firefly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/firefly.py b/solver/firefly.py
index db01c30..4c01676 100644
--- a/solver/firefly.py
+++ b/solver/firefly.py
@@ -26,8 +26,6 @@ def restrict_num_bend(r: int, c: int, num: int, color: str) -> str:
     rule += f'bend(R, C) :- {color}(R, C), grid_in(R, C, "d"), not grid_out(R, C, "u").\n'
     rule += f":- #count{{ R, C: grid(R, C), reachable({r}, {c}, R, C), bend(R, C) }} != {num}.\n"
 
-    rule += "firefly_all(R, C) :- firefly(R, C).\n"
-    rule += "firefly_all(R, C) :- dead_end(R, C).\n"
     return rule
 
 
@@ -51,6 +49,8 @@ class FireflySolver(Solver):
         self.add_program_line(grid(puzzle.row + 1, puzzle.col + 1))
         self.add_program_line(direction("lurd"))
         self.add_program_line("{ firefly(R, C) } :- grid(R, C), not dead_end(R, C).")
+        self.add_program_line("firefly_all(R, C) :- firefly(R, C).")
+        self.add_program_line("firefly_all(R, C) :- dead_end(R, C).")
         self.add_program_line(fill_path(color="firefly", directed=True))
         self.add_program_line(adjacent(_type="loop_directed"))
         self.add_program_line(directed_loop(color="firefly"))
-- 
2.43.0


From e3945fa6a7155cd60f7387bd1143a291f85a902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:24 +0000
Subject: [PATCH 07/34] fix: tapaloop: rebuild the pattern table instead of
 growing it on every request

---
 solver/tapaloop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/solver/tapaloop.py b/solver/tapaloop.py
index 2d57557..29b48a9 100644
--- a/solver/tapaloop.py
+++ b/solver/tapaloop.py
@@ -75,6 +75,8 @@ def parse_shape_clue(inner: Tuple[int, ...], outer: Tuple[int, ...]) -> Optional
 
 def tapaloop_pattern_rule() -> str:
     """Generate pattern reference dictionary and tapaloop pattern map."""
+    pattern_ref.clear()
+    pattern_idx.clear()
     for i in range(4096):
         pat = bin(i)[2:].zfill(12)
         inner = tuple(map(int, pat[:8]))
-- 
2.43.0


From d6e2d1f43491513a7d23e9193243788b49e189d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 08/34] fix: numlin: a closed loop is not a path between two
 numbers

The bits of a group of cells without a number were free, so such a group passed
the check for an unknown source; follow the links from the numbers instead.
---
 noqx/rule/reachable.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/noqx/rule/reachable.py b/noqx/rule/reachable.py
index 5a5435c..60355c0 100644
--- a/noqx/rule/reachable.py
+++ b/noqx/rule/reachable.py
@@ -233,8 +233,11 @@ def avoid_unknown_src_bit(color: str = "black", adj_type: Union[int, str] = 4) -
 
     Use this constraint with grid_bit_color_connected, and adj_type cannot be "edge".
     """
-    tag = tag_encode("reachable", "grid", "bit", "adj", adj_type)
-    return f":- grid(R, C), {color}(R, C), not {tag}(R, C, _)."
+    tag = tag_encode("reachable", "grid", "bit", "src", "adj", adj_type)
+    rule = f"{tag}(R, C) :- clue_bit(R, C, _).\n"
+    rule += f"{tag}(R, C) :- {tag}(R1, C1), grid(R, C), {color}(R, C), adj_{adj_type}(R, C, R1, C1).\n"
+    rule += f":- grid(R, C), {color}(R, C), not {tag}(R, C)."
+    return rule
 
 
 def grid_branch_color_connected(color: Optional[str] = "black", adj_type: Union[int, str] = 4) -> str:
-- 
2.43.0


From c62217c7d616c45a4816bdf72d30fa72d483dcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:53 +0000
Subject: [PATCH 09/34] fix: nagare: accept a wind that leaves the grid at once

---
 solver/nagare.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/solver/nagare.py b/solver/nagare.py
index 4acdd0d..c9bddee 100644
--- a/solver/nagare.py
+++ b/solver/nagare.py
@@ -16,6 +16,8 @@ def nagare_wind(r: int, c: int, d: str, puzzle: Puzzle) -> str:
     """Generate a constraint for the wind direction."""
     if d in ("l", "r"):
         cols = range(0, c) if d == "l" else range(puzzle.col - 1, c, -1)
+        if len(cols) == 0:
+            return ""  # the wind leaves the grid at once
 
         c1, c2 = cols[0], cols[-1]
         for c_ in cols:
@@ -29,6 +31,8 @@ def nagare_wind(r: int, c: int, d: str, puzzle: Puzzle) -> str:
 
     if d in ("u", "d"):
         rows = range(0, r) if d == "u" else range(puzzle.row - 1, r, -1)
+        if len(rows) == 0:
+            return ""  # the wind leaves the grid at once
 
         r1, r2 = rows[0], rows[-1]
         for r_ in rows:
-- 
2.43.0


From 5150fb0d9fa2ff632ac6048fdb5ab5cd9af9607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:53 +0000
Subject: [PATCH 10/34] fix: myopia: an arrow needs a line to point at

With arrows in all four directions and no line in sight the four distances were
all at the limit, hence equal.
---
 solver/myopia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/myopia.py b/solver/myopia.py
index f8bac48..2feaf40 100644
--- a/solver/myopia.py
+++ b/solver/myopia.py
@@ -14,7 +14,7 @@ from noqx.rule.reachable import grid_color_connected
 def opia_constraint(r: int, c: int, mask: List[bool], lmt: int) -> str:
     """Generate a constraint for opia-like puzzles."""
     m_t, m_l, m_b, m_r = mask
-    cmp = f"N {'=' if m_t else '<'} N1, N {'=' if m_b else '<'} N2, N {'=' if m_l else '<'} N3, N {'=' if m_r else '<'} N4"
+    cmp = f"N {'=' if m_t else '<'} N1, N {'=' if m_b else '<'} N2, N {'=' if m_l else '<'} N3, N {'=' if m_r else '<'} N4, N < {lmt}"
 
     top = f"top({r}, {c}, {r} - Mt) :- Mt = #max {{ R: grid(R, {c}), edge_top(R, {c}), R <= {r} }}, grid(Mt, _).\n"
     top += f"top({r}, {c}, {lmt}) :- Mt = #max {{ R: grid(R, {c}), edge_top(R, {c}), R <= {r} }}, not grid(Mt, _).\n"
-- 
2.43.0


From 6c98a8193bc584c3b8d137d53b66c6b9aa1eb6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:36 +0000
Subject: [PATCH 11/34] fix: triplace: a horizontal clue over a single cell
 counts along the row

The direction of a clue was guessed from its cells, so a rightward clue with one
cell was counted as a downward one.
---
 solver/triplace.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/solver/triplace.py b/solver/triplace.py
index 9d37267..94799b5 100644
--- a/solver/triplace.py
+++ b/solver/triplace.py
@@ -24,7 +24,7 @@ class TriplaceSolver(Solver):
     def solve(self, puzzle: Puzzle) -> str:
         self.reset()
         fail_false((puzzle.row * puzzle.col - len(puzzle.symbol)) % 3 == 0, "The grid cannot be divided into 3-ominoes!")
-        sums: List[Tuple[int, List[Tuple[int, int]]]] = []
+        sums: List[Tuple[int, List[Tuple[int, int]], str]] = []
         for (r, c, d, pos), num in puzzle.text.items():
             validate_direction(r, c, d)
             if pos == "sudoku_1" and isinstance(num, int):
@@ -35,7 +35,7 @@ class TriplaceSolver(Solver):
                     cur += 1
 
                 fail_false(len(area_points) > 0, f"Invalid kakuro clue at ({r}, {c}).")
-                sums.append((num, area_points))
+                sums.append((num, area_points, "edge_left(R, C + 1)"))
 
             if pos == "sudoku_2" and isinstance(num, int):
                 area_points: List[Tuple[int, int]] = []
@@ -45,7 +45,7 @@ class TriplaceSolver(Solver):
                     cur += 1
 
                 fail_false(len(area_points) > 0, f"Invalid kakuro clue at ({r}, {c}).")
-                sums.append((num, area_points))
+                sums.append((num, area_points, "edge_top(R + 1, C)"))
 
         self.add_program_line(defined(item="hole"))
         self.add_program_line(grid(puzzle.row, puzzle.col, with_holes=True))
@@ -68,13 +68,8 @@ class TriplaceSolver(Solver):
 
         t_be = tag_encode("belong_to_shape", "omino", 3, "grid")
         area_id = 0
-        for num, coord_list in sums:
+        for num, coord_list, edge_tag in sums:
             self.add_program_line(area(_id=area_id, src_cells=coord_list))
-
-            edge_tag = "edge_top(R + 1, C)"
-            if len(coord_list) > 1 and coord_list[0][0] == coord_list[1][0]:  # the rule is in order
-                edge_tag = "edge_left(R, C + 1)"
-
             self.add_program_line(f":- #count {{ R, C: area({area_id}, R, C), {t_be}(R, C, 0, _), {edge_tag} }} != {num}.")
             area_id += 1
 
-- 
2.43.0


From 978ed3e9577d17e03b6508c23a38acb7256d137f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:04 +0000
Subject: [PATCH 12/34] fix: a given number outside the range of fill_num no
 longer adds a second number to its cell

---
 noqx/rule/common.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/noqx/rule/common.py b/noqx/rule/common.py
index 6f151dc..1fcf150 100644
--- a/noqx/rule/common.py
+++ b/noqx/rule/common.py
@@ -114,12 +114,18 @@ def fill_num(_range: Iterable[int], _type: str = "grid", _id: Union[int, str] =
     range_str = f"{';'.join(range_seq)}"
 
     if _type == "grid":
-        return f"{{ number(R, C, ({range_str})){color_part} }} = 1 :- grid(R, C)."
+        cell = "grid(R, C)"
+    elif _type == "area":
+        cell = f"area({_id}, R, C)"
+    else:
+        raise ValueError("Invalid type, must be one of 'grid', 'area'.")
 
-    if _type == "area":
-        return f"{{ number(R, C, ({range_str})){color_part} }} = 1 :- area({_id}, R, C)."
+    rule = f"{{ number(R, C, ({range_str})){color_part} }} = 1 :- {cell}.\n"
 
-    raise ValueError("Invalid type, must be one of 'grid', 'area'.")
+    # a given number outside the range is not counted by the choice above
+    color_count = "" if color is None else f"; color : {color}(R, C)"
+    rule += f":- {cell}, #count {{ N : number(R, C, N){color_count} }} > 1."
+    return rule
 
 
 def unique_num(color: str = "black", _type: str = "row") -> str:
-- 
2.43.0


From adef0541380772dd34da9322750fb44a0c14ce4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:04 +0000
Subject: [PATCH 13/34] fix: ripple refuses a given number larger than its area

---
 solver/ripple.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/ripple.py b/solver/ripple.py
index e3ce8ab..61d3bfd 100644
--- a/solver/ripple.py
+++ b/solver/ripple.py
@@ -50,6 +50,7 @@ class RippleSolver(Solver):
             else:
                 self.add_program_line(fill_num(_range=range(1, len(ar) + 1), _type="area", _id=i))
 
+        self.add_program_line(":- number(R, C, N1), number(R, C, N2), N1 < N2.")
         self.add_program_line(unique_num(color="not black" if flag else "grid", _type="area"))
         self.add_program_line(ripple_constraint())
         self.add_program_line(display(item="number", size=3))
-- 
2.43.0


From 7c01a10b6f32d70c1341722e9134047da383b51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:04 +0000
Subject: [PATCH 14/34] fix: sudoku anti-diagonal on boards other than 9x9

---
 solver/sudoku.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/sudoku.py b/solver/sudoku.py
index a21eaf7..c569e9a 100644
--- a/solver/sudoku.py
+++ b/solver/sudoku.py
@@ -60,7 +60,7 @@ class SudokuSolver(Solver):
         if puzzle.param["diagonal"]:  # diagonal rule
             for i in range(n):
                 self.add_program_line(f"area({n + 1}, {i}, {i}).")
-                self.add_program_line(f"area({n + 2}, {i}, {8 - i}).")
+                self.add_program_line(f"area({n + 2}, {i}, {n - 1 - i}).")
 
         if puzzle.param["untouch"]:  # untouch rule
             self.add_program_line(avoid_num_adjacent(adj_type="x"))
-- 
2.43.0


From 1591ae205511e07ed15d8c35ebef3732e8a11774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:04 +0000
Subject: [PATCH 15/34] fix: kakuro runs without a sum clue must also hold
 distinct digits

---
 solver/kakuro.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/solver/kakuro.py b/solver/kakuro.py
index a1fb293..80b7a9d 100644
--- a/solver/kakuro.py
+++ b/solver/kakuro.py
@@ -1,6 +1,6 @@
 """The Kakuro solver."""
 
-from typing import List, Tuple
+from typing import List, Optional, Tuple
 
 from noqx.manager import Solver
 from noqx.puzzle import Direction, Point, Puzzle
@@ -25,7 +25,7 @@ class KakuroSolver(Solver):
 
     def solve(self, puzzle: Puzzle) -> str:
         self.reset()
-        sums: List[Tuple[int, List[Tuple[int, int]]]] = []
+        sums: List[Tuple[Optional[int], List[Tuple[int, int]]]] = []
         for (r, c, d, pos), num in puzzle.text.items():
             validate_direction(r, c, d)
             if pos == "sudoku_1" and isinstance(num, int):
@@ -51,6 +51,28 @@ class KakuroSolver(Solver):
             if pos == "normal" and isinstance(num, int):
                 self.add_program_line(f"number({r}, {c}, {num}).")  # initial conditions
 
+        for r in range(puzzle.row):  # runs without a clue
+            for c in range(puzzle.col):
+                for dr, dc, pos in ((0, 1, "sudoku_1"), (1, 0, "sudoku_2")):
+                    if r >= dr and c >= dc and not puzzle.symbol.get(Point(r - dr, c - dc, Direction.CENTER)):
+                        continue  # not the first cell of a run
+
+                    if isinstance(puzzle.text.get(Point(r - dr, c - dc, Direction.CENTER, pos)), int):
+                        continue
+
+                    area_points: List[Tuple[int, int]] = []
+                    cur = 0
+                    while (
+                        r + cur * dr < puzzle.row
+                        and c + cur * dc < puzzle.col
+                        and not puzzle.symbol.get(Point(r + cur * dr, c + cur * dc, Direction.CENTER))
+                    ):
+                        area_points.append((r + cur * dr, c + cur * dc))
+                        cur += 1
+
+                    if area_points:
+                        sums.append((None, area_points))
+
         self.add_program_line(defined(item="area", size=3))
         self.add_program_line(defined(item="number", size=3))
         self.add_program_line(grid(puzzle.row, puzzle.col))
@@ -59,7 +81,8 @@ class KakuroSolver(Solver):
         for sum_clue, coord_list in sums:
             self.add_program_line(area(_id=area_id, src_cells=coord_list))
             self.add_program_line(fill_num(_range=range(1, 10), _type="area", _id=area_id))
-            self.add_program_line(f":- #sum {{ N, R, C: area({area_id}, R, C), number(R, C, N) }} != {sum_clue}.")
+            if sum_clue is not None:
+                self.add_program_line(f":- #sum {{ N, R, C: area({area_id}, R, C), number(R, C, N) }} != {sum_clue}.")
             area_id += 1
 
         self.add_program_line(unique_num(_type="area", color="grid"))
-- 
2.43.0


From 9547b6cc5ea4b53359f5947c14b1e403b1af1808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:05 +0000
Subject: [PATCH 16/34] fix: binairo counts per line on non-square boards

---
 solver/binairo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/binairo.py b/solver/binairo.py
index f5cac57..b46d594 100644
--- a/solver/binairo.py
+++ b/solver/binairo.py
@@ -48,8 +48,8 @@ class BinairoSolver(Solver):
         self.add_program_line(grid(puzzle.row, puzzle.col))
         self.add_program_line(shade_c(color="circle_M__1"))
         self.add_program_line(invert_c(color="circle_M__1", invert="circle_M__2"))
-        self.add_program_line(count(puzzle.row // 2, color="circle_M__1", _type="row"))
-        self.add_program_line(count(puzzle.col // 2, color="circle_M__1", _type="col"))
+        self.add_program_line(count(puzzle.col // 2, color="circle_M__1", _type="row"))
+        self.add_program_line(count(puzzle.row // 2, color="circle_M__1", _type="col"))
         self.add_program_line(unique_linecolor(colors=["circle_M__1", "circle_M__2"], _type="row"))
         self.add_program_line(unique_linecolor(colors=["circle_M__1", "circle_M__2"], _type="col"))
         self.add_program_line(avoid_rect(1, 3, color="circle_M__1"))
-- 
2.43.0


From de6fefde43dd887f25fa2702bda97210ef68de2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:28 +0000
Subject: [PATCH 17/34] fix: pentopia arrows need a pentomino to point to

---
 solver/pentopia.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solver/pentopia.py b/solver/pentopia.py
index c1c9755..fc77f35 100644
--- a/solver/pentopia.py
+++ b/solver/pentopia.py
@@ -24,6 +24,7 @@ def opia_constraint(r: int, c: int, mask: List[bool], lmt: int, color: str = "bl
     """Generate a constraint for opia-like puzzles."""
     m_t, m_l, m_b, m_r = mask
     cmp = f"N {'=' if m_t else '<'} N1, N {'=' if m_b else '<'} N2, N {'=' if m_l else '<'} N3, N {'=' if m_r else '<'} N4"
+    cmp += f", N < {lmt}"  # the nearest pentomino must be inside the grid
 
     top = f"top({r}, {c}, {r} - Mt) :- Mt = #max {{ R: grid(R, {c}), {color}(R, {c}), R <= {r} }}, grid(Mt, _).\n"
     top += f"top({r}, {c}, {lmt}) :- Mt = #max {{ R: grid(R, {c}), {color}(R, {c}), R <= {r} }}, not grid(Mt, _).\n"
-- 
2.43.0


From 1931339225c87013d3dea73fd355042b400b59ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 18/34] fix: battleship accepts a middle part on a side of the
 board

---
 solver/battleship.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/battleship.py b/solver/battleship.py
index 220d55e..10b3ae1 100644
--- a/solver/battleship.py
+++ b/solver/battleship.py
@@ -43,7 +43,7 @@ class BattleshipSolver(Solver):
                 self.add_program_line(f":- grid({r}, {c - 1}), {fleet_name}({r}, {c - 1}).")
 
             if style == "2":
-                fail_false(0 < c < puzzle.col - 1 and 0 < r < puzzle.row - 1, f"Ship at ({r}, {c}) is outside of the board.")
+                fail_false(0 < c < puzzle.col - 1 or 0 < r < puzzle.row - 1, f"Ship at ({r}, {c}) is outside of the board.")
                 self.add_program_line(f":- #count {{ R, C: {fleet_name}(R, C), adj_4({r}, {c}, R, C) }} != 2.")
 
             if style == "3":
-- 
2.43.0


From cba2e2c868b4583f7900688bf2c91e21fe14e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:35 +0000
Subject: [PATCH 19/34] fix: gokigen keeps the diagonals drawn by the player

---
 solver/gokigen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/solver/gokigen.py b/solver/gokigen.py
index b7ac2c0..2e7ab9c 100644
--- a/solver/gokigen.py
+++ b/solver/gokigen.py
@@ -63,6 +63,10 @@ class GokigenSolver(Solver):
             if isinstance(num, int):
                 self.add_program_line(f":- #count{{ D: grid_direction({r}, {c}, D) }} != {num}.")
 
+        for (r, c, d, _), draw in puzzle.edge.items():
+            if d in (Direction.DIAG_UP, Direction.DIAG_DOWN):
+                self.add_program_line(f":-{' not' * draw} edge_{d.value}({r}, {c}).")
+
         self.add_program_line(display(item="edge_diag_down", size=2))
         self.add_program_line(display(item="edge_diag_up", size=2))
 
-- 
2.43.0


From 775d4fce45fda087dba433b6306372d924543692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 20/34] fix: juosan keeps the marks made by the player

---
 solver/juosan.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/solver/juosan.py b/solver/juosan.py
index 86b134f..0d35ef5 100644
--- a/solver/juosan.py
+++ b/solver/juosan.py
@@ -44,7 +44,8 @@ class JuosanSolver(Solver):
         self.add_program_line(shade_c())
         self.add_program_line(jousan_constraint())
 
-        areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge, puzzle.text)
+        clues = {point: num for point, num in puzzle.text.items() if point.pos == "sudoku_0"}
+        areas = full_bfs(puzzle.row, puzzle.col, puzzle.edge, clues)
         for i, (ar, rc) in enumerate(areas.items()):
             self.add_program_line(area(_id=i, src_cells=ar))
             if rc:
@@ -52,6 +53,10 @@ class JuosanSolver(Solver):
                 if isinstance(num, int):
                     self.add_program_line(count_lines(i, num, len(ar) - num))
 
+        for (r, c, d, pos), text in puzzle.text.items():
+            if d == Direction.CENTER and pos == "normal" and text in ("——", "|"):
+                self.add_program_line(f':- not content({r}, {c}, "{text}").')
+
         self.add_program_line(display(item="content", size=3))
 
         return self.program
-- 
2.43.0


From b53b58d56d7376b5a10a069e0100b0cd37f10115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 21/34] fix: magnets keeps the marks made by the player

---
 solver/magnets.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/solver/magnets.py b/solver/magnets.py
index bc9cad0..9d545cb 100644
--- a/solver/magnets.py
+++ b/solver/magnets.py
@@ -61,6 +61,11 @@ class MagnetsSolver(Solver):
             fail_false(color in Color.DARK, f"Invalid color at ({r}, {c}).")
             self.add_program_line(f"gray({r}, {c}).")
 
+        for (r, c, d, _), symbol_name in puzzle.symbol.items():
+            validate_direction(r, c, d)
+            if symbol_name in ("math_G__2", "math_G__3"):
+                self.add_program_line(f":- not {symbol_name}({r}, {c}).")
+
         self.add_program_line(display(item="math_G__2"))
         self.add_program_line(display(item="math_G__3"))
         self.add_program_line(display(item="gray"))
-- 
2.43.0


From c51dd4b1fb654b8536d25257e24cbc814a7e594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 22/34] fix: shakashaka keeps the marks made by the player

---
 solver/shakashaka.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/solver/shakashaka.py b/solver/shakashaka.py
index dbe52ab..ea63416 100644
--- a/solver/shakashaka.py
+++ b/solver/shakashaka.py
@@ -100,6 +100,12 @@ class ShakashakaSolver(Solver):
             fail_false(color in Color.DARK, f"Invalid color at ({r}, {c}).")
             self.add_program_line(f"black({r}, {c}).")
 
+        triangle_dict = {"tri__1": "ul", "tri__2": "dl", "tri__3": "dr", "tri__4": "ur"}
+        for (r, c, d, _), symbol_name in puzzle.symbol.items():
+            validate_direction(r, c, d)
+            if symbol_name in triangle_dict:
+                self.add_program_line(f':- not triangle({r}, {c}, "{triangle_dict[symbol_name]}").')
+
         self.add_program_line(display(item="triangle", size=3))
 
         return self.program
-- 
2.43.0


From d367259614585f6d5889f5333727202b70d9ea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 23/34] fix: nagare keeps the marks made by the player

---
 solver/nagare.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/solver/nagare.py b/solver/nagare.py
index c9bddee..e5250bc 100644
--- a/solver/nagare.py
+++ b/solver/nagare.py
@@ -86,6 +86,11 @@ class NagareSolver(Solver):
             fail_false(color in Color.DARK, f"Invalid color at ({r}, {c}).")
             self.add_program_line(f"not nagare({r}, {c}).")
 
+        self.add_program_line("grid_direction(R, C, D) :- grid_in(R, C, D).")
+        self.add_program_line("grid_direction(R, C, D) :- grid_out(R, C, D).")
+        for (r, c, _, d), draw in puzzle.line.items():
+            self.add_program_line(f':-{" not" * draw} grid_direction({r}, {c}, "{d}").')
+
         self.add_program_line(display(item="grid_in", size=3))
         self.add_program_line(display(item="grid_out", size=3))
 
-- 
2.43.0


From 00ded253d21cb6ce8240c33b2f878e25c98d7e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 24/34] fix: haisu keeps the marks made by the player

---
 solver/haisu.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/solver/haisu.py b/solver/haisu.py
index 383ac18..d81c28e 100644
--- a/solver/haisu.py
+++ b/solver/haisu.py
@@ -104,6 +104,11 @@ class HaisuSolver(Solver):
             if isinstance(clue, int):
                 self.add_program_line(f"number({r}, {c}, {clue - 1 if (r, c) in s_index else clue}).")  # special case
 
+        self.add_program_line("grid_direction(R, C, D) :- grid_in(R, C, D).")
+        self.add_program_line("grid_direction(R, C, D) :- grid_out(R, C, D).")
+        for (r, c, _, d), draw in puzzle.line.items():
+            self.add_program_line(f':-{" not" * draw} grid_direction({r}, {c}, "{d}").')
+
         self.add_program_line(display(item="grid_in", size=3))
         self.add_program_line(display(item="grid_out", size=3))
 
-- 
2.43.0


From 7350d814a74d15a1e90c4132ac55193425e15284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 25/34] fix: penpa diagonal sides are read in the cell they are
 drawn in

---
 noqx/puzzle/penpa.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/noqx/puzzle/penpa.py b/noqx/puzzle/penpa.py
index 3901163..d77a818 100644
--- a/noqx/puzzle/penpa.py
+++ b/noqx/puzzle/penpa.py
@@ -170,10 +170,10 @@ class PenpaPuzzle(Puzzle):
                 self.edge[Point(coord_2[0] + 1, coord_2[1], Direction.TOP)] = True
             elif coord_1[1] == coord_2[1]:  # col equal, vertical line
                 self.edge[Point(coord_2[0], coord_2[1] + 1, Direction.LEFT)] = True
-            elif coord_1[0] - coord_2[0] == 1 and coord_2[1] - coord_1[1] == 1:  # upwards diagonal line
-                self.edge[Point(coord_2[0], coord_2[1], Direction.DIAG_UP)] = True
-            elif coord_2[0] - coord_1[0] == 1 and coord_1[1] - coord_2[1] == 1:  # downwards diagonal line
-                self.edge[Point(coord_2[0], coord_2[1], Direction.DIAG_DOWN)] = True
+            elif (coord_2[0] - coord_1[0]) * (coord_2[1] - coord_1[1]) == -1:  # upwards diagonal line
+                self.edge[Point(max(coord_1[0], coord_2[0]), max(coord_1[1], coord_2[1]), Direction.DIAG_UP)] = True
+            elif (coord_2[0] - coord_1[0]) * (coord_2[1] - coord_1[1]) == 1:  # downwards diagonal line
+                self.edge[Point(max(coord_1[0], coord_2[0]), max(coord_1[1], coord_2[1]), Direction.DIAG_DOWN)] = True
 
     def _unpack_line(self):
         """Unpack the line element from the board."""
-- 
2.43.0


From 00336bb5de87e2d7a876ac5cc769142f4ab2cf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:50 +0000
Subject: [PATCH 26/34] fix: koburin: a shaded clue cell has no answer

---
 solver/koburin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/koburin.py b/solver/koburin.py
index a85ed0b..6a73d7f 100644
--- a/solver/koburin.py
+++ b/solver/koburin.py
@@ -42,7 +42,7 @@ class KoburinSolver(Solver):
 
         for (r, c, _, _), color in puzzle.surface.items():
             fail_false(color in Color.DARK, f"Invalid color at ({r}, {c}).")
-            self.add_program_line(f"black({r}, {c}).")
+            self.add_program_line(f":- not black({r}, {c}).")
 
         for (r, c, _, d), draw in puzzle.line.items():
             self.add_program_line(f':-{" not" * draw} grid_direction({r}, {c}, "{d}").')
-- 
2.43.0


From 6d3a0c77156256974c8825c67eebe5963fa6aaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:30 +0000
Subject: [PATCH 27/34] fix: the same answer is no longer returned several
 times

---
 noqx/clingo.py    | 1 +
 penpa-edit/app.js | 2 +-
 solver/nagare.py  | 3 +--
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/noqx/clingo.py b/noqx/clingo.py
index 1ed75f5..c1eb23a 100644
--- a/noqx/clingo.py
+++ b/noqx/clingo.py
@@ -46,6 +46,7 @@ class ClingoSolver:
         self.clingo_instance.configuration.asp.eq = 1  # type: ignore
         self.clingo_instance.configuration.solve.parallel_mode = Config.parallel_threads  # type: ignore
         self.clingo_instance.configuration.solve.models = Config.max_solutions_to_find  # type: ignore
+        self.clingo_instance.configuration.solve.project = "show"  # type: ignore  # no duplicate answers
         self.clingo_instance.add(program=program)
         self.clingo_instance.ground()
         with self.clingo_instance.solve(on_model=self.store_model, async_=True) as handle:  # type: ignore
diff --git a/penpa-edit/app.js b/penpa-edit/app.js
index eacf0e4..fef296f 100644
--- a/penpa-edit/app.js
+++ b/penpa-edit/app.js
@@ -286,7 +286,7 @@ $(window).on("load", function () {
             throw new Error(program.get("result"));
           }
 
-          const options = "--sat-prepro --trans-ext=dynamic --eq=1 --models=10";
+          const options = "--sat-prepro --trans-ext=dynamic --eq=1 --project=show --models=10";
           const result = await clingo.run(program.get("result"), options);
 
           if (result.Result === "ERROR") {
diff --git a/solver/nagare.py b/solver/nagare.py
index e5250bc..39e535f 100644
--- a/solver/nagare.py
+++ b/solver/nagare.py
@@ -91,7 +91,6 @@ class NagareSolver(Solver):
         for (r, c, _, d), draw in puzzle.line.items():
             self.add_program_line(f':-{" not" * draw} grid_direction({r}, {c}, "{d}").')
 
-        self.add_program_line(display(item="grid_in", size=3))
-        self.add_program_line(display(item="grid_out", size=3))
+        self.add_program_line(display(item="grid_direction", size=3))
 
         return self.program
-- 
2.43.0


From c849a6aec460ba415c9e5597a0e381cf4ec04a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:16 +0000
Subject: [PATCH 28/34] fix: count_shape in areas counts a piece by its id, not
 by its orientation

---
 noqx/rule/shape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/noqx/rule/shape.py b/noqx/rule/shape.py
index f7feed2..f9d3331 100644
--- a/noqx/rule/shape.py
+++ b/noqx/rule/shape.py
@@ -210,7 +210,7 @@ def count_shape(
         rule = f":- {{ {tag}(R, C, {_id}, _) }} {rop} {num}."
 
     if _type == "area":
-        rule = f":- area(A, _, _), {{ {tag}(A, R, C, _, {_id}) }} {rop} {num}."
+        rule = f":- area(A, _, _), {{ {tag}(A, R, C, {_id}, _) }} {rop} {num}."
 
     return rule
 
-- 
2.43.0


From b92e6c8ee8b029107f6e445eaaaca3b7a5efd3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:07 +0000
Subject: [PATCH 29/34] fix: an answer's rising diagonal is keyed as on the
 board, so one drawn in the problem is not drawn over

---
 noqx/puzzle/penpa.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/noqx/puzzle/penpa.py b/noqx/puzzle/penpa.py
index d77a818..e390c6a 100644
--- a/noqx/puzzle/penpa.py
+++ b/noqx/puzzle/penpa.py
@@ -274,9 +274,9 @@ class PenpaPuzzle(Puzzle):
                 coord_2 = (point.r - 1, point.c)
             if point.d == Direction.LEFT:
                 coord_2 = (point.r, point.c - 1)
-            if point.d == Direction.DIAG_UP:
-                coord_1 = (point.r, point.c - 1)
-                coord_2 = (point.r - 1, point.c)
+            if point.d == Direction.DIAG_UP:  # keep the indices in ascending order as the board does
+                coord_1 = (point.r - 1, point.c)
+                coord_2 = (point.r, point.c - 1)
             if point.d == Direction.DIAG_DOWN:
                 coord_2 = (point.r, point.c)
 
-- 
2.43.0


From f6c27a39b32502c3915e19384528ff2f43ab0abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 30/34] fix: ignore the reply of a solving request after the
 board is reset

---
 penpa-edit/app.js | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/penpa-edit/app.js b/penpa-edit/app.js
index fef296f..0d1ed8b 100644
--- a/penpa-edit/app.js
+++ b/penpa-edit/app.js
@@ -162,6 +162,7 @@ $(window).on("load", function () {
   let solutionList = null;
   let solutionPointer = -1;
   let puzzleParameters = {};
+  let solveRequest = 0; // the latest solving request, older ones are outdated
 
   let puzzleSearchBoxInput = document.querySelector(".choices__input.choices__input--cloned");
   puzzleSearchBoxInput.id = "select2_search"; // spoof penpa+ to type words in the search box
@@ -258,6 +259,7 @@ $(window).on("load", function () {
     puzzleName = typeSelect.value;
 
     if (solutionPointer === -1) {
+      const request = ++solveRequest;
       puzzleContent = exp();
       choicesType.disable();
       choicesExample.disable();
@@ -288,6 +290,7 @@ $(window).on("load", function () {
 
           const options = "--sat-prepro --trans-ext=dynamic --eq=1 --project=show --models=10";
           const result = await clingo.run(program.get("result"), options);
+          if (request !== solveRequest) return; // the board is reset already
 
           if (result.Result === "ERROR") {
             console.error(result.Error);
@@ -315,6 +318,7 @@ $(window).on("load", function () {
           solutionPointer = 0;
           load(solutionList[solutionPointer]);
         } catch (e) {
+          if (request !== solveRequest) return;
           console.log(e);
 
           Swal.fire({
@@ -324,7 +328,7 @@ $(window).on("load", function () {
             footer: issueMessage,
           });
         } finally {
-          if (solutionList) {
+          if (solutionList && request === solveRequest) {
             solveButton.textContent = `Solution (${solutionPointer + 1}/${
               solutionList.length === 10 ? "10+" : solutionList.length
             })`;
@@ -343,6 +347,7 @@ $(window).on("load", function () {
         })
           .then(async (response) => {
             let body = await response.json();
+            if (request !== solveRequest) return; // the board is reset already
             if (response.status === 400 || response.status === 500) {
               Swal.fire({
                 icon: "error",
@@ -377,6 +382,7 @@ $(window).on("load", function () {
             }
           })
           .catch((e) => {
+            if (request !== solveRequest) return;
             Swal.fire({
               icon: "question",
               title: "Unexpected error",
@@ -385,6 +391,7 @@ $(window).on("load", function () {
             });
           })
           .finally(() => {
+            if (request !== solveRequest) return;
             solveButton.textContent = `Solution (${solutionPointer + 1}/${
               solutionList.length === 10 ? "10+" : solutionList.length
             })`;
@@ -418,6 +425,7 @@ $(window).on("load", function () {
       advancecontrol_toggle();
       advancecontrol_toggle();
     }
+    solveRequest++; // drop the answers still on the way
     puzzleContent = null;
     solutionList = [];
     solutionPointer = -1;
-- 
2.43.0


From 00908dd474dfd711ffaf83e07e21ddf8fcae045e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 31/34] fix: do not leave the solve button stuck after the
 first solving fails

---
 penpa-edit/app.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/penpa-edit/app.js b/penpa-edit/app.js
index 0d1ed8b..286cf95 100644
--- a/penpa-edit/app.js
+++ b/penpa-edit/app.js
@@ -260,6 +260,7 @@ $(window).on("load", function () {
 
     if (solutionPointer === -1) {
       const request = ++solveRequest;
+      solutionList = [];
       puzzleContent = exp();
       choicesType.disable();
       choicesExample.disable();
-- 
2.43.0


From acff95693d6ba9e52118c768b0bc9f1033150af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 32/34] fix: do not send the parameters of another puzzle type

---
 penpa-edit/app.js | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/penpa-edit/app.js b/penpa-edit/app.js
index 286cf95..5623c2c 100644
--- a/penpa-edit/app.js
+++ b/penpa-edit/app.js
@@ -267,14 +267,13 @@ $(window).on("load", function () {
       solveButton.textContent = "Solving...";
       solveButton.disabled = true;
 
+      puzzleParameters = {}; // reset parameters
       if (Object.keys(solver_metadata[puzzleName].parameters).length > 0) {
         for (const [k, _] of Object.entries(solver_metadata[puzzleName].parameters)) {
           const paramInput = document.getElementById(`param_${k}`);
           if (paramInput.type === "checkbox") puzzleParameters[k] = paramInput.checked;
           else puzzleParameters[k] = paramInput.value;
         }
-      } else {
-        puzzleParameters = {}; // reset parameters
       }
 
       if (ENABLE_DEPLOYMENT) {
-- 
2.43.0


From 466997c0fa8917ca8de25e83bd1f64d55ae9a0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:05 +0000
Subject: [PATCH 33/34] fix: reset an example given as a puzz.link URL

---
 penpa-edit/app.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/penpa-edit/app.js b/penpa-edit/app.js
index 5623c2c..8f7d671 100644
--- a/penpa-edit/app.js
+++ b/penpa-edit/app.js
@@ -417,7 +417,8 @@ $(window).on("load", function () {
         clingo.worker = new Worker(CLINGO_WEB_WORKER_URL); // respawn a new web worker
         await clingo.init(CLINGO_WASM_URL); // reinitialize clingo-wasm
       }
-      imp(puzzleContent.includes(urlBase) ? puzzleContent : `${urlBase}${puzzleContent}`);
+      const isURL = puzzleContent.includes(urlBase) || puzzleContent.startsWith("http");
+      imp(isURL ? puzzleContent : `${urlBase}${puzzleContent}`);
       choicesType.enable();
       choicesExample.enable();
     } else {
-- 
2.43.0


From c7296abb12e30280b27347e19ef31105a2d1d99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:14 +0000
Subject: [PATCH 34/34] fix: do not rewrite the content of imported penpa
 boards

---
 penpa-edit/app.js | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/penpa-edit/app.js b/penpa-edit/app.js
index 8f7d671..36288f9 100644
--- a/penpa-edit/app.js
+++ b/penpa-edit/app.js
@@ -9,6 +9,13 @@ function exp() {
 function imp(penpa) {
   let urlstring = penpa || document.getElementById("urlstring").value;
 
+  // import a penpa board as it is, its content may spell any of the names below
+  if (urlstring && urlstring.includes("m=edit&p=")) {
+    import_url(urlstring);
+    clear_info();
+    return;
+  }
+
   // replace unsupported solver to supported solvers
   urlstring = urlstring.replace("chocona", "aqre");
   urlstring = urlstring.replace("cocktail", "aqre");
-- 
2.43.0

