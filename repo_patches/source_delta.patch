From ad5c0823f1301fe3e76ffc339e9fc5c05ebbea67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:39 +0000
Subject: [PATCH 01/19] fix: refuse myopia and pentopia arrows that point
 nowhere

An arrow clue without any direction produced a rule whose variable N has
no bound, which the solving engine rejects with an internal error.
---
 solver/myopia.py   | 3 ++-
 solver/pentopia.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/solver/myopia.py b/solver/myopia.py
index f8bac48..a8b641b 100644
--- a/solver/myopia.py
+++ b/solver/myopia.py
@@ -5,7 +5,7 @@ from typing import List
 from noqx.manager import Solver
 from noqx.puzzle import Puzzle
 from noqx.rule.common import direction, display, fill_path, grid, shade_c
-from noqx.rule.helper import validate_direction, validate_type
+from noqx.rule.helper import fail_false, validate_direction, validate_type
 from noqx.rule.loop import convert_direction_to_edge, single_loop
 from noqx.rule.neighbor import adjacent
 from noqx.rule.reachable import grid_color_connected
@@ -65,6 +65,7 @@ class MyopiaSolver(Solver):
 
             # direction order: top, left, bottom, right
             mask = [bool(style & 64), bool(style & 128), bool(style & 16), bool(style & 32)]
+            fail_false(any(mask), f"The arrow in ({r}, {c}) should point to at least one direction.")
             self.add_program_line(opia_constraint(r, c, mask, max(puzzle.row, puzzle.col) + 1))
 
         for (r, c, d, _), draw in puzzle.edge.items():
diff --git a/solver/pentopia.py b/solver/pentopia.py
index c1c9755..9e0c23e 100644
--- a/solver/pentopia.py
+++ b/solver/pentopia.py
@@ -5,7 +5,7 @@ from typing import List
 from noqx.manager import Solver
 from noqx.puzzle import Color, Puzzle
 from noqx.rule.common import display, grid, shade_c
-from noqx.rule.helper import tag_encode, validate_direction, validate_type
+from noqx.rule.helper import fail_false, tag_encode, validate_direction, validate_type
 from noqx.rule.neighbor import adjacent
 from noqx.rule.shape import OMINOES, all_shapes, count_shape, general_shape
 
@@ -77,6 +77,7 @@ class PentopiaSolver(Solver):
 
             # direction order: top, left, bottom, right
             mask = [bool(style & 64), bool(style & 128), bool(style & 16), bool(style & 32)]
+            fail_false(any(mask), f"The arrow in ({r}, {c}) should point to at least one direction.")
             self.add_program_line(opia_constraint(r, c, mask, max(puzzle.row, puzzle.col) + 1, color="black"))
 
         for (r, c, _, _), color in puzzle.surface.items():
-- 
2.43.0


From f66bb86732f3bbac98ebf5f3d1a12dc2b6ef3733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:38 +0000
Subject: [PATCH 02/19] fix: tapa and tapaloop build their pattern table once
 instead of growing it on every request

---
 solver/tapa.py     | 26 ++++++++++++++------------
 solver/tapaloop.py | 28 +++++++++++++++-------------
 2 files changed, 29 insertions(+), 25 deletions(-)

diff --git a/solver/tapa.py b/solver/tapa.py
index 08c8742..b65eb95 100644
--- a/solver/tapa.py
+++ b/solver/tapa.py
@@ -11,8 +11,6 @@ from noqx.rule.reachable import grid_color_connected
 from noqx.rule.shape import avoid_rect
 
 direc = ((0, 1), (1, 1), (1, 0), (1, -1), (0, -1), (-1, -1), (-1, 0), (-1, 1))
-pattern_ref: Dict[Tuple[int, ...], List[int]] = {}
-pattern_idx: Dict[Tuple[int, ...], int] = {}
 
 
 def parse_pattern(pattern: str) -> Tuple[int, ...]:
@@ -39,22 +37,26 @@ def parse_pattern(pattern: str) -> Tuple[int, ...]:
     return tuple(sorted(result))
 
 
-def tapa_pattern_rule() -> str:
-    """Generate pattern reference dictionary and tapa pattern map."""
+def build_pattern_ref() -> Dict[Tuple[int, ...], List[int]]:
+    """Generate pattern reference dictionary."""
+    result: Dict[Tuple[int, ...], List[int]] = {}
     for i in range(256):
         pat = bin(i)[2:].zfill(8)
-        parsed = parse_pattern(pat)
+        result.setdefault(parse_pattern(pat), []).append(i)
+
+    return result
+
 
-        if pattern_ref.get(parsed):
-            pattern_ref[parsed].append(i)
-        else:
-            pattern_ref[parsed] = [i]
+pattern_ref = build_pattern_ref()
+pattern_idx = {pat: i for i, pat in enumerate(pattern_ref)}
 
+
+def tapa_pattern_rule() -> str:
+    """Generate tapa pattern map."""
     rule = ""
-    for i, (pat, vals) in enumerate(pattern_ref.items()):
-        pattern_idx[pat] = i
+    for pat, vals in pattern_ref.items():
         for v in vals:
-            rule += f"valid_tapa_map({i}, {v}).\n"
+            rule += f"valid_tapa_map({pattern_idx[pat]}, {v}).\n"
 
     return rule.strip()
 
diff --git a/solver/tapaloop.py b/solver/tapaloop.py
index 2d57557..f2c349b 100644
--- a/solver/tapaloop.py
+++ b/solver/tapaloop.py
@@ -12,8 +12,6 @@ from noqx.rule.reachable import grid_color_connected
 
 direc = ((-1, -1, "r"), (-1, 0, "r"), (-1, 1, "d"), (0, 1, "d"), (1, 1, "l"), (1, 0, "l"), (1, -1, "u"), (0, -1, "u"))
 direc_outer = ((-1, -1, "l"), (-1, 1, "u"), (1, 1, "r"), (1, -1, "d"))
-pattern_ref: Dict[Tuple[int, ...], List[int]] = {}
-pattern_idx: Dict[Tuple[int, ...], int] = {}
 
 
 def single_shape(*shape_d: Optional[int]) -> Optional[str]:
@@ -73,27 +71,31 @@ def parse_shape_clue(inner: Tuple[int, ...], outer: Tuple[int, ...]) -> Optional
     return tuple(sorted(clues))
 
 
-def tapaloop_pattern_rule() -> str:
-    """Generate pattern reference dictionary and tapaloop pattern map."""
+def build_pattern_ref() -> Dict[Tuple[int, ...], List[int]]:
+    """Generate pattern reference dictionary."""
+    result: Dict[Tuple[int, ...], List[int]] = {}
     for i in range(4096):
         pat = bin(i)[2:].zfill(12)
         inner = tuple(map(int, pat[:8]))
         outer = tuple(map(int, pat[8:]))
         parsed = parse_shape_clue(inner, outer)
 
-        if not parsed:
-            continue
+        if parsed:
+            result.setdefault(parsed, []).append(i)
+
+    return result
 
-        if pattern_ref.get(parsed):
-            pattern_ref[parsed].append(i)
-        else:
-            pattern_ref[parsed] = [i]
 
+pattern_ref = build_pattern_ref()
+pattern_idx = {pat: i for i, pat in enumerate(pattern_ref)}
+
+
+def tapaloop_pattern_rule() -> str:
+    """Generate tapaloop pattern map."""
     rule = ""
-    for i, (pat, vals) in enumerate(pattern_ref.items()):
-        pattern_idx[pat] = i
+    for pat, vals in pattern_ref.items():
         for v in vals:
-            rule += f"valid_tapaloop_map({i}, {v}).\n"
+            rule += f"valid_tapaloop_map({pattern_idx[pat]}, {v}).\n"
 
     return rule.strip()
 
-- 
2.43.0


From 35cb90f1534e8d0cba020f93304832169b01796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:26 +0000
Subject: [PATCH 03/19] fix: refuse boards of an unsupported cell shape with
 their reason

---
 noqx/puzzle/penpa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/noqx/puzzle/penpa.py b/noqx/puzzle/penpa.py
index 3901163..440583b 100644
--- a/noqx/puzzle/penpa.py
+++ b/noqx/puzzle/penpa.py
@@ -99,7 +99,7 @@ class PenpaPuzzle(Puzzle):
             self.row = int(header[2]) - top_margin - bottom_margin
             self.col = int(header[1]) - left_margin - right_margin
         else:
-            raise NotImplementedError("Unsupported cell shape. Current only square shape is supported.")
+            raise ValueError("Unsupported cell shape. Current only square shape is supported.")
 
     def _unpack_surface(self):
         """Unpack the surface element from the board."""
-- 
2.43.0


From 6fa782a7c672be351089ae0a0327c6fab50b904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:46 +0000
Subject: [PATCH 04/19] fix: refuse non-numeric coral and nonogram clues
 instead of pasting their text into the program

---
 solver/coral.py    | 3 +++
 solver/nonogram.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/solver/coral.py b/solver/coral.py
index 999b99b..fe7b1d4 100644
--- a/solver/coral.py
+++ b/solver/coral.py
@@ -5,6 +5,7 @@ from collections import Counter
 from noqx.manager import Solver
 from noqx.puzzle import Color, Direction, Puzzle
 from noqx.rule.common import display, grid, shade_c
+from noqx.rule.helper import fail_false
 from noqx.rule.neighbor import adjacent
 from noqx.rule.reachable import border_color_connected, grid_color_connected
 from noqx.rule.shape import avoid_rect
@@ -65,6 +66,7 @@ class CoralSolver(Solver):
         for r, clue in left_clues.items():
             if clue:
                 for num, count in Counter(clue).items():
+                    fail_false(isinstance(num, int), f"Clue {num} at the left of row {r} should be an integer.")
                     self.add_program_line(f":- #count{{ C: grid({r}, C), len_horizontal({r}, C, {num}) }} != {count}.")
                 forbidden_len = ",".join([f"N != {x}" for x in Counter(clue).keys()])
                 self.add_program_line(f":- grid({r}, C), len_horizontal({r}, C, N), {forbidden_len}.")
@@ -72,6 +74,7 @@ class CoralSolver(Solver):
         for c, clue in top_clues.items():
             if clue:
                 for num, count in Counter(clue).items():
+                    fail_false(isinstance(num, int), f"Clue {num} at the top of column {c} should be an integer.")
                     self.add_program_line(f":- #count{{ R: grid(R, {c}), len_vertical(R, {c}, {num}) }} != {count}.")
                 forbidden_len = ",".join([f"N != {x}" for x in Counter(clue).keys()])
                 self.add_program_line(f":- grid(R, {c}), len_vertical(R, {c}, N), {forbidden_len}.")
diff --git a/solver/nonogram.py b/solver/nonogram.py
index 50544ac..c7c6c01 100644
--- a/solver/nonogram.py
+++ b/solver/nonogram.py
@@ -5,6 +5,7 @@ from typing import Dict, Tuple, Union
 from noqx.manager import Solver
 from noqx.puzzle import Color, Direction, Puzzle
 from noqx.rule.common import display, shade_c
+from noqx.rule.helper import fail_false
 
 
 def nono_row(col: int, clues: Dict[int, Tuple[Union[int, str]]], color: str = "black"):
@@ -26,6 +27,7 @@ def nono_row(col: int, clues: Dict[int, Tuple[Union[int, str]]], color: str = "b
             constraints.append(f":- not row_count({i}, {col - 1}, {len(clue) - 1}, _).")
             for j, num in enumerate(clue):
                 if num != "?":
+                    fail_false(isinstance(num, int), f"Clue {num} at the left of row {i} should be an integer.")
                     slope = f"row_count({i}, C, {j}, V), row_count({i}, C + 1, {j}, 0)"
                     constraints.append(f"row_count_value_range({i}, {j}, 0..{num}).")
                     constraints.append(f":- grid({i}, C), {color}({i}, C), {slope} , V != {num}.")
@@ -54,6 +56,7 @@ def nono_col(row: int, clues: Dict[int, Tuple[Union[int, str]]], color: str = "b
             constraints.append(f":- not col_count({row}, {i}, {len(clue) - 1}, 0).")
             for j, num in enumerate(clue):
                 if num != "?":
+                    fail_false(isinstance(num, int), f"Clue {num} at the top of column {i} should be an integer.")
                     slope = f"col_count(R, {i}, {j}, V), col_count(R + 1, {i}, {j}, 0)"
                     constraints.append(f"col_count_value_range({i}, {j}, 0..{num}).")
                     constraints.append(f":- grid(R, {i}), {color}(R, {i}), {slope}, V != {num}.")
-- 
2.43.0


From 8eb084d7084db201a8ccc4ecec8b8493bf4f981f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:47 +0000
Subject: [PATCH 05/19] fix: refuse or skip odd clues that made eight solvers
 fail with an internal error

---
 solver/country.py         | 2 +-
 solver/detour.py          | 2 +-
 solver/easyasabc.py       | 1 +
 solver/firefly.py         | 3 ++-
 solver/nagare.py          | 5 +++++
 solver/ncells.py          | 1 +
 solver/sudoku.py          | 1 +
 solver/yajilin_regions.py | 2 +-
 8 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/solver/country.py b/solver/country.py
index ff4e64a..5fd4c73 100644
--- a/solver/country.py
+++ b/solver/country.py
@@ -43,7 +43,7 @@ class CountrySolver(Solver):
             self.add_program_line(area_border(_id=i, src_cells=ar, edge=puzzle.edge))
             self.add_program_line(count_area_pass(1, _id=i))
             if rc:
-                num = puzzle.text[Point(*rc, Direction.CENTER, "normal")]
+                num = puzzle.text.get(Point(*rc, Direction.CENTER, "normal"))
                 if isinstance(num, int):
                     self.add_program_line(count(num, color="country_road", _type="area", _id=i))
 
diff --git a/solver/detour.py b/solver/detour.py
index 1624054..f6403a7 100644
--- a/solver/detour.py
+++ b/solver/detour.py
@@ -40,7 +40,7 @@ class DetourSolver(Solver):
             self.add_program_line(area(_id=i, src_cells=ar))
 
             if rc:
-                num = puzzle.text[Point(*rc, Direction.CENTER, "sudoku_0")]
+                num = puzzle.text.get(Point(*rc, Direction.CENTER, "sudoku_0"))
                 if isinstance(num, int):
                     self.add_program_line(f":- #count {{ R, C: area({i}, R, C), turning(R, C) }} != {num}.")
 
diff --git a/solver/easyasabc.py b/solver/easyasabc.py
index 51c8003..372973e 100644
--- a/solver/easyasabc.py
+++ b/solver/easyasabc.py
@@ -37,6 +37,7 @@ class EasyAsABCSolver(Solver):
             validate_direction(r, c, d)
             validate_type(pos, "normal")
             fail_false(len(letter) == 1, f"Clue at ({r}, {c}) should be a letter.")
+            fail_false(letter in rev_letters, f"Clue at ({r}, {c}) should be one of the letters {letters}.")
 
             if r == -1 and 0 <= c < puzzle.col:
                 self.add_program_line(
diff --git a/solver/firefly.py b/solver/firefly.py
index ba23ec5..93be152 100644
--- a/solver/firefly.py
+++ b/solver/firefly.py
@@ -3,7 +3,7 @@
 from noqx.manager import Solver
 from noqx.puzzle import Direction, Point, Puzzle
 from noqx.rule.common import defined, direction, display, fill_path, grid
-from noqx.rule.helper import validate_direction
+from noqx.rule.helper import fail_false, validate_direction
 from noqx.rule.loop import convert_direction_to_edge, directed_loop
 from noqx.rule.neighbor import adjacent
 from noqx.rule.reachable import grid_color_connected
@@ -63,6 +63,7 @@ class FireflySolver(Solver):
             if shape != "firefly":  # pragma: no cover
                 continue  # warning: incompatible encoding with penpa+/puzz.link
 
+            fail_false(style in drdc, f"Invalid symbol at ({r}, {c}).")
             dr, dc = drdc[style]
             clue = puzzle.text.get(Point(r, c, Direction.TOP_LEFT, "normal"))  # the text is also placed in the top-left corner
 
diff --git a/solver/nagare.py b/solver/nagare.py
index 4acdd0d..7036f95 100644
--- a/solver/nagare.py
+++ b/solver/nagare.py
@@ -16,6 +16,8 @@ def nagare_wind(r: int, c: int, d: str, puzzle: Puzzle) -> str:
     """Generate a constraint for the wind direction."""
     if d in ("l", "r"):
         cols = range(0, c) if d == "l" else range(puzzle.col - 1, c, -1)
+        if not cols:  # the wind blows out of the board
+            return ""
 
         c1, c2 = cols[0], cols[-1]
         for c_ in cols:
@@ -29,6 +31,8 @@ def nagare_wind(r: int, c: int, d: str, puzzle: Puzzle) -> str:
 
     if d in ("u", "d"):
         rows = range(0, r) if d == "u" else range(puzzle.row - 1, r, -1)
+        if not rows:  # the wind blows out of the board
+            return ""
 
         r1, r2 = rows[0], rows[-1]
         for r_ in rows:
@@ -68,6 +72,7 @@ class NagareSolver(Solver):
         for (r, c, d, _), symbol_name in puzzle.symbol.items():
             validate_direction(r, c, d)
             shape, style = symbol_name.split("__")
+            fail_false(style in dict_dir, f"Invalid symbol at ({r}, {c}).")
             _d = dict_dir[style]
 
             if shape == "arrow_B_B":
diff --git a/solver/ncells.py b/solver/ncells.py
index 6a2b231..3e21037 100644
--- a/solver/ncells.py
+++ b/solver/ncells.py
@@ -35,6 +35,7 @@ class NCellsSolver(Solver):
         self.reset()
         fail_false(puzzle.param["region_size"].isdigit(), "Invalid region size.")
         size = int(puzzle.param["region_size"])
+        fail_false(size > 0, "Invalid region size.")
         fail_false(puzzle.row * puzzle.col % size == 0, "It's impossible to divide grid into regions of this size!")
         self.add_program_line(grid(puzzle.row, puzzle.col))
         self.add_program_line(edge(puzzle.row, puzzle.col))
diff --git a/solver/sudoku.py b/solver/sudoku.py
index a21eaf7..2db29b3 100644
--- a/solver/sudoku.py
+++ b/solver/sudoku.py
@@ -36,6 +36,7 @@ class SudokuSolver(Solver):
         fail_false(puzzle.row == puzzle.col, "This puzzle must be square.")
         n = puzzle.row
         sep = {9: (3, 3), 8: (2, 4), 6: (2, 3), 4: (2, 2)}
+        fail_false(n in sep, f"A {n}x{n} board cannot be divided into boxes.")
 
         self.add_program_line(grid(n, n))
         self.add_program_line(adjacent(_type="x"))
diff --git a/solver/yajilin_regions.py b/solver/yajilin_regions.py
index dc1d83b..6569c79 100644
--- a/solver/yajilin_regions.py
+++ b/solver/yajilin_regions.py
@@ -42,7 +42,7 @@ class YajilinRegionsSolver(Solver):
             self.add_program_line(area(_id=i, src_cells=ar))
 
             if rc:
-                num = puzzle.text[Point(*rc, Direction.CENTER, "sudoku_0")]
+                num = puzzle.text.get(Point(*rc, Direction.CENTER, "sudoku_0"))
                 if isinstance(num, int):
                     self.add_program_line(count(num, color="black", _type="area", _id=i))
 
-- 
2.43.0


From 81308b76babff30515582db677de5c5af127bf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:47 +0000
Subject: [PATCH 06/19] fix: sudoku's second diagonal on boards smaller than
 9x9

---
 solver/sudoku.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/sudoku.py b/solver/sudoku.py
index 2db29b3..e619198 100644
--- a/solver/sudoku.py
+++ b/solver/sudoku.py
@@ -61,7 +61,7 @@ class SudokuSolver(Solver):
         if puzzle.param["diagonal"]:  # diagonal rule
             for i in range(n):
                 self.add_program_line(f"area({n + 1}, {i}, {i}).")
-                self.add_program_line(f"area({n + 2}, {i}, {8 - i}).")
+                self.add_program_line(f"area({n + 2}, {i}, {n - 1 - i}).")
 
         if puzzle.param["untouch"]:  # untouch rule
             self.add_program_line(avoid_num_adjacent(adj_type="x"))
-- 
2.43.0


From df9dbf2372e156699c0e5ab1e9d4249629a27ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:10 +0000
Subject: [PATCH 07/19] fix: binairo balanced rows by the number of rows and
 columns by the number of columns

---
 solver/binairo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solver/binairo.py b/solver/binairo.py
index f5cac57..b46d594 100644
--- a/solver/binairo.py
+++ b/solver/binairo.py
@@ -48,8 +48,8 @@ class BinairoSolver(Solver):
         self.add_program_line(grid(puzzle.row, puzzle.col))
         self.add_program_line(shade_c(color="circle_M__1"))
         self.add_program_line(invert_c(color="circle_M__1", invert="circle_M__2"))
-        self.add_program_line(count(puzzle.row // 2, color="circle_M__1", _type="row"))
-        self.add_program_line(count(puzzle.col // 2, color="circle_M__1", _type="col"))
+        self.add_program_line(count(puzzle.col // 2, color="circle_M__1", _type="row"))
+        self.add_program_line(count(puzzle.row // 2, color="circle_M__1", _type="col"))
         self.add_program_line(unique_linecolor(colors=["circle_M__1", "circle_M__2"], _type="row"))
         self.add_program_line(unique_linecolor(colors=["circle_M__1", "circle_M__2"], _type="col"))
         self.add_program_line(avoid_rect(1, 3, color="circle_M__1"))
-- 
2.43.0


From cfcf8b64624ea0c9cefbef3dae7f1cabfdfd136e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:10 +0000
Subject: [PATCH 08/19] fix: edges marked as absent were taken for room borders
 in heyablock, heyawake and hinge

---
 solver/heyablock.py | 4 ++--
 solver/heyawake.py  | 4 ++--
 solver/hinge.py     | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/solver/heyablock.py b/solver/heyablock.py
index 64c3176..3c0ed0c 100644
--- a/solver/heyablock.py
+++ b/solver/heyablock.py
@@ -47,13 +47,13 @@ class HeyablockSolver(Solver):
                 self.add_program_line(count(("gt", 0), color="gray", _type="area", _id=i))
 
         for r in range(puzzle.row):
-            borders_in_row = [c for c in range(1, puzzle.col) if Point(r, c, Direction.LEFT) in puzzle.edge]
+            borders_in_row = [c for c in range(1, puzzle.col) if puzzle.edge.get(Point(r, c, Direction.LEFT)) is True]
             for i in range(len(borders_in_row) - 1):
                 b1, b2 = borders_in_row[i], borders_in_row[i + 1]
                 self.add_program_line(avoid_rect(1, b2 - b1 + 2, color="not gray", corner=(r, b1 - 1)))
 
         for c in range(puzzle.col):
-            borders_in_col = [r for r in range(1, puzzle.row) if Point(r, c, Direction.TOP) in puzzle.edge]
+            borders_in_col = [r for r in range(1, puzzle.row) if puzzle.edge.get(Point(r, c, Direction.TOP)) is True]
             for i in range(len(borders_in_col) - 1):
                 b1, b2 = borders_in_col[i], borders_in_col[i + 1]
                 self.add_program_line(avoid_rect(b2 - b1 + 2, 1, color="not gray", corner=(b1 - 1, c)))
diff --git a/solver/heyawake.py b/solver/heyawake.py
index 13ecad3..66f328a 100644
--- a/solver/heyawake.py
+++ b/solver/heyawake.py
@@ -153,13 +153,13 @@ class HeyawakeSolver(Solver):
                         self.add_program_line(limit_border(lmt_border, ar, puzzle, _type="right", color="gray"))
 
         for r in range(puzzle.row):
-            borders_in_row = [c for c in range(1, puzzle.col) if Point(r, c, Direction.LEFT) in puzzle.edge]
+            borders_in_row = [c for c in range(1, puzzle.col) if puzzle.edge.get(Point(r, c, Direction.LEFT)) is True]
             for i in range(len(borders_in_row) - 1):
                 b1, b2 = borders_in_row[i], borders_in_row[i + 1]
                 self.add_program_line(avoid_rect(1, b2 - b1 + 2, color="not gray", corner=(r, b1 - 1)))
 
         for c in range(puzzle.col):
-            borders_in_col = [r for r in range(1, puzzle.row) if Point(r, c, Direction.TOP) in puzzle.edge]
+            borders_in_col = [r for r in range(1, puzzle.row) if puzzle.edge.get(Point(r, c, Direction.TOP)) is True]
             for i in range(len(borders_in_col) - 1):
                 b1, b2 = borders_in_col[i], borders_in_col[i + 1]
                 self.add_program_line(avoid_rect(b2 - b1 + 2, 1, color="not gray", corner=(b1 - 1, c)))
diff --git a/solver/hinge.py b/solver/hinge.py
index da7e168..375b619 100644
--- a/solver/hinge.py
+++ b/solver/hinge.py
@@ -47,9 +47,9 @@ class HingeSolver(Solver):
         for r in range(1, puzzle.row):
             c = 0
             while c < puzzle.col:
-                if Point(r, c, Direction.TOP) in puzzle.edge:
+                if puzzle.edge.get(Point(r, c, Direction.TOP)) is True:
                     c0 = c
-                    while c < puzzle.col and Point(r, c, Direction.TOP) in puzzle.edge:
+                    while c < puzzle.col and puzzle.edge.get(Point(r, c, Direction.TOP)) is True:
                         self.add_program_line(f"edge_top({r}, {c}).")
                         self.add_program_line(f'symmetry_axis({r}, {c}, {r}, {c0}, "H").')
                         c += 1
@@ -59,9 +59,9 @@ class HingeSolver(Solver):
         for c in range(1, puzzle.col):
             r = 0
             while r < puzzle.row:
-                if Point(r, c, Direction.LEFT) in puzzle.edge:
+                if puzzle.edge.get(Point(r, c, Direction.LEFT)) is True:
                     r0 = r
-                    while r < puzzle.row and Point(r, c, Direction.LEFT) in puzzle.edge:
+                    while r < puzzle.row and puzzle.edge.get(Point(r, c, Direction.LEFT)) is True:
                         self.add_program_line(f"edge_left({r}, {c}).")
                         self.add_program_line(f'symmetry_axis({r}, {c}, {r0}, {c}, "V").')
                         r += 1
-- 
2.43.0


From a5beed06b3452876bd87967d3f277f172e5e7309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:10 +0000
Subject: [PATCH 09/19] fix: heyawake's border limit compared a surface color
 with a number

---
 solver/heyawake.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/heyawake.py b/solver/heyawake.py
index 66f328a..7534da0 100644
--- a/solver/heyawake.py
+++ b/solver/heyawake.py
@@ -48,7 +48,7 @@ def limit_border(limit: int, ar: Iterable[Tuple[int, int]], puzzle: Puzzle, _typ
     rule, i = "", 0
     while i < n:
         segment, data = 0, []
-        while coord(i) in ar and i < n and puzzle.surface.get(Point(*coord(i))) != 2:
+        while coord(i) in ar and i < n and puzzle.surface.get(Point(*coord(i))) != Color.GREEN:
             r, c = coord(i)
             data.append(f"{color}({r}, {c})")
             segment += 1
-- 
2.43.0


From 7d7c8acaf45e5a7d035de2d3f5c39d42e94f39f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:44 +0000
Subject: [PATCH 10/19] fix: refuse a region with several clues instead of
 keeping one of them at random

---
 noqx/rule/helper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/noqx/rule/helper.py b/noqx/rule/helper.py
index 2f89f12..e5ffd2f 100644
--- a/noqx/rule/helper.py
+++ b/noqx/rule/helper.py
@@ -95,6 +95,7 @@ def full_bfs(
                     queue.append(neighbor)
 
             if clues and (r, c) in rc_set:
+                fail_false(clue_cell is None, f"Multiple clues in the region of ({r}, {c}).")
                 clue_cell = (r, c)
 
         return clue_cell, tuple(connected_component)
-- 
2.43.0


From daf0c1dc1a4a29eeaf7e86ffde6190e96971e447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:18 +0000
Subject: [PATCH 11/19] fix: haisu, nagare, gokigen and hashi ignored lines the
 user had drawn or crossed out

---
 solver/gokigen.py | 4 ++++
 solver/haisu.py   | 7 +++++++
 solver/hashi.py   | 3 +++
 solver/nagare.py  | 7 +++++++
 4 files changed, 21 insertions(+)

diff --git a/solver/gokigen.py b/solver/gokigen.py
index b7ac2c0..2e7ab9c 100644
--- a/solver/gokigen.py
+++ b/solver/gokigen.py
@@ -63,6 +63,10 @@ class GokigenSolver(Solver):
             if isinstance(num, int):
                 self.add_program_line(f":- #count{{ D: grid_direction({r}, {c}, D) }} != {num}.")
 
+        for (r, c, d, _), draw in puzzle.edge.items():
+            if d in (Direction.DIAG_UP, Direction.DIAG_DOWN):
+                self.add_program_line(f":-{' not' * draw} edge_{d.value}({r}, {c}).")
+
         self.add_program_line(display(item="edge_diag_down", size=2))
         self.add_program_line(display(item="edge_diag_up", size=2))
 
diff --git a/solver/haisu.py b/solver/haisu.py
index 383ac18..b2ca009 100644
--- a/solver/haisu.py
+++ b/solver/haisu.py
@@ -104,6 +104,13 @@ class HaisuSolver(Solver):
             if isinstance(clue, int):
                 self.add_program_line(f"number({r}, {c}, {clue - 1 if (r, c) in s_index else clue}).")  # special case
 
+        for (r, c, _, d), draw in puzzle.line.items():
+            if draw:
+                self.add_program_line(f':- not grid_in({r}, {c}, "{d}"), not grid_out({r}, {c}, "{d}").')
+            else:
+                self.add_program_line(f':- grid_in({r}, {c}, "{d}").')
+                self.add_program_line(f':- grid_out({r}, {c}, "{d}").')
+
         self.add_program_line(display(item="grid_in", size=3))
         self.add_program_line(display(item="grid_out", size=3))
 
diff --git a/solver/hashi.py b/solver/hashi.py
index 758717f..26ea383 100644
--- a/solver/hashi.py
+++ b/solver/hashi.py
@@ -83,6 +83,9 @@ class HashiSolver(Solver):
             if d.endswith("_1") and draw:
                 self.add_program_line(f':- not grid_direction({r}, {c}, "{d[0]}", 1).')
 
+            if not draw:
+                self.add_program_line(f':- grid_direction({r}, {c}, "{d[0]}", _).')
+
         self.add_program_line(display(item="grid_direction", size=4))
 
         return self.program
diff --git a/solver/nagare.py b/solver/nagare.py
index 7036f95..dad9bd4 100644
--- a/solver/nagare.py
+++ b/solver/nagare.py
@@ -87,6 +87,13 @@ class NagareSolver(Solver):
             fail_false(color in Color.DARK, f"Invalid color at ({r}, {c}).")
             self.add_program_line(f"not nagare({r}, {c}).")
 
+        for (r, c, _, d), draw in puzzle.line.items():
+            if draw:
+                self.add_program_line(f':- not grid_in({r}, {c}, "{d}"), not grid_out({r}, {c}, "{d}").')
+            else:
+                self.add_program_line(f':- grid_in({r}, {c}, "{d}").')
+                self.add_program_line(f':- grid_out({r}, {c}, "{d}").')
+
         self.add_program_line(display(item="grid_in", size=3))
         self.add_program_line(display(item="grid_out", size=3))
 
-- 
2.43.0


From a9fcd35691f78f628d82967e7b2e526730a2de0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:18 +0000
Subject: [PATCH 12/19] fix: diagonal edges were read at the wrong cell or not
 at all

---
 noqx/puzzle/penpa.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/noqx/puzzle/penpa.py b/noqx/puzzle/penpa.py
index 440583b..70b9b30 100644
--- a/noqx/puzzle/penpa.py
+++ b/noqx/puzzle/penpa.py
@@ -170,9 +170,11 @@ class PenpaPuzzle(Puzzle):
                 self.edge[Point(coord_2[0] + 1, coord_2[1], Direction.TOP)] = True
             elif coord_1[1] == coord_2[1]:  # col equal, vertical line
                 self.edge[Point(coord_2[0], coord_2[1] + 1, Direction.LEFT)] = True
-            elif coord_1[0] - coord_2[0] == 1 and coord_2[1] - coord_1[1] == 1:  # upwards diagonal line
-                self.edge[Point(coord_2[0], coord_2[1], Direction.DIAG_UP)] = True
-            elif coord_2[0] - coord_1[0] == 1 and coord_1[1] - coord_2[1] == 1:  # downwards diagonal line
+            elif coord_2[0] - coord_1[0] == 1 and coord_1[1] - coord_2[1] == 1:  # upwards diagonal line
+                self.edge[Point(coord_2[0], coord_1[1], Direction.DIAG_UP)] = True
+            elif coord_1[0] - coord_2[0] == 1 and coord_2[1] - coord_1[1] == 1:  # upwards diagonal line, other end first
+                self.edge[Point(coord_1[0], coord_2[1], Direction.DIAG_UP)] = True
+            elif coord_2[0] - coord_1[0] == 1 and coord_2[1] - coord_1[1] == 1:  # downwards diagonal line
                 self.edge[Point(coord_2[0], coord_2[1], Direction.DIAG_DOWN)] = True
 
     def _unpack_line(self):
@@ -275,8 +277,8 @@ class PenpaPuzzle(Puzzle):
             if point.d == Direction.LEFT:
                 coord_2 = (point.r, point.c - 1)
             if point.d == Direction.DIAG_UP:
-                coord_1 = (point.r, point.c - 1)
-                coord_2 = (point.r - 1, point.c)
+                coord_1 = (point.r - 1, point.c)
+                coord_2 = (point.r, point.c - 1)
             if point.d == Direction.DIAG_DOWN:
                 coord_2 = (point.r, point.c)
 
-- 
2.43.0


From 2bcc00f838aa5a4e11054c61715d8e51846fc587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:18 +0000
Subject: [PATCH 13/19] fix: an answer was listed several times when it left an
 auxiliary choice open (tents)

---
 noqx/clingo.py    | 1 +
 penpa-edit/app.js | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/noqx/clingo.py b/noqx/clingo.py
index 1ed75f5..e171edb 100644
--- a/noqx/clingo.py
+++ b/noqx/clingo.py
@@ -46,6 +46,7 @@ class ClingoSolver:
         self.clingo_instance.configuration.asp.eq = 1  # type: ignore
         self.clingo_instance.configuration.solve.parallel_mode = Config.parallel_threads  # type: ignore
         self.clingo_instance.configuration.solve.models = Config.max_solutions_to_find  # type: ignore
+        self.clingo_instance.configuration.solve.project = "show"  # type: ignore  # answers that look the same are one answer
         self.clingo_instance.add(program=program)
         self.clingo_instance.ground()
         with self.clingo_instance.solve(on_model=self.store_model, async_=True) as handle:  # type: ignore
diff --git a/penpa-edit/app.js b/penpa-edit/app.js
index eacf0e4..fef296f 100644
--- a/penpa-edit/app.js
+++ b/penpa-edit/app.js
@@ -286,7 +286,7 @@ $(window).on("load", function () {
             throw new Error(program.get("result"));
           }
 
-          const options = "--sat-prepro --trans-ext=dynamic --eq=1 --models=10";
+          const options = "--sat-prepro --trans-ext=dynamic --eq=1 --project=show --models=10";
           const result = await clingo.run(program.get("result"), options);
 
           if (result.Result === "ERROR") {
-- 
2.43.0


From 5d873a974f503a505b05834bfec583955ff1a777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:54 +0000
Subject: [PATCH 14/19] fix: unique_num constrained columns when asked for
 rows, and rows when asked for columns

---
 noqx/rule/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/noqx/rule/common.py b/noqx/rule/common.py
index 6f151dc..7216d9d 100644
--- a/noqx/rule/common.py
+++ b/noqx/rule/common.py
@@ -130,10 +130,10 @@ def unique_num(color: str = "black", _type: str = "row") -> str:
     A number rule should be defined first.
     """
     if _type == "row":
-        return f":- grid(_, C), number(_, _, N), {{ {color}(R, C) : number(R, C, N) }} > 1."
+        return f":- grid(R, _), number(_, _, N), {{ {color}(R, C) : number(R, C, N) }} > 1."
 
     if _type == "col":
-        return f":- grid(R, _), number(_, _, N), {{ {color}(R, C) : number(R, C, N) }} > 1."
+        return f":- grid(_, C), number(_, _, N), {{ {color}(R, C) : number(R, C, N) }} > 1."
 
     if _type == "area":
         return f":- area(A, _, _), number(_, _, N), {{ {color}(R, C) : area(A, R, C), number(R, C, N) }} > 1."
-- 
2.43.0


From 4395203b728f8468258005823bb0b3cd7a17b574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:54 +0000
Subject: [PATCH 15/19] fix: counting a given shape by area compared the shape
 number with the orientation number

---
 noqx/rule/shape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/noqx/rule/shape.py b/noqx/rule/shape.py
index f7feed2..f9d3331 100644
--- a/noqx/rule/shape.py
+++ b/noqx/rule/shape.py
@@ -210,7 +210,7 @@ def count_shape(
         rule = f":- {{ {tag}(R, C, {_id}, _) }} {rop} {num}."
 
     if _type == "area":
-        rule = f":- area(A, _, _), {{ {tag}(A, R, C, _, {_id}) }} {rop} {num}."
+        rule = f":- area(A, _, _), {{ {tag}(A, R, C, {_id}, _) }} {rop} {num}."
 
     return rule
 
-- 
2.43.0


From 76bcdd17a36c0c0ca49bb3b762b4360d86327780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:48 +0000
Subject: [PATCH 16/19] fix: rooms are searched in a fixed order, so that equal
 requests give equal programs

---
 noqx/rule/helper.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/noqx/rule/helper.py b/noqx/rule/helper.py
index e5ffd2f..51db80e 100644
--- a/noqx/rule/helper.py
+++ b/noqx/rule/helper.py
@@ -1,6 +1,5 @@
 """Helper functions for generation solvers and rules."""
 
-import random
 from collections import deque
 from typing import Dict, Iterable, Iterator, Optional, Tuple, Union
 
@@ -101,7 +100,7 @@ def full_bfs(
         return clue_cell, tuple(connected_component)
 
     while len(unexplored_cells) != 0:
-        start_cell = random.choice(tuple(unexplored_cells))  # get a random start cell
+        start_cell = min(unexplored_cells)  # the same board always gives the same rooms in the same order
         clue, room = single_bfs(start_cell)
         clue_to_room[room] = clue
 
-- 
2.43.0


From 8f7771ed58b92bc006c661d1d0ee570dcc688ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:06 +0000
Subject: [PATCH 17/19] fix: araf refuses a clue that is not a number by its
 place (the inner loop checked the outer clue)

---
 solver/araf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solver/araf.py b/solver/araf.py
index 30d025e..d17ee85 100644
--- a/solver/araf.py
+++ b/solver/araf.py
@@ -61,7 +61,7 @@ class ArafSolver(Solver):
             for (r1, c1, d1, tp1), num1 in puzzle.text.items():
                 validate_direction(r1, c1, d1)
                 validate_type(tp1, "normal")
-                fail_false(isinstance(num, int), f"Clue at ({r}, {c}) must be an integer.")
+                fail_false(isinstance(num1, int), f"Clue at ({r1}, {c1}) must be an integer.")
                 if abs(r - r1) + abs(c - c1) >= max(int(num), int(num1)):
                     exclude.append((r1, c1))
 
-- 
2.43.0


From 5824d45ddb1d8eaa5d7222084790109f2cd922b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:06 +0000
Subject: [PATCH 18/19] fix: an arrow clue with several underscores is refused
 with a reason instead of an unpacking error

---
 solver/castle.py     | 2 +-
 solver/tetrochain.py | 2 +-
 solver/yajikazu.py   | 2 +-
 solver/yajilin.py    | 2 +-
 solver/yajitatami.py | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/solver/castle.py b/solver/castle.py
index baab2e5..29cd795 100644
--- a/solver/castle.py
+++ b/solver/castle.py
@@ -68,7 +68,7 @@ class CastleSolver(Solver):
                 continue
 
             fail_false(isinstance(clue, str) and "_" in clue, "Please set all NUMBER to arrow sub and draw arrows.")
-            num, d = clue.split("_")
+            num, d = clue.split("_", 1)
             fail_false(num.isdigit() and d.isdigit(), f"Invalid arrow or number clue at ({r}, {c}).")
             self.add_program_line(wall_length(r, c, int(d), int(num)))
 
diff --git a/solver/tetrochain.py b/solver/tetrochain.py
index b3b0248..47f1025 100644
--- a/solver/tetrochain.py
+++ b/solver/tetrochain.py
@@ -53,7 +53,7 @@ class TetrochainSolver(Solver):
             self.add_program_line(f"not black({r}, {c}).")
 
             fail_false(isinstance(clue, str) and "_" in clue, "Please set all NUMBER to arrow sub and draw arrows.")
-            num, d = clue.split("_")
+            num, d = clue.split("_", 1)
             fail_false(num.isdigit() and d.isdigit(), f"Invalid arrow or number clue at ({r}, {c}).")
             self.add_program_line(yaji_count(int(num), (r, c), int(d), color="black"))
 
diff --git a/solver/yajikazu.py b/solver/yajikazu.py
index 51850f4..9ff7222 100644
--- a/solver/yajikazu.py
+++ b/solver/yajikazu.py
@@ -38,7 +38,7 @@ class YajiKazuSolver(Solver):
             validate_direction(r, c, d)
             validate_type(pos, "normal")
             fail_false(isinstance(clue, str) and "_" in clue, "Please set all NUMBER to arrow sub and draw arrows.")
-            num, d = clue.split("_")
+            num, d = clue.split("_", 1)
             fail_false(num.isdigit() and d.isdigit(), f"Invalid arrow or number clue at ({r}, {c}).")
             self.add_program_line(yaji_count(int(num), (r, c), int(d), color="gray", unshade_clue=False))
 
diff --git a/solver/yajilin.py b/solver/yajilin.py
index 52bfaca..63dca54 100644
--- a/solver/yajilin.py
+++ b/solver/yajilin.py
@@ -49,7 +49,7 @@ class YajilinSolver(Solver):
                 continue
 
             fail_false(isinstance(clue, str) and "_" in clue, "Please set all NUMBER to arrow sub and draw arrows.")
-            num, d = clue.split("_")
+            num, d = clue.split("_", 1)
             fail_false(num.isdigit() and d.isdigit(), f"Invalid arrow or number clue at ({r}, {c}).")
             self.add_program_line(yaji_count(int(num), (r, c), int(d), color="black"))
 
diff --git a/solver/yajitatami.py b/solver/yajitatami.py
index 575a2ff..a74bc72 100644
--- a/solver/yajitatami.py
+++ b/solver/yajitatami.py
@@ -72,7 +72,7 @@ class YajitatamiSolver(Solver):
             validate_type(pos, "normal")
             self.add_program_line(bulb_src_color_connected((r, c), color=None, adj_type="edge"))
             fail_false(isinstance(clue, str) and "_" in clue, "Please set all NUMBER to arrow sub and draw arrows.")
-            num, d = clue.split("_")
+            num, d = clue.split("_", 1)
             fail_false(num.isdigit() and d.isdigit(), f"Invalid arrow or number clue at ({r}, {c}).")
             self.add_program_line(count_reachable_src(int(num), (r, c), main_type="bulb", color=None, adj_type="edge"))
             self.add_program_line(yaji_region_count(int(num) + 1, (r, c), int(d)))
-- 
2.43.0


From 7bace4444d737497f6a72679d77cb8fbb7b65b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:46 +0000
Subject: [PATCH 19/19] fix: magnets honours the signs already drawn on the
 board

---
 solver/magnets.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/solver/magnets.py b/solver/magnets.py
index bc9cad0..6f4e527 100644
--- a/solver/magnets.py
+++ b/solver/magnets.py
@@ -57,6 +57,12 @@ class MagnetsSolver(Solver):
             if c == puzzle.col and 0 <= r < puzzle.row:
                 self.add_program_line(count(int(num), color="math_G__3", _type="row", _id=r))
 
+        for (r, c, d, _), symbol_name in puzzle.symbol.items():
+            if 0 <= r < puzzle.row and 0 <= c < puzzle.col:
+                validate_direction(r, c, d)
+                validate_type(symbol_name, ("math_G__2", "math_G__3"))
+                self.add_program_line(f"{symbol_name}({r}, {c}).")
+
         for (r, c, _, _), color in puzzle.surface.items():
             fail_false(color in Color.DARK, f"Invalid color at ({r}, {c}).")
             self.add_program_line(f"gray({r}, {c}).")
-- 
2.43.0

