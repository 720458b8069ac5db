------------------------------- MODULE Raster -------------------------------
(***************************************************************************)
(* Pictures: which value is shown where.                                   *)
(*                                                                         *)
(* A raster is a list of entries 0, 1, 2, ... of an nx by ny image, the    *)
(* first (east) direction fastest.  The list of an interferogram starts at *)
(* its north-west corner and runs south ("down"), the list of a simulation *)
(* grid at its origin and runs along its second side vector ("up").  A     *)
(* picture is a function from pixels <<east, north>> (counted from the     *)
(* south-west, or from the origin) to entries; entries without data are    *)
(* left blank, and a mask shows exactly those.                             *)
(*                                                                         *)
(* A filled contour picture shows, at every node of its lattice, the band  *)
(* between two levels that contains the value there; the levels divide the *)
(* range from vmin to vmax evenly (or evenly in the logarithm).  Each end  *)
(* of the range comes from clim, from the options, or from the data; two   *)
(* sources that disagree are refused.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, ConformRules

\* ---- rasters --------------------------------------------------------------
Pixels(nx, ny) == (0..(nx - 1)) \X (0..(ny - 1))
PixelOf(nx, ny, dir, k) == << k % nx, IF dir = "down" THEN ny - 1 - (k \div nx) ELSE k \div nx >>
EntryAt(nx, ny, dir, p) == p[1] + nx * (IF dir = "down" THEN ny - 1 - p[2] ELSE p[2])
\* the same by the operations on arrays: column-major matrix of the list, transposed, upside down
Reshape(nx, ny) == [i \in 0..(nx - 1) |-> [j \in 0..(ny - 1) |-> i + nx * j]]
Transp(m, nx, ny) == [j \in 0..(ny - 1) |-> [i \in 0..(nx - 1) |-> m[i][j]]]
FlipUD(m, ny) == [j \in 0..(ny - 1) |-> m[ny - 1 - j]]
AsDrawn(nx, ny, dir) == LET t == Transp(Reshape(nx, ny), nx, ny) IN IF dir = "down" THEN FlipUD(t, ny) ELSE t

\* ---- ends of the colour range ------------------------------------------------
Given == {"none", "same", "other"}            \* an option vmin or vmax: absent, equal to that of clim, something else
Resolve(clim, opt) == IF clim THEN (IF opt = "other" THEN "refused" ELSE "clim") ELSE IF opt = "none" THEN "data" ELSE "opts"
Range(clim, lo, hi) == LET a == Resolve(clim, lo) b == Resolve(clim, hi) IN IF "refused" \in {a, b} THEN <<"refused", "refused">> ELSE <<a, b>>
Band(p, n) == IF p < 0 \/ p >= 10000 THEN -1 ELSE (p * n) \div 10000

\* ---- plan ----------------------------------------------------------------------
Shapes == <<"wide", "tall", "square", "row", "column", "large">>
Holes == <<"none", "some", "most">>
PixelKinds == <<"square", "oblong">>
Bools == {TRUE, FALSE}
Interf == [what : {"interferogram"}, wrap : Bools, holes : Elems(Holes), shape : Elems(Shapes), pixel : Elems(PixelKinds)]
Masks == [what : {"mask"}, holes : Elems(Holes), shape : Elems(Shapes), pixel : Elems(PixelKinds)]
Displ == [what : {"displacement"}, eq : {"none", "wrapped", "plain"}, shape : Elems(Shapes), sides : {"positive", "negative"}]
Kinds == <<"scalar", "vector">>
Methods == <<"linear", "nearest">>
Scales == <<"linear", "log">>
MaskKinds == <<"none", "some">>
Extras == <<"plain", "level", "shade", "dataloc", "figure">>
Lims == << <<TRUE, "none", "none">>, <<TRUE, "same", "same">>, <<TRUE, "other", "none">>, <<TRUE, "same", "other">>, <<TRUE, "none", "same">>,
           <<FALSE, "none", "none">>, <<FALSE, "other", "none">>, <<FALSE, "none", "other">>, <<FALSE, "other", "other">> >>
ContourAll == [what : {"contour"}, kind : Elems(Kinds), method : Elems(Methods), scale : Elems(Scales), mask : Elems(MaskKinds), extra : Elems(Extras), lims : Elems(Lims)]
\* one in three of the product: every pair of choices still occurs (checked by the model)
Contours == {c \in ContourAll : (Pos(Kinds, c.kind) + Pos(Methods, c.method) + 2 * Pos(Scales, c.scale) + Pos(MaskKinds, c.mask) + Pos(Extras, c.extra) + Pos(Lims, c.lims)) % 3 = 0}
RasConfigs == Interf \cup Masks \cup Displ \cup Contours
RasRule(c, q) == Rule(90, 0, "exact")
RasPlan == PlanOf(RasConfigs \X {"picture"}, RasRule)

Dir(c) == IF c.what = "displacement" THEN "up" ELSE "down"
Hit(h, k) == \E n \in DOMAIN h : h[n] = k
Blank(h) == h = <<-1>>
\* e.nx, e.ny, e.holes: entries without data, e.cells: sequence of <<east, north, entries shown (-1: nothing)>>
RasterClause(e) ==
  LET n == e.nx * e.ny
      want(k) == LET w == Hit(e.holes, k) IN IF e.cfg.what = "mask" THEN w ELSE ~ w
      cells == {<<e.cells[k][1], e.cells[k][2]>> : k \in DOMAIN e.cells}
  IN IF Len(e.cells) # n \/ cells # Pixels(e.nx, e.ny) THEN "pixels of the picture"
     ELSE IF \E k \in DOMAIN e.cells : LET i == EntryAt(e.nx, e.ny, Dir(e.cfg), <<e.cells[k][1], e.cells[k][2]>>) IN
               ~ (IF want(i) THEN Hit(e.cells[k][3], i) ELSE Blank(e.cells[k][3])) THEN "a pixel shows the value of another place"
     ELSE IF ~ e.clim THEN "range of colours"
     ELSE IF ~ e.labels THEN "title or axes"
     ELSE IF ~ e.intact THEN "drawing changed the data"
     ELSE ""
\* e.low, e.high: sources that the ends of the range agree with; e.n bands; e.nodes: <<position in the range (1/10000), is it blank, bands shown>>
ContourClause(e) ==
  LET r == Range(e.cfg.lims[1], e.cfg.lims[2], e.cfg.lims[3]) IN
  IF r[1] = "refused" THEN (IF e.out = "ok" THEN "contradicting limits accepted" ELSE "")
  ELSE IF e.out # "ok" THEN "drawing failed"
  ELSE IF ~ Hit(e.low, r[1]) \/ ~ Hit(e.high, r[2]) THEN "range of colours"
  ELSE IF e.d < RasRule(e.cfg, e.qty).req THEN "levels"
  ELSE IF Len(e.nodes) = 0 THEN "nothing compared"
  ELSE IF \E k \in DOMAIN e.nodes : LET b == Band(e.nodes[k][1], e.n) IN
            e.nodes[k][3] # (IF e.nodes[k][2] \/ b = -1 THEN <<>> ELSE <<b>>) THEN "a place shows a band that does not contain its value"
  ELSE IF ~ e.labels THEN "what is returned or added to the axes"
  ELSE ""
RasClause(e) == IF e.cfg.what = "contour" THEN ContourClause(e) ELSE IF e.out # "ok" THEN "drawing failed" ELSE RasterClause(e)
===========================================================================
