------------------------------ MODULE MC_Raster ------------------------------
(* Entries are drawn one after the other, in any order, onto the pixels.       *)
EXTENDS Raster, TLC, Json, IOUtils
VARIABLES nx, ny, dir, drawn, pic
vars == <<nx, ny, dir, drawn, pic>>
Most == 12
Init == /\ nx \in 1..4 /\ ny \in 1..4 /\ nx * ny <= Most /\ dir \in {"up", "down"}
        /\ drawn = {} /\ pic = [p \in Pixels(nx, ny) |-> -1]
Draw == \E k \in (0..(nx * ny - 1)) \ drawn :
          /\ pic[PixelOf(nx, ny, dir, k)] = -1                  \* no pixel is used twice
          /\ pic' = [pic EXCEPT ![PixelOf(nx, ny, dir, k)] = k]
          /\ drawn' = drawn \cup {k}
          /\ UNCHANGED <<nx, ny, dir>>
Spec == Init /\ [][Draw]_vars
Placed == \A k \in drawn : PixelOf(nx, ny, dir, k) \in Pixels(nx, ny) /\ pic[PixelOf(nx, ny, dir, k)] = k
Inverse == \A p \in Pixels(nx, ny) : PixelOf(nx, ny, dir, EntryAt(nx, ny, dir, p)) = p /\ (pic[p] # -1 => pic[p] = EntryAt(nx, ny, dir, p))
Complete == ~ ENABLED Draw => /\ drawn = 0..(nx * ny - 1) /\ \A p \in Pixels(nx, ny) : pic[p] = AsDrawn(nx, ny, dir)[p[2]][p[1]]
NorthFirst == dir = "down" => \A j, k \in drawn : j < k => PixelOf(nx, ny, dir, j)[2] >= PixelOf(nx, ny, dir, k)[2]
\* controls: the other orientation, and a matrix that was not transposed, are noticed
ASSUME \E k \in 0..5 : PixelOf(3, 2, "down", k) # PixelOf(3, 2, "up", k)
ASSUME AsDrawn(2, 2, "up") # Reshape(2, 2)
\* every range has ends from known sources; bands cover it without overlap
ASSUME \A c \in Bools, lo, hi \in Given : Range(c, lo, hi) \in ({"clim", "opts", "data"} \X {"clim", "opts", "data"}) \cup {<<"refused", "refused">>}
ASSUME \A n \in 1..12 : {Band(p, n) : p \in 0..9999} = 0..(n - 1)
ASSUME \A n \in 1..12, p \in 0..9998 : Band(p + 1, n) - Band(p, n) \in {0, 1}
\* the thinned plan keeps every pair of choices
Fields == {"kind", "method", "scale", "mask", "extra", "lims"}
ASSUME \A f, g \in Fields : {<<c[f], c[g]>> : c \in Contours} = {<<c[f], c[g]>> : c \in ContourAll}
Done == TLCGet("distinct") > 0 /\ JsonSerialize(IOEnv.SPEC_OUT, [plan |-> RasPlan])
===========================================================================
