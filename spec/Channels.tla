------------------------------ MODULE Channels ------------------------------
(***************************************************************************)
(* What becomes of the planes of an image (C13).                           *)
(***************************************************************************)
EXTENDS Integers, Sequences
Types == {"L8", "La8", "Rgb8", "Rgba8", "L16", "La16", "Rgb16", "Rgba16", "Rgb32F", "Rgba32F"}
\* samples of 16 bits become the nearest of 8; m is the largest sample
Narrow(v, m) == (2 * 255 * v + m) \div (2 * m)
HasColor(t) == t \in {"Rgb8", "Rgba8", "Rgb16", "Rgba16", "Rgb32F", "Rgba32F"}
HasAlpha(t) == t \in {"La8", "Rgba8", "La16", "Rgba16", "Rgba32F"}
Marked(t) == IF HasColor(t) THEN 3 ELSE 1
Planes(t) == Marked(t) + (IF HasAlpha(t) THEN 1 ELSE 0)
OutType(t) == IF HasColor(t) THEN (IF HasAlpha(t) THEN "Rgba8" ELSE "Rgb8") ELSE (IF HasAlpha(t) THEN "La8" ELSE "L8")
\* planes of the watermarked image; W gives the watermarked form of a plane
OutPlanes(t, in, W(_)) == [ i \in 1..Planes(t) |-> IF i <= Marked(t) THEN W(in[i]) ELSE in[i] ]
=============================================================================
