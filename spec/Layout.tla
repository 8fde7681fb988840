------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* How a matrix lies in memory: element (i, j) of a view is the cell        *)
(* base + i * rs + j * cs of a buffer of `size` cells.  A buffer starts out *)
(* filled row by row; every further step looks at it in another way:        *)
(*   t        rows become columns                                           *)
(*   i0, i1   rows (columns) in the opposite order                          *)
(*   p0, p1   without the first and the last row (column)                   *)
(*   e0, e1   every other row (column), from the second on                  *)
(* The matrix is what the elements are, whatever cells they lie in: two     *)
(* views with equal elements are the same matrix.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences
Steps == {"t", "i0", "i1", "p0", "p1", "e0", "e1"}
Plain(r, c) == [ rows |-> r, cols |-> c, base |-> 0, rs |-> c, cs |-> 1, size |-> r * c ]
Possible(v, s) == CASE s = "p0" -> v.rows >= 3
                    [] s = "p1" -> v.cols >= 3
                    [] s = "e0" -> v.rows >= 2
                    [] s = "e1" -> v.cols >= 2
                    [] OTHER -> TRUE
Look(v, s) ==
  CASE s = "t" -> [ v EXCEPT !.rows = v.cols, !.cols = v.rows, !.rs = v.cs, !.cs = v.rs ]
    [] s = "i0" -> [ v EXCEPT !.base = @ + (v.rows - 1) * v.rs, !.rs = -@ ]
    [] s = "i1" -> [ v EXCEPT !.base = @ + (v.cols - 1) * v.cs, !.cs = -@ ]
    [] s = "p0" -> [ v EXCEPT !.base = @ + v.rs, !.rows = @ - 2 ]
    [] s = "p1" -> [ v EXCEPT !.base = @ + v.cs, !.cols = @ - 2 ]
    [] s = "e0" -> [ v EXCEPT !.base = @ + v.rs, !.rs = 2 * @, !.rows = @ \div 2 ]
    [] s = "e1" -> [ v EXCEPT !.base = @ + v.cs, !.cs = 2 * @, !.cols = @ \div 2 ]
Cell(v, i, j) == v.base + i * v.rs + j * v.cs
\* the buffer that is needed for a matrix of r rows and c columns after these steps
RECURSIVE Buffer(_, _, _)
Buffer(steps, r, c) ==
  IF steps = << >> THEN Plain(r, c)
  ELSE LET front == SubSeq(steps, 1, Len(steps) - 1)
           s == steps[Len(steps)]
       IN CASE s = "t" -> Buffer(front, c, r)
            [] s = "p0" -> Buffer(front, r + 2, c)
            [] s = "p1" -> Buffer(front, r, c + 2)
            [] s = "e0" -> Buffer(front, 2 * r, c)
            [] s = "e1" -> Buffer(front, r, 2 * c)
            [] OTHER -> Buffer(front, r, c)
RECURSIVE LookAll(_, _)
LookAll(v, steps) == IF steps = << >> THEN v ELSE LookAll(Look(v, Head(steps)), Tail(steps))
View(steps, r, c) == LookAll(Buffer(steps, r, c), steps)
=============================================================================
