------------------------------- MODULE FileIO -------------------------------
(* Files and the readers and writers over them.  A file holds elements (and, *)
(* when its size is no multiple of the element size, a rest).  A reader has a*)
(* position; what it returns is always the content from there on, and a      *)
(* request that the file cannot satisfy is refused.                          *)
EXTENDS Integers, Sequences

\* content from position p (0-based), m elements
Slice(s, p, m) == SubSeq(s, p + 1, p + m)
Fits(f, p, m) == p + m <= Len(f)
\* where rows start, start + 1, ... of ncol elements lie
RowPos(start, ncol) == start * ncol

\* bin_io: rows of ncol elements or the whole nrow x ncol matrix from the position
LineLen(h) == h.ncol
AllLen(h) == h.nrow * h.ncol
\* it says there is more until the whole matrix has been passed
MoreToRead(h) == h.pos # h.nrow * h.ncol

\* text: a file is a sequence of lines, a line a sequence of values
RECURSIVE Flat(_)
Flat(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls) \o Flat(Tail(ls))
\* buffer b after the values v were put at its start
Filled(b, v) == [i \in 1..Len(b) |-> IF i <= Len(v) THEN v[i] ELSE b[i]]

\* one cluster: the rows with the label, in order, row by row
RECURSIVE RowsOf(_, _, _, _)
RowsOf(data, lab, id, d) ==
  IF lab = <<>> THEN <<>>
  ELSE (IF Head(lab) = id THEN SubSeq(data, 1, d) ELSE <<>>)
       \o RowsOf(SubSeq(data, d + 1, Len(data)), Tail(lab), id, d)
=============================================================================
