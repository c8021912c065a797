------------------------------ MODULE MCFileIO ------------------------------
(* A matrix is written in pieces and read back through every mixture of line *)
(* reads, whole reads and seeks.  Property: what has been read is what was   *)
(* written there, nothing is skipped or repeated, and a reader that says     *)
(* there is nothing more has passed the whole matrix.                        *)
EXTENDS FileIO, TLC
CONSTANTS R, C, Bug
VARIABLES file,   \* elements on disk; element number i has the value i
          left,   \* elements still to be written
          open,   \* "write", "read"
          pos, got,   \* position and everything returned since the position was last set
          base,   \* position last set
          dead    \* a request was refused
vars == <<file, left, open, pos, got, base, dead>>
Init == file = <<>> /\ left = R * C /\ open = "write" /\ pos = 0 /\ got = <<>> /\ base = 0 /\ dead = FALSE
H == [pos |-> pos, nrow |-> R, ncol |-> C]
Write == /\ open = "write" /\ left > 0
         /\ \E m \in 1..left :
              /\ file' = file \o [i \in 1..m |-> Len(file) + i]
              /\ left' = left - m
         /\ UNCHANGED <<open, pos, got, base, dead>>
\* the writer may stop early: a file that is too short
Reopen == open = "write" /\ open' = "read" /\ UNCHANGED <<file, left, pos, got, base, dead>>
Take(m) == IF Fits(file, pos, m)
           THEN /\ got' = got \o Slice(file, IF Bug = "repeat" /\ pos > 0 THEN pos - 1 ELSE pos, m)
                /\ pos' = pos + (IF Bug = "skip" THEN m + 1 ELSE m)
                /\ UNCHANGED <<file, left, open, base, dead>>
           ELSE /\ (IF Bug = "short" THEN got' = got \o Slice(file, pos, Len(file) - pos) /\ dead' = FALSE
                    ELSE got' = got /\ dead' = TRUE)
                /\ pos' = IF Bug = "short" THEN pos + m ELSE pos
                /\ UNCHANGED <<file, left, open, base>>
Line == open = "read" /\ ~dead /\ Take(LineLen(H))
All == open = "read" /\ ~dead /\ Take(AllLen(H))
Seek == open = "read" /\ ~dead /\ \E p \in 0..(R * C) : pos' = p /\ base' = p /\ got' = <<>>
        /\ UNCHANGED <<file, left, open, dead>>
Next == Write \/ Reopen \/ Line \/ All \/ Seek
Spec == Init /\ [][Next]_vars
Bound == pos <= R * C + C + 1
\* values returned are the ones at the positions passed
ReadBack == \A i \in 1..Len(got) : got[i] = base + i
NothingLost == open = "read" /\ ~dead => pos = base + Len(got)
ShortRefused == \A i \in 1..Len(got) : got[i] <= Len(file)
DoneIsWhole == (open = "read" /\ ~dead /\ base = 0 /\ Len(got) > 0 /\ ~MoreToRead(H)) => got = [i \in 1..(R * C) |-> i]
=============================================================================
