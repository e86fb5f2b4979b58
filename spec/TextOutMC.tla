------------------------------ MODULE TextOutMC -----------------------------
(* What a reader of the text can rely on.                                     *)
EXTENDS TextOut
CONSTANTS MaxRank, MaxExt
VARIABLES lo, hi
MInit == /\ \E r \in 1..MaxRank : \E e \in [1..r -> 1..MaxExt] : lo = [d \in 1..r |-> 0 - d] /\ hi = [d \in 1..r |-> e[d] - 1 - d]
         /\ TInit0
Cells == [k \in 1..CellCount(lo, hi) |-> 10 * k - 35]
MNext == text[1] = "" /\ Put(1, GridText(Cells, lo, hi)) /\ UNCHANGED <<lo, hi>>
Spec == MInit /\ [][MNext]_<<text, lo, hi>>
T == text[1]
Ch(i) == SubSeq(T, i, i)
Break(i) == i = 0 \/ i > Len(T) \/ Ch(i) = " " \/ Ch(i) = "\n"
Starts == {i \in 1..Len(T) : ~Break(i) /\ Break(i - 1)}
RECURSIVE EndOf(_)
EndOf(i) == IF Break(i + 1) THEN i ELSE EndOf(i + 1)
RECURSIVE Words(_)
Words(i) == IF i > Len(T) THEN <<>> ELSE IF i \in Starts THEN <<SubSeq(T, i, EndOf(i))>> \o Words(EndOf(i) + 1) ELSE Words(i + 1)
Newlines == Cardinality({i \in 1..Len(T) : Ch(i) = "\n"})
\* every cell is written once, neighbours along the first index next to each other
AllCells == T # "" => Words(1) = [k \in 1..CellCount(lo, hi) |-> ToString(CellAt(Cells, lo, hi, FPoint(k - 1, lo, hi)))]
Layout == T # "" => LET n == CellCount(lo, hi) e == Extent(lo, hi) r == Len(lo) IN
  Newlines = (IF r = 1 THEN 0 ELSE n \div e[1]) + (IF r < 3 THEN 0 ELSE n \div (e[1] * e[2]))
=============================================================================
