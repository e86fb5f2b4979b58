---------------------------- MODULE DecompositionMC ----------------------------
(* The decomposition used by the code, as a model: the number of processes is    *)
(* split into prime factors, each of which is given to some dimension; along a   *)
(* dimension with n cells and p processes the cuts are at int((n-2)*c/p).        *)
EXTENDS Box
CONSTANTS MaxN, MaxP, MaxDelta
VARIABLES todo, grid, n, delta, lo      \* todo: what is left to factor; grid: processes per dimension
mvars == <<todo, grid, n, delta, lo>>

Cut(c, p) == ((n - 2) * c) \div p
TileLo(c, p) == IF c = 0 THEN lo ELSE lo + Cut(c, p) + 1
TileHi(c, p) == IF c = p - 1 THEN lo + n - 1 ELSE lo + Cut(c + 1, p)

MInit == /\ todo \in 1..MaxP /\ grid = <<1, 1>>
         /\ n \in 3..MaxN /\ delta \in 0..MaxDelta /\ lo \in {-3, 0, 2}
Primes == {x \in 2..MaxP : \A y \in 2..(x - 1) : x % y # 0}
MNext == \E f \in Primes : \E d \in 1..2 :
            /\ todo % f = 0
            /\ todo' = todo \div f /\ grid' = [grid EXCEPT ![d] = @ * f]
            /\ UNCHANGED <<n, delta, lo>>
MSpec == MInit /\ [][MNext]_mvars

GridProduct == Product(grid) <= MaxP
CutsTile ==
  LET p == grid[1] IN
  (n - 2 >= p * Max2(delta, 1)) =>
     /\ \A c \in 0..(p - 1) : TileLo(c, p) <= TileHi(c, p)
     /\ TileLo(0, p) = lo /\ TileHi(p - 1, p) = lo + n - 1
     /\ \A c \in 0..(p - 2) : TileLo(c + 1, p) = TileHi(c, p) + 1
     /\ \A c \in 0..(p - 1) : TileHi(c, p) - TileLo(c, p) + 1 >= delta
     /\ \A c, e \in 0..(p - 1) : (TileHi(c, p) - TileLo(c, p)) - (TileHi(e, p) - TileLo(e, p)) <= 2
================================================================================
