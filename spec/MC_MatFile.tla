---------------------------- MODULE MC_MatFile ----------------------------
(* Models of all small shapes are saved and loaded, also repeatedly and under *)
(* other names of the satellites.                                             *)
EXTENDS MatFile, FiniteSets, IOUtils
Big == IOEnv.MAT_BIG = "1"
VARIABLES shape, mem, disk, names, ops
vars == <<shape, mem, disk, names, ops>>
R(n) == 0..n
Shapes == [P : 1..2, o : 1..(IF Big THEN 3 ELSE 2), d : 1..2, ns : {0, 2}, q10 : {0, 1, 2}, q11 : {1, 2},
           sats : 0..3, bins : 0..2, cal : 0..2, pre : BOOLEAN]
\* distinct numbers everywhere
Vals(base, n) == [i \in 1..n |-> base + i]
Mat(base, r, c) == [p \in 1..r |-> [j \in 1..c |-> base + 10*p + j]]
SatNames == <<"a", "b", "c">>
Brk(s, bins) == IF bins = 0 THEN <<1000*s, 1000*s>> ELSE Vals(1000*s, bins + 1)
Build(x) ==
    [pp |-> [br |-> Vals(0, x.P + 1), c |-> [k \in 1..x.o |-> Mat(100*k, x.P, x.d)]],
     stat |-> Vals(2000, x.ns),
     ext |-> IF x.q10 = 0 THEN <<>> ELSE
             << [sm |-> Vals(3000, 8), gsm |-> [j \in 1..8 |-> IF j \in {1, 4} THEN 3100 + j ELSE 0],
                 b10 |-> Vals(3200, x.q10 + 1), q10 |-> Vals(3300, x.q10), b11 |-> Vals(3400, x.q11 + 1),
                 q11 |-> Vals(3500, x.q11), s11 |-> Vals(3600, x.q11)] >>,
     eul |-> IF x.sats = 0 THEN <<>> ELSE
             << [sat |-> SubSeq(SatNames, 1, x.sats), br |-> [s \in 1..x.sats |-> Brk(s, (x.bins + s) % 3)],
                 c |-> [s \in 1..x.sats |-> LET b == (x.bins + s) % 3 IN Mat(5000 + 100*s, IF b = 0 THEN 1 ELSE b, 3)]] >>,
     cal |-> IF x.cal = 0 THEN <<>> ELSE << [br |-> Vals(6000, x.cal + 1), c |-> Mat(6100, x.cal, 9)] >>,
     pre |-> IF x.pre /\ x.sats > 0 THEN << Mat(7000, x.sats, 3) >> ELSE <<>>]
Gen(s) == <<"satellite_1", "satellite_2", "satellite_3">>[s]
Init == /\ shape \in {x \in Shapes : (x.sats = 0 => x.bins = 0) /\ (x.q10 = 0 => x.q11 = 1) /\ (x.sats = 0 => ~x.pre)
                      /\ (Big \/ (x.d = 2 /\ x.cal # 2))}
        /\ mem = Build(shape) /\ disk = <<>> /\ names = SatNames /\ ops = 0
Save == disk' = <<ToMat(mem)>> /\ UNCHANGED <<mem, names>>
Load(nm) == disk # <<>> /\ mem' = FromMat(disk[1], nm, Gen, 0) /\ names' = nm /\ UNCHANGED disk
Next == ops < 4 /\ ops' = ops + 1 /\ UNCHANGED shape
        /\ (Save \/ \E nm \in {SatNames, <<"a">>, <<>>, <<"c", "b", "a", "x">>} : Load(nm))
\* renaming does not touch anything else
Renamed(M, nm) == [M EXCEPT !.eul = [i \in 1..Len(@) |->
                     [@[i] EXCEPT !.sat = Names(nm, Len(@), Gen)]]]
SameInv == mem = Renamed(Build(shape), names)
DiskInv == disk # <<>> => disk[1] = ToMat(Build(shape))
NameInv == shape.sats > 0 => Cardinality({mem.eul[1].sat[s] : s \in 1..shape.sats}) = shape.sats
=============================================================================
