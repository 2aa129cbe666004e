------------------------------- MODULE Address ------------------------------
(***************************************************************************)
(* Addressing cells of an array of variables by name and range (hydro.py). *)
(* Cases are enumerated by TLC and printed with the indices they address,  *)
(* for replay in the code.  Indices count from zero, as in the code.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Family   \* which cases to enumerate

Passives == << <<>>, <<"dye">>, <<"Temp">>, <<"Z", "a1">>, <<"a1", "Z">>, <<"q", "dye", "Temp">>, <<"dye", "Temp", "q">> >>
Slot(n) == CASE n = "rho" -> 0 [] n \in {"vx", "mx"} -> 1 [] n \in {"vy", "my"} -> 2
             [] n \in {"vz", "mz"} -> 3 [] n \in {"P", "E"} -> 4 [] OTHER -> -1
Actives == {"rho", "vx", "vy", "vz", "P", "mx", "my", "mz", "E"}
Groups == {"v", "m", "active_scalars", "passive_scalars"}
Count(S, F(_)) == Cardinality({x \in S : F(x)})
PassiveSlot(ps, n) == IF \E i \in 1 .. Len(ps) : ps[i] = n THEN 4 + CHOOSE i \in 1 .. Len(ps) : ps[i] = n ELSE -1
Where(ps, n) == IF Slot(n) >= 0 THEN Slot(n) ELSE PassiveSlot(ps, n)   \* -1: unknown
Run(a, b) == [i \in 1 .. (b - a + 1) |-> a + i - 1]

\* what a name stands for: drop tells that the axis of variables disappears
Refuse == [ok |-> FALSE, drop |-> FALSE, idx |-> <<>>]
Named(ps, var) ==
  CASE var = "none" -> [ok |-> TRUE, drop |-> FALSE, idx |-> Run(0, 4 + Len(ps))]
    [] var \in {"v", "m"} -> [ok |-> TRUE, drop |-> FALSE, idx |-> <<1, 2, 3>>]
    [] var = "active_scalars" -> [ok |-> TRUE, drop |-> FALSE, idx |-> Run(0, 4)]
    [] var = "passive_scalars" -> IF ps = <<>> THEN Refuse ELSE [ok |-> TRUE, drop |-> FALSE, idx |-> Run(5, 4 + Len(ps))]
    [] OTHER -> IF Where(ps, var) < 0 THEN Refuse ELSE [ok |-> TRUE, drop |-> TRUE, idx |-> <<Where(ps, var)>>]
Several(ps, vs) ==
  IF \E i \in 1 .. Len(vs) : Where(ps, vs[i]) < 0 THEN Refuse
  ELSE [ok |-> TRUE, drop |-> FALSE, idx |-> [i \in 1 .. Len(vs) |-> Where(ps, vs[i])]]

(***************************************************************************)
(* A range <<lo, hi>> of an axis of n cells: counted from the end if       *)
(* negative; zero means the respective end of the axis.                    *)
(***************************************************************************)
Clip(x, n) == IF x < 0 THEN 0 ELSE IF x > n THEN n ELSE x
Lower(lo, n) == IF lo < 0 THEN Clip(n + lo, n) ELSE Clip(lo, n)
Upper(hi, n) == IF hi = 0 THEN n ELSE IF hi < 0 THEN Clip(n + hi, n) ELSE Clip(hi, n)
Whole == <<0, 0>>
Cells(rg, step, n) ==
  LET lo == Lower(rg[1], n)  hi == Upper(rg[2], n)
  IN SelectSeq(Run(0, n - 1), LAMBDA i : lo <= i /\ i < hi /\ (i - lo) % step = 0)

(***************************************************************************)
(* A case: passive names, variable(s), ranges of x, y, z ("n" if not       *)
(* given), or an axis with a range and a step; array dimension and extents *)
(***************************************************************************)
NoRange == [given |-> FALSE, rg |-> Whole]
Given(rg) == [given |-> TRUE, rg |-> rg]
Expected(c) ==
  LET nm == IF c.vars # <<>> THEN Several(c.ps, c.vars) ELSE Named(c.ps, c.var)
      bad == \E a \in 1 .. 3 : c.xyz[a].given /\ a >= c.ndim
      badaxis == c.axis # -1 /\ c.cut.given /\ c.axis >= c.ndim
      along(a) == IF c.axis = a /\ c.cut.given THEN Cells(c.cut.rg, c.step, c.n[a])
                  ELSE IF c.xyz[a].given THEN Cells(c.xyz[a].rg, 1, c.n[a]) ELSE Run(0, c.n[a] - 1)
      vidx == IF c.axis = 0 /\ c.cut.given THEN Cells(c.cut.rg, c.step, 5 + Len(c.ps)) ELSE nm.idx
  IN IF ~nm.ok \/ bad \/ badaxis THEN [ok |-> FALSE, drop |-> FALSE, idx |-> <<>>]
     ELSE [ok |-> TRUE, drop |-> nm.drop, idx |-> <<vidx>> \o [a \in 1 .. (c.ndim - 1) |-> along(a)]]

Base == [ps |-> <<>>, var |-> "none", vars |-> <<>>, xyz |-> <<NoRange, NoRange, NoRange>>, axis |-> -1,
         cut |-> NoRange, step |-> 1, ndim |-> 4, n |-> <<3, 4, 2>>]
AllNames == Actives \cup Groups \cup {"dye", "Z", "a1", "q", "Temp", "nonsense", "", "rho ", "Rho", "p"}
Single == Actives \cup {"dye", "Z", "a1", "q", "Temp", "nonsense"}
Ends == -4 .. 4
Few == {NoRange, Given(<<0, 0>>), Given(<<1, -1>>), Given(<<0, 2>>), Given(<<-2, 0>>), Given(<<1, 0>>), Given(<<0, -1>>)}
Some == {NoRange, Given(<<0, 0>>), Given(<<1, -1>>), Given(<<-3, 0>>)}
PS == {Passives[i] : i \in 1 .. Len(Passives)}

VARIABLE c
Init ==
  CASE Family = "names" ->
         \E p \in PS, v \in AllNames \cup {"none"}, d \in 1 .. 4 : c = [Base EXCEPT !.ps = p, !.var = v, !.ndim = d]
    [] Family = "tuples" ->
         \E p \in PS, a, b \in Single : \E e \in {<<a>>, <<a, b>>, <<b, a, b>>, <<"P", a, "rho", b>>}, d \in {2, 4} :
            c = [Base EXCEPT !.ps = p, !.vars = e, !.ndim = d]
    [] Family = "ranges" ->
         \E a \in 1 .. 3, lo, hi \in Ends, v \in {"none", "vx", "m"}, d \in 2 .. 4, n \in {1, 3, 4} :
            c = [Base EXCEPT !.xyz[a] = Given(<<lo, hi>>), !.var = v, !.ndim = d, !.n[a] = n]
    [] Family = "axes" ->
         \E a \in 1 .. 4, lo, hi \in Ends, s \in 1 .. 3, v \in {"none", "E", "v"}, d \in 1 .. 4, n \in {2, 4} :
            c = [Base EXCEPT !.axis = a, !.cut = Given(<<lo, hi>>), !.step = s, !.var = v, !.ndim = d,
                             !.n = [@ EXCEPT ![IF a = 4 THEN 1 ELSE a] = n]]
    [] Family = "variables" ->
         \E lo, hi \in Ends, s \in 1 .. 2, p \in PS, d \in 1 .. 4, h \in BOOLEAN :
            c = [Base EXCEPT !.axis = 0, !.cut = IF h THEN Given(<<lo, hi>>) ELSE NoRange, !.step = s, !.ps = p, !.ndim = d]
    [] Family = "boxes" ->
         \E x, y, z \in Few, v \in {"none", "rho", "v", "passive_scalars"}, p \in {<<>>, <<"q", "dye", "Temp">>} :
            c = [Base EXCEPT !.xyz = <<x, y, z>>, !.var = v, !.ps = p]
    [] Family = "mixed" ->
         \E a \in 1 .. 3, r, x, y, z \in Some, s \in 1 .. 3, v \in {"none", "E", "v"} :
            c = [Base EXCEPT !.axis = a, !.cut = r, !.step = s, !.var = v, !.xyz = <<x, y, z>>, !.n = <<5, 4, 6>>]
Next == FALSE /\ UNCHANGED c

\* the ranges a user would write down first
Sane == LET x == Expected(c) IN
   /\ x.ok => Len(x.idx) = c.ndim
   /\ \A a \in 1 .. Len(x.idx) : \A q \in 1 .. Len(x.idx[a]) :
        x.idx[a][q] >= 0 /\ x.idx[a][q] < (IF a = 1 THEN 5 + Len(c.ps) ELSE c.n[a - 1])
Emit == PrintT(<<"CASE", ToJson(<<c, Expected(c)>>)>>)
=============================================================================
