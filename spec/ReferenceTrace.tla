--------------------------- MODULE ReferenceTrace ---------------------------
(***************************************************************************)
(* Recordings of the reference solver judged by module Reference.          *)
(***************************************************************************)
EXTENDS Lanes
LOCAL INSTANCE Reference
LOCAL INSTANCE Trig

Close(a, b) == RLt(RAbs(RSub(a, b)), "1/1000000000000")

\* the initial states, as primitive variables, at x in the unit interval
Two(x, at0, l, r) == IF RLt(x, at0) THEN l ELSE r
IC(what, x) ==
  CASE what = "sod test"   -> Two(x, "1/2", <<1, 0, 1>>, <<"1/8", 0, "1/10">>)
    [] what = "toro test1" -> Two(x, "3/10", <<1, "3/4", 1>>, <<"1/8", 0, "1/10">>)
    [] what = "toro test2" -> Two(x, "1/2", <<1, -2, "2/5">>, <<1, 2, "2/5">>)
    [] what = "toro test3" -> Two(x, "1/2", <<1, 0, 1000>>, <<1, 0, "1/100">>)
    [] what = "shu osher"  -> Two(x, "1/10", <<"3857143/1000000", "2629369/1000000", "1033333/100000">>,
                                  <<RAdd(1, RMul("1/5", Sin(RMul(5, RSub(RMul(10, x), 5))))), 0, 1>>)
    [] what = "supersonic blob" -> IF RLt("2/5", x) /\ RLt(x, "3/5") THEN <<10, RMul(3, RSqrt("50/3", 140)), 1>> ELSE <<"1/10", 0, 1>>
Borders(what) == CASE what \in {"sod test", "toro test2", "toro test3"} -> {"1/2"}
                   [] what = "toro test1" -> {"3/10"}
                   [] what = "shu osher" -> {"1/10"}
                   [] what = "supersonic blob" -> {"2/5", "3/5"}
NearBorder(what, x) == \E b \in Borders(what) : Close(x, b)
\* the blast: energy 1 in two neighbouring cells in the middle, hardly any elsewhere
SedovOK(n, u) ==
  LET hot == {i \in 1 .. n : RLt(1, u[3][i])}
      E   == RDiv(n, 2)
      ok(i) == Near([v \in 1 .. 3 |-> u[v][i]], <<1, 0, IF i \in hot THEN E ELSE "1/40000">>, RMul("1/1000000000000", E))
  IN /\ \A i \in 1 .. n : ok(i)
     /\ \E i \in hot : hot = {i, i + 1} /\ i \in {n \div 2, n \div 2 + 1}
InitialOK(what, xs, u) ==
  IF what = "sedov" THEN SedovOK(Len(xs), u)
  ELSE \A i \in 1 .. Len(xs) : NearBorder(what, xs[i]) \/
         LET w == ConsOf(IC(what, xs[i])) IN Near([v \in 1 .. 3 |-> u[v][i]], w, RMul("1/1000000000000", RMax(1, AbsLeaf(w))))
ICVerdict(e) == IF InitialOK(e.what, e.x, e.u) THEN {} ELSE {"initial state"}

Tol == RatOf("1/100000000")
FluxScale(u) == LET m == AbsLeaf(u) IN RMax(1, RMul(m, RAdd(1, m)))
RiemannVerdict(e) ==
  LET bad(q) == LET f == FluxOf(e.solver, e.wl[q], e.wr[q]) IN ~ Near(e.out[q], f, RMul("1/10000000000", RMax(AbsLeaf(f), 1)))
  IN {ToString(q) : q \in {q \in 1 .. Len(e.wl) : bad(q)}}

FluxVerdict(e) ==
  LET want == Interfaces(e.u, e.n, e.bc, e.solver, e.space)
      sc   == AbsLeaf([q \in 1 .. e.n + 1 |-> want[q].flux])
      bad  == {q \in 1 .. e.n + 1 : want[q].sure /\ ~ Near([v \in 1 .. 3 |-> e.out[v][q]], want[q].flux, RMul(Tol, RMax(sc, 1)))}
  IN IF bad # {} THEN {ToString(q) : q \in bad}
     ELSE IF \A q \in 1 .. e.n + 1 : ~want[q].sure THEN {"unsure"} ELSE {}

(***************************************************************************)
(* A run: the states after 0, 1, 2, ... steps.  Only the pairs in judge    *)
(* are recomputed; all are summed.                                         *)
(***************************************************************************)
Scales(u) == Deep([v \in 1 .. 3 |-> RMax(AbsLeaf(u[v]), "1/1000")])
PairVerdict(e, q) ==
  LET s  == RefStep(e.states[q], e.n, e.cfl, e.bc, e.solver, e.time, e.space)
      sc == LET a == Scales(s.u) b == Scales(e.states[q]) IN RMax(AbsLeaf(a), AbsLeaf(b))
  IN IF ~s.sure THEN {"unsure"}
     ELSE IF Near(e.states[q + 1], s.u, RMul(Tol, sc)) THEN {} ELSE {"step " \o ToString(q)}
TotalsVerdict(e) ==
  IF e.bc # "periodic" THEN {}
  ELSE LET t(q) == [v \in 1 .. 3 |-> Total(e.states[q][v])]
           t1 == Deep(t(1))
           sc(q) == RMul(e.n, AbsLeaf(e.states[q]))
       IN {"totals after " \o ToString(q - 1) : q \in {q \in 1 .. Len(e.states) : ~ Near(t(q), t1, RMul("1/100000000000", RMax(sc(q), sc(1))))}}
\* uniform initial data stay as they are
SteadyVerdict(e) ==
  IF \E v \in 1 .. 3, i \in 1 .. e.n : e.states[1][v][i] # e.states[1][v][1] THEN {}
  ELSE {"not steady " \o ToString(q) : q \in {q \in 1 .. Len(e.states) : ~ Near(e.states[q], e.states[1], RMul("1/100000000000", AbsLeaf(e.states[1])))}}
Q1(x) == RRound(x, 140)
RECURSIVE Clock(_, _, _)
Clock(e, q, t) == IF q = Len(e.states) THEN <<t>> ELSE <<t>> \o Clock(e, q + 1, Q1(RAdd(t, Dt(e.states[q], e.n, e.cfl))))
\* the run ends with the first step that reaches tend
EndVerdict(e) ==
  IF ~e.whole THEN {}
  ELSE LET c == Clock(e, 1, RatOf(0))
           m == Len(c)
           eps == "1/1000000000"
       IN (IF RLt(c[m], RSub(e.tend, eps)) THEN {"stopped early"} ELSE {})
          \cup (IF m > 1 /\ RLe(RAdd(e.tend, eps), c[m - 1]) THEN {"went on"} ELSE {})
RunVerdict(e) ==
  LET m == Len(e.states)
      j == UNION {PairVerdict(e, e.judge[q]) : q \in 1 .. Len(e.judge)}
      o == TotalsVerdict(e) \cup SteadyVerdict(e) \cup EndVerdict(e)
           \* no finite state follows the last one: then no step is defined there
           \cup (IF e.dead /\ RefStep(e.states[m], e.n, e.cfl, e.bc, e.solver, e.time, e.space).sure THEN {"breakdown"} ELSE {})
           \cup (IF e.what = "given" \/ InitialOK(e.what, e.x, e.states[1]) THEN {} ELSE {"initial state"})
      hard == (j \ {"unsure"}) \cup o
  IN IF hard # {} THEN hard ELSE j

RVerdict(e) == CASE e.kind = "ic" -> ICVerdict(e)
                [] e.kind = "riemann" -> RiemannVerdict(e)
                [] e.kind = "flux" -> FluxVerdict(e)
                [] e.kind = "run" -> RunVerdict(e)
Good == at > 0 => Report(RVerdict(Log[at]))
=============================================================================
