------------------------------- MODULE Options ------------------------------
(***************************************************************************)
(* What the options of a run mean.  A configuration gives every option a   *)
(* value and a form: spelled out in the usual way ("given"), left out      *)
(* ("omitted"), or spelled differently ("other").  The edits below keep    *)
(* the meaning; Break makes a configuration meaningless.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Bases, Breaking, Changing

Default == [CFL |-> "0.8", fixed_dt |-> "None", gamma |-> "5/3", riemann_solver |-> "hllc",
            conservative_ic |-> "False", fv_ic |-> "False", a_posteriori_slope_limiting |-> "False",
            slope_limiter |-> "minmod", force_trouble |-> "False", NAD |-> "1e-2", NAD_mode |-> "global",
            NAD_range |-> "relative", NAD_vars |-> "None", PAD |-> "None", SED |-> "True",
            SED_tolerance |-> "1e-10", convex |-> "False", csq_floor |-> "1e-10", w0_passives |-> "None",
            density_floor |-> "None", pressure_floor |-> "None", fixed_primitive_variables |-> "None",
            bc |-> "None", nx |-> "1", ny |-> "1", nz |-> "1", px |-> "0", py |-> "0", pz |-> "0",
            x |-> "(0,1)", y |-> "(0,1)", z |-> "(0,1)", slab_buffer_size |-> "30",
            w0 |-> "-",                         \* always given here: tube, cold, thin, ripple
            snapshots_as_fv_averages |-> "True", progress_bar |-> "True", cupy |-> "False",
            \* of the call
            exact |-> "True", downbeats |-> "None", log_every_step |-> "False", snapshot_dir |-> "None", overwrite |-> "False",
            \* given along with a number of steps, which makes them meaningless
            n_T |-> "None", n_exact |-> "True", n_downbeats |-> "None", n_log_every_step |-> "False", n_snapshot_dir |-> "None", n_overwrite |-> "False"]
Options == DOMAIN Default

\* other spellings of the same value
Spelled == [CFL |-> {"1", "0.5"}, gamma |-> {"2"}, NAD_vars |-> {"rho,P"}, PAD |-> {"rho 0.3", "None"}, x |-> {"(0,1)", "(-1,1)"},
            y |-> {"(0,1)"}, z |-> {"(0,1)"}, nx |-> {"10", "5"}, ny |-> {"4", "1"}, px |-> {"0", "2", "3"}, py |-> {"1"},
            bc |-> {"None", "walls", "free", "inflow"}, downbeats |-> {"None", "some"}, w0_passives |-> {"None"},
            NAD |-> {"0.5"}, SED_tolerance |-> {"1e-10"}, csq_floor |-> {"1e-10"}, cupy |-> {"False"}]

\* does the value of an option matter?
Val(c, o) == c[o].v
Limited(c) == Val(c, "a_posteriori_slope_limiting") = "True"
Judged(c) == Limited(c) /\ Val(c, "force_trouble") = "False"
Relevant(c, o) ==
  CASE o \in {"progress_bar", "overwrite", "n_T", "n_exact", "n_downbeats", "n_log_every_step", "n_snapshot_dir", "n_overwrite"} -> FALSE
    [] o = "CFL" -> Val(c, "fixed_dt") = "None"
    [] o \in {"slope_limiter", "force_trouble", "convex"} -> Limited(c)
    [] o \in {"NAD", "NAD_mode", "NAD_range", "NAD_vars", "PAD", "SED"} -> Judged(c)
    [] o = "SED_tolerance" -> Judged(c) /\ Val(c, "SED") = "True"
    [] o = "slab_buffer_size" -> FALSE          \* as long as it is not too small for boundary functions
    [] OTHER -> TRUE
Others == [progress_bar |-> {"False"}, overwrite |-> {"True"}, CFL |-> {"0.3", "1"}, slope_limiter |-> {"moncen", "None", "superbee"},
           force_trouble |-> {"True"}, convex |-> {"True"}, NAD |-> {"0.5", "0"}, NAD_mode |-> {"local"}, NAD_range |-> {"absolute"},
           NAD_vars |-> {"rho,P"}, PAD |-> {"rho 0.3"}, SED |-> {"False", "True"}, SED_tolerance |-> {"1e-3"},
           n_T |-> {"0.2", "0"}, n_exact |-> {"False"}, n_downbeats |-> {"some"}, n_log_every_step |-> {"True"}, n_snapshot_dir |-> {"scratch"}, n_overwrite |-> {"True"}, slab_buffer_size |-> {"15", "60"}]
Needs(c, o) == Relevant(c, o) \/ (o = "slab_buffer_size" /\ Val(c, "bc") = "inflow")
\* what cannot be meant
Wrong == [riemann_solver |-> {"roe", "HLLC", "None"}, slope_limiter |-> {"superbee", "Minmod"}, NAD_mode |-> {"both", "None"},
          NAD_range |-> {"rel", "None"}, NAD_vars |-> {"rho,T"}, PAD |-> {"T 0"}, fv_ic |-> {"True"}, px |-> {"9", "-1"},
          w0_passives |-> {"rho", "E", "vz", "my", "passive_scalars", "m"}, bc |-> {"open", "list", "three", "values"}, w0 |-> {"flat"},
          slab_buffer_size |-> {"1"}]

\* values that make a difference, and where
Matters == {
  <<"plain", "CFL", "0.3">>, <<"plain", "fixed_dt", "0.01">>, <<"plain", "gamma", "2">>, <<"plain", "riemann_solver", "hllc">>,
  <<"plain", "riemann_solver", "advection_upwind">>, <<"deflt", "riemann_solver", "llf">>, <<"plain", "conservative_ic", "True">>, <<"cons", "fv_ic", "True">>,
  <<"plain", "a_posteriori_slope_limiting", "True">>, <<"forced", "slope_limiter", "moncen">>, <<"forced", "slope_limiter", "None">>,
  <<"deflt", "force_trouble", "True">>, <<"limited", "NAD", "0.5">>, <<"choosy", "NAD_mode", "global">>, <<"choosy", "NAD_range", "relative">>,
  <<"limited", "NAD_vars", "vx">>, <<"limited", "PAD", "rho 1.2">>, <<"limited", "SED", "False">>, <<"cold", "SED_tolerance", "1e-3">>, <<"deflt", "convex", "True">>,
  <<"cold", "csq_floor", "1e-2">>, <<"plain", "csq_floor", "9">>, <<"plain", "w0_passives", "dye">>, <<"plain", "bc", "walls">>, <<"plain", "bc", "free">>,
  <<"plain", "nx", "12">>, <<"plain", "ny", "3">>, <<"plain", "nz", "3">>, <<"plain", "px", "2">>, <<"fixed", "px", "1">>, <<"fixed", "py", "2">>, <<"plain", "pz", "1">>,
  <<"plain", "x", "(-1,1)">>, <<"fixed", "y", "(-1,1)">>, <<"plain", "z", "(0,0.01)">>,
  <<"plain", "w0", "ripple">>, <<"walls", "snapshots_as_fv_averages", "False">>, <<"plain", "exact", "False">>, <<"plain", "downbeats", "some">>,
  <<"plain", "log_every_step", "True">>, <<"plain", "density_floor", "1.2">>, <<"plain", "pressure_floor", "1.3">>, <<"plain", "fixed_primitive_variables", "vx">>}

Meaning(c) == [o \in Options |-> IF Relevant(c, o) THEN Val(c, o) ELSE "-"]

Given(f) == [o \in Options |-> [v |-> IF o \in DOMAIN f THEN f[o] ELSE IF o = "w0" THEN "tube" ELSE Default[o], form |-> "given"]]
Base == [plain   |-> [nx |-> "10", px |-> "3", riemann_solver |-> "llf"],
         limited |-> [nx |-> "10", px |-> "3", a_posteriori_slope_limiting |-> "True", NAD |-> "1e-5"],
         deflt   |-> [nx |-> "10", px |-> "2", a_posteriori_slope_limiting |-> "True"],
         choosy  |-> [nx |-> "10", px |-> "2", a_posteriori_slope_limiting |-> "True", NAD_vars |-> "rho,P", PAD |-> "rho 0.3",
                      NAD_mode |-> "local", NAD_range |-> "absolute", SED |-> "False", slope_limiter |-> "moncen", convex |-> "True"],
         forced  |-> [nx |-> "10", px |-> "2", a_posteriori_slope_limiting |-> "True", force_trouble |-> "True", bc |-> "free"],
         fixed   |-> [nx |-> "5", ny |-> "4", py |-> "1", fixed_dt |-> "0.01", x |-> "(-1,1)"],
         walls   |-> [nx |-> "5", ny |-> "4", px |-> "2", py |-> "1", bc |-> "walls", gamma |-> "2", CFL |-> "0.5"],
         inflow  |-> [nx |-> "10", px |-> "3", bc |-> "inflow", NAD |-> "0.5"],
         dyed    |-> [nx |-> "10", px |-> "3", w0_passives |-> "dye", downbeats |-> "some", log_every_step |-> "True", CFL |-> "1"],
         cold    |-> [nx |-> "10", px |-> "1", w0 |-> "cold", riemann_solver |-> "llf", a_posteriori_slope_limiting |-> "True"],
         thin    |-> [nx |-> "10", px |-> "3", w0 |-> "thin", a_posteriori_slope_limiting |-> "True", NAD |-> "0.5"],
         ripple  |-> [nx |-> "10", px |-> "3", w0 |-> "ripple", a_posteriori_slope_limiting |-> "True", NAD |-> "0", NAD_mode |-> "local"],
         cons    |-> [nx |-> "10", px |-> "3", conservative_ic |-> "True"],
         loose   |-> [nx |-> "10", px |-> "0", exact |-> "False", snapshots_as_fv_averages |-> "False", conservative_ic |-> "True", NAD |-> "0.5"]]

VARIABLES base, cfg, k, broken
vars == <<base, cfg, k, broken>>
Init == base \in Bases /\ cfg = Given(Base[base]) /\ k = 0 /\ broken = ""

Edit == ~Changing /\ k < Depth /\ broken = "" /\ k' = k + 1 /\ UNCHANGED base
Omit(o) == /\ Edit /\ UNCHANGED broken
           /\ cfg[o].form # "omitted" /\ Val(cfg, o) = Default[o]
           /\ cfg' = [cfg EXCEPT ![o].form = "omitted"]
Respell(o) == /\ Edit /\ UNCHANGED broken
              /\ o \in DOMAIN Spelled /\ cfg[o].form # "other" /\ Val(cfg, o) \in Spelled[o]
              /\ cfg' = [cfg EXCEPT ![o].form = "other"]
Disturb(o) == /\ Edit /\ UNCHANGED broken
              /\ ~ Relevant(cfg, o) /\ o \in DOMAIN Others
              /\ \E v \in Others[o] \ {Val(cfg, o)} : cfg' = [cfg EXCEPT ![o] = [v |-> v, form |-> "given"]]
\* what disturbs must not bring a disturbed option back into play
Sound(c) == Meaning(c) = Meaning(Given(Base[base]))
Break(o) == /\ Breaking /\ Edit /\ broken' = o
            /\ Needs(cfg, o) /\ o \in DOMAIN Wrong
            /\ (o = "fv_ic" => Val(cfg, "conservative_ic") = "False")
            /\ (o = "slope_limiter" => Val(cfg, "force_trouble") = "True")   \* looked up where there is trouble
            /\ \E v \in Wrong[o] : cfg' = [cfg EXCEPT ![o] = [v |-> v, form |-> "given"]]
Change == /\ Changing /\ k = 0 /\ k' = 1 /\ UNCHANGED <<base, broken>>
          /\ \E m \in Matters : m[1] = base /\ cfg' = [cfg EXCEPT ![m[2]] = [v |-> m[3], form |-> "given"]]
Next == Change \/ \E o \in Options : Omit(o) \/ Respell(o) \/ Disturb(o) \/ Break(o)

Same == broken = "" /\ ~Changing => Sound(cfg)
Differs == Changing /\ k = 1 => ~ Sound(cfg)
KnownBases == Bases \subseteq DOMAIN Base /\ \A m \in Matters : m[1] \in DOMAIN Base /\ m[2] \in Options
Show == (k = Depth \/ broken # "") => PrintT(<<"RUN", ToJson([base |-> base, cfg |-> cfg, broken |-> broken])>>)
=============================================================================
