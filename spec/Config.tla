------------------------------- MODULE Config -------------------------------
(* Which configurations and objectives are refused, and what is in force       *)
(* otherwise.  TLC enumerates the table (every combination is one behaviour)   *)
(* with the verdict; the harness executes each entry in the real code.         *)
EXTENDS Naturals, Sequences, FiniteSets, Json, IOUtils, TLC

Reals == {"maxtime", "fatol", "frtol", "xtol", "gatol", "grtol", "theta_max", "delta_init",
          "mu", "eta", "gamma1", "gamma2"}
Choices == {"subspace_solver", "stepback_strategy"}
Options == Reals \cup Choices \cup {"maxiter", "history_file"}
\* documented defaults
Default == [maxiter |-> "1000", maxtime |-> "inf", fatol |-> "1E-8", frtol |-> "1E-8", xtol |-> "0",
            gatol |-> "1E-6", grtol |-> "0", subspace_solver |-> "2D", stepback_strategy |-> "reflect",
            theta_max |-> "0.95", delta_init |-> "1", mu |-> "0.25", eta |-> "0.75", gamma1 |-> "0.25",
            gamma2 |-> "2", history_file |-> "none"]
Solvers == {"2D", "full", "scg"}
Strategies == {"reflect_single", "reflect", "truncate", "mixed", "refine"}

\* kinds of values
Numbers == {"int", "float", "npint", "npfloat", "npfloat32"}
Wrong == {"word", "numstr", "none", "list", "array", "complex", "dict", "bytes"}
Valid(o) == CASE o \in Reals -> Numbers \cup {"floatint", "npfloatint", "zero"}
              [] o = "maxiter" -> {"int", "npint", "floatint", "npfloatint"}
              [] o = "subspace_solver" -> {"name:" \o s : s \in Solvers} \cup {"enum:" \o s : s \in Solvers}
              [] o = "stepback_strategy" -> {"name:" \o s : s \in Strategies} \cup {"enum:" \o s : s \in Strategies}
              [] OTHER -> {"path", "pathobj"}
Invalid(o) == CASE o \in Reals -> Wrong
                [] o = "maxiter" -> Wrong \cup {"float", "npfloat", "npfloat32"}
                [] o = "history_file" -> {"int", "float", "none", "list", "array", "dict", "bytes"}
                [] o = "subspace_solver" -> {"word", "int", "none", "list", "member", "name:reflect",
                                             "enum:reflect", "upper:full", "float", "dict"}
                [] OTHER -> {"word", "int", "none", "list", "member", "name:full", "enum:full",
                             "upper:reflect", "float", "dict"}
Forms == {"name", "enum"}
Unknown == {"maxiterr", "MAXITER", "", "option", "number", "nokey", "choice"}

E(o, f, v) == [opt |-> o, form |-> f, val |-> v]
\* every single setting
One(o) == {[kind |-> "create", set |-> <<E(o, f, v)>>, verdict |-> IF v \in Valid(o) THEN "accept" ELSE "refuse"]
             : f \in Forms, v \in Valid(o) \cup Invalid(o)}
Unk == {[kind |-> "create", set |-> <<E(u, "unknown", v)>>, verdict |-> "refuse"] : u \in Unknown, v \in {"int", "word"}}
\* an invalid setting among valid ones, at every position
Before(o, p) ==
  {[kind |-> "create", set |-> IF first THEN <<E(p, g, w), E(o, f, v)>> ELSE <<E(o, f, v), E(p, g, w)>>,
    verdict |-> "refuse"]
     : first \in BOOLEAN, f \in Forms, g \in Forms, w \in Invalid(p) \cap {"word", "none", "list", "float", "int"},
       v \in (Valid(o) \cap {"floatint", "float", "name:full", "name:truncate", "enum:2D", "enum:mixed", "path", "pathobj"})}
Pairs == UNION {Before(o, p) : o \in Options, p \in Options} 
Trail(o) == {[kind |-> "create", set |-> IF first THEN <<E(u, "unknown", "int"), E(o, f, v)>>
                                       ELSE <<E(o, f, v), E(u, "unknown", "int")>>, verdict |-> "refuse"]
              : first \in BOOLEAN, u \in Unknown, f \in Forms, v \in Valid(o)}
Distinct(c) == \A i, j \in DOMAIN c.set : i # j => c.set[i].opt # c.set[j].opt
\* solver and strategy
Given == {"omitted", "name", "enum"}
Combine == {[kind |-> "combine", solver |-> s, sform |-> a, strategy |-> t, tform |-> b, order |-> ord,
             verdict |-> IF (IF a = "omitted" THEN Default.subspace_solver ELSE s) = "scg"
                            /\ (IF b = "omitted" THEN Default.stepback_strategy ELSE t) = "refine"
                         THEN "refuse" ELSE "accept"]
              : s \in Solvers, a \in Given, t \in Strategies, b \in Given, ord \in {"s", "t"}}
\* schemes and residual mode
PlainSchemes == {"BFGS", "DFP", "Broyden", "SR1", "BG", "BB", "HybridFixed", "HybridFraction"}
ResSchemes == {"FX", "SSM", "TSSM", "GNSBFGS"}
Modes == {[kind |-> "mode", scheme |-> s, resfun |-> r, solver |-> v,
           verdict |-> IF (s \in ResSchemes) = r THEN "accept" ELSE "refuse"]
            : s \in PlainSchemes \cup ResSchemes, r \in BOOLEAN, v \in Solvers}
         \cup {[kind |-> "mode", scheme |-> "exact", resfun |-> FALSE, solver |-> v, verdict |-> "accept"] : v \in Solvers}
\* outputs of the objective
Outputs(s) == IF s \in ResSchemes THEN <<"res", "sres">>
              ELSE IF s \in {"exact", "HybridFixed", "HybridFraction"} THEN <<"f", "g", "H">> ELSE <<"f", "g">>
Shapes(out) == CASE out = "f" -> {"vec1", "mat1", "arr0", "list"}
                 [] out = "g" -> {"scalar", "col", "row", "long", "one", "mat", "arr0", "empty"}
                 [] out = "H" -> {"scalar", "vec", "wide", "tall", "big", "one", "cube", "arr0", "flat", "empty"}
                 [] out = "res" -> {"col", "row", "short", "mat"}
                 [] OTHER -> {"vec", "narrow", "fewrows", "morecols", "cube", "arr0", "transposed"}
All == PlainSchemes \cup ResSchemes \cup {"exact"}
Bad == UNION {{[kind |-> "shape", scheme |-> s, n |-> n, out |-> j, shape |-> sh, verdict |-> "refuse"]
                 : j \in DOMAIN Outputs(s), n \in {2, 3},
                   sh \in UNION {Shapes(Outputs(s)[k]) : k \in DOMAIN Outputs(s)}} : s \in All}
BadShapes == {c \in Bad : c.shape \in Shapes(Outputs(c.scheme)[c.out])}
Counts == {[kind |-> "outputs", scheme |-> s, n |-> 2, count |-> k, type |-> ty,
            verdict |-> IF k = Len(Outputs(s)) /\ ty = "tuple" THEN "accept" ELSE "refuse"]
             : s \in All, k \in 0..4, ty \in {"tuple", "list", "bare"}}
Good == {[kind |-> "shape", scheme |-> s, n |-> n, out |-> 1, shape |-> "ok", verdict |-> "accept"] : s \in All, n \in {1, 2, 3}}
\* defaults in force if an option is omitted, and settings in force if given
Forced == {[kind |-> "default", opt |-> o, want |-> Default[o], with |-> w, verdict |-> "accept"]
             : o \in Options, w \in {"none", "empty", "others"}}
Same == UNION {{[kind |-> "effect", opt |-> o, form |-> f, val |-> v, verdict |-> "accept"]
                  : f \in Forms, v \in Valid(o) \ {"zero", "npfloat32"}} : o \in Options \ {"history_file"}}

Table == {c \in UNION {One(o) : o \in Options} \cup Unk \cup Pairs
               \cup UNION {Trail(o) : o \in Options} : Distinct(c)}
         \cup Combine \cup Modes \cup BadShapes \cup Counts \cup Good \cup Forced \cup Same
VARIABLE row
Init == row \in Table
Next == UNCHANGED row
Spec == Init /\ [][Next]_row
Emit == PrintT("@@" \o ToJson(row))
(* sanity of the table itself *)
NoConflict == \A o \in Options : Valid(o) \cap Invalid(o) = {}
DefaultsValid == Default.subspace_solver \in Solvers /\ Default.stepback_strategy \in Strategies
=============================================================================
