------------------------------ MODULE Contract ------------------------------
(* The properties of /verif/properties.jsonl as conditions on one observed step of one calculator.

   A step is an event e together with the calculator before it (c0) and after it (c).  A calculator is a record
   [k |-> kind, x |-> bit patterns of the composition, f |-> bit patterns of the fields (Interface!FieldNames)].
   An event has
     op, h, k, a    operation, handle, kind and arguments
     ret            what the operation returned: a bit pattern, an outcome or a verdict
     f, xs          fields afterwards; composition afterwards if it changed
     oth            handles of other calculators that changed during the operation
     fl             "" or "panic" or "hang"
     rret, rf       where recorded: the same operation on a new calculator with the same inputs
     cret, cf       where recorded: the same operation through the C interface (cf: fields, then the density once more
                    as it is in the property record; "" for what the C interface does not show);
                   coth: other handles that changed; csret, csf: the same in a run in which this handle was alone
     crec           the property record of the C interface, in order
     sret, sf       where recorded: the same operation in a run in which this calculator was alone
   m is what has to be remembered of earlier steps of the calculator: the last successful density calculation, as
   long as nothing was changed since.

   Every operator P_<id> is a set of obligations <<label, holds>>: the conditions that the property puts on this step,
   and whether they are met.                                                                                        *)
EXTENDS F64, Approx, Components, Interface, Composition, DensitySolver

V(c, nm) == FHex(c.f[Idx[nm]])
XOf(c) == FHexVec(c.x)
Bits(a, b) == a = b \/ Same(FHex(a), FHex(b), F("1e-12"), Zero)
When(cond, set) == IF cond THEN set ELSE {}
Must(cond, label) == {<<label, cond>>}
Violated(obligations) == {r[1] : r \in {q \in obligations : ~q[2]}}

Between(lo, v, hi) == FLe(F(lo), v) /\ FLe(v, F(hi))
TempScope(c) == Between("59.999", V(c, "t"), "2000.001")
EosScope(c) == Valid(XOf(c)) /\ TempScope(c) /\ Between("0", V(c, "d"), "40")
IsCalc(e) == e.op \in CalcOps
PValue(e, c) == IF e.k = "D" /\ e.op = "props" THEN V(c, "p") ELSE FHex(e.ret)     \* the calculated pressure
Changed(c0, c) == {nm \in FieldSet : c0.f[Idx[nm]] # c.f[Idx[nm]]}

Mass(k) == IF k = "D" THEN D!DMass ELSE G!GMass
MolarMass(k, x) == IF k = "D" THEN D!DMolarMass(x) ELSE G!GMolarMass(x)
PropsQ(k, x, t, d) == IF k = "D" THEN D!DProperties(x, t, d) ELSE G!GProperties(x, t, d)
PQ(k, x, t, d) ==
  LET z == QAdd(Q(One, D!Rel), D!Residual01(Terms(Fluid(k, x, t), d)))
  IN  [z |-> z, p |-> QScale(d (.) GasConstant(k) (.) t, z)]

(* ------------------------------------------------ compositions ------------------------------------------------ *)
P_C01(e, c0, c) ==
  When(e.fl = "" /\ e.op \in {"setx", "check"},
    LET ok == Verdicts(FHexVec(e.a))
    IN  Must(e.ret \in ok, "verdict") \union When(e.cret # "", Must(e.cret \in ok, "verdict-C")))

P_C03(e, c0, c) ==
  When(e.fl = "" /\ e.op = "norm", Must(NormalizeOk(FHexVec(e.a), e.ret, FHexVec(e.xs)), "normalize"))
  \union When(e.fl = "" /\ e.op = "sum",
    LET x == FHexVec(e.a)
    IN  When(AllFinite(x) /\ FIsFinite(XAbs(x)), Must(FLe(FAbs(FHex(e.ret) (-) XSum(x)), SumErr(x)), "sum")))

(* The molar mass of a pure component needs no arithmetic to judge; of a mixture, the weighted mean. *)
P_C04(e, c0, c) ==
  When(e.fl = "" /\ e.op \in {"mm", "props"} /\ AllFinite(XOf(c)),
    LET x == XOf(c)
        q == Q(MolarMass(e.k, x), F("1e-12") (.) FSum([i \in 1..NC |-> FAbs(x[i]) (.) Mass(e.k)[i]]))
    IN  When(FIsFinite(q.e),
          Must(Near(V(c, "mm"), q), "field") \union When(e.op = "mm", Must(Near(FHex(e.ret), q), "returned"))
          \union When(e.cret \notin {"", "died"} /\ e.op = "mm", Must(Near(FHex(e.cret), q), "returned-C"))
          \union When(e.cf # << >>, Must(Near(FHex(e.cf[Idx["mm"]]), q), "field-C"))))

(* -------------------------------------------- equations of state -------------------------------------------- *)
EosP(e, c) ==
  When(e.fl = "" /\ e.op \in {"pressure", "props"} /\ EosScope(c),
    LET q == PQ(e.k, XOf(c), V(c, "t"), V(c, "d"))
    IN  Must(Near(PValue(e, c), q.p), "p") \union Must(Near(V(c, "z"), q.z), "z"))
P_E01(e, c0, c) == When(e.k = "D", EosP(e, c))
P_E02(e, c0, c) == When(e.k = "G", EosP(e, c))

EnergyFields == {"u", "h", "s", "g", "cv", "cp", "w", "jt", "kappa", "dp_dd", "d2p_dd2", "dp_dt"}
EosProps(e, c, names) ==
  When(e.fl = "" /\ EosScope(c),
    LET q == PropsQ(e.k, XOf(c), V(c, "t"), V(c, "d"))
    IN  {<<nm, Near(V(c, nm), q[nm])>> : nm \in names})
P_E03(e, c0, c) == When(e.k = "D" /\ e.op = "props", EosProps(e, c, EnergyFields))
P_E04(e, c0, c) == When(e.k = "G" /\ e.op = "props", EosProps(e, c, EnergyFields \union {"d2p_dtd"}))

(* Identities among the reported values. *)
P_E05(e, c0, c) ==
  When(e.fl = "" /\ e.op = "props" /\ Valid(XOf(c)) /\ Between("1", V(c, "t"), "1e5") /\ Between("1.1e-15", V(c, "d"), "100")
       /\ \A i \in 1..NF : FIsFinite(FHex(c.f[i])),
    LET R == GasConstant(e.k)
        t == V(c, "t")
        d == V(c, "d")
        rt == R (.) t
        p == PValue(e, c)
        z == V(c, "z")
        h == V(c, "h")
        u == V(c, "u")
        s == V(c, "s")
        g == V(c, "g")
        cv == V(c, "cv")
        cp == V(c, "cp")
        w == V(c, "w")
        mm == V(c, "mm")
        slope == V(c, "dp_dd")
        Eq(a, b, scale) == Same(a, b, F("1e-9"), scale)
        tt == (t (.) V(c, "dp_dt")) (/) d                \* T (dP/dT) / D
        w2 == (F("1000") (.) (cp (/) cv) (.) slope) (/) mm
        jt1 == tt (/) slope
    IN  Must(Eq(p, z (.) d (.) rt, Zero), "p=ZDRT")
        \union Must(Eq(h, u (+) (p (/) d), FAbs(u) (+) rt (+) FAbs(p (/) d)), "H=U+p/D")
        \union Must(Eq(g, h (-) (t (.) s), FAbs(h) (+) FAbs(t (.) s) (+) rt), "G=H-TS")
        \union Must(Eq(cp (-) cv, (tt (.) (tt (/) t)) (/) slope, FAbs(cp) (+) FAbs(cv)), "Cp-Cv")
        \union When(FIsFinite(w2), Must(IF FLt(w2, Zero) THEN FEq(w, Zero) ELSE Eq(w (.) w, w2, Zero), "W"))
        \union Must(Eq(V(c, "kappa"), (w (.) w (.) mm) (/) (F("1000") (.) rt (.) z), Zero), "kappa")
        \union Must(FLe(FAbs((V(c, "jt") (.) cp (.) d) (-) (jt1 (-) One)), F("1e-9") (.) (FAbs(jt1) (+) One)), "JT"))

(* Difference quotients: the events named by the arguments of a note are property calculations on one composition at
   <<t,d>>, <<t,d-2g>>, <<t,d-g>>, <<t,d+g>>, <<t,d+2g>>, <<t-2s,d>>, <<t-s,d>>, <<t+s,d>>, <<t+2s,d>>.            *)
P_E06(e, evs, x) ==
  When(e.op = "note" /\ e.a[1] = "deriv",
    LET ev(j) == evs[IntOf(e.a[j + 1])]
        k == ev(1).k
        A(j, nm) == FHex(ev(j).f[Idx[nm]])
        Pr(j, nm) == IF nm = "p" /\ k = "G" THEN FHex(ev(j).ret) ELSE A(j, nm)
        t == A(1, "t")
        d == A(1, "d")
        q == PropsQ(k, x, t, d)
        \* scale of the rounding of a quantity: Rel times the sum of absolute values, times 1e-3
        noise(nm) == q[nm].e (.) F("1e-3")
        Quot(nm, var, lo2, lo1, hi1, hi2) ==
          LET d1 == (Pr(hi1, nm) (-) Pr(lo1, nm)) (/) (A(hi1, var) (-) A(lo1, var))
              d2 == (Pr(hi2, nm) (-) Pr(lo2, nm)) (/) (A(hi2, var) (-) A(lo2, var))
          IN  Q(((F("4") (.) d1) (-) d2) (/) F("3"),
                (F("0.3") (.) FAbs(d1 (-) d2)) (+) ((F("4") (.) noise(nm)) (/) FAbs(A(hi1, var) (-) A(lo1, var))))
        DD(nm) == Quot(nm, "d", 2, 3, 4, 5)
        DT(nm) == Quot(nm, "t", 6, 7, 8, 9)
        Ok(v, a, nm) == FLe(FAbs(v (-) a.v), a.e (+) noise(nm))
        fin == \A j \in 1..9 : \A nm \in {"p", "dp_dd", "dp_dt", "u", "s", "cv", "d2p_dd2"} : FIsFinite(Pr(j, nm))
    IN  IF ~fin THEN Must(FALSE, "finite") ELSE
        Must(Ok(A(1, "dp_dd"), DD("p"), "dp_dd"), "dP/dD")
        \union Must(Ok(A(1, "d2p_dd2"), DD("dp_dd"), "d2p_dd2"), "d2P/dD2")
        \union Must(Ok(A(1, "dp_dt"), DT("p"), "dp_dt"), "dP/dT")
        \union Must(Ok(A(1, "cv"), DT("u"), "cv"), "dU/dT")
        \union Must(Ok(A(1, "cv") (/) t, DT("s"), "s"), "dS/dT")
        \* ideal mixing entropy is that of the stated fractions only when they sum to one
        \union When(FLe(FAbs(FSum(x) (-) One), F("1e-12")), Must(LET a == DD("s") IN FLe(FAbs(((A(1, "dp_dt") (/) d) (/) d) (+) a.v), a.e (+) (noise("dp_dt") (/) (d (.) d))), "dS/dD"))
        \union When(k = "G", Must(Ok(A(1, "d2p_dtd"), DT("dp_dd"), "d2p_dtd"), "d2P/dTdD")
                             \union Must(Ok(A(1, "d2p_dtd"), DD("dp_dt"), "d2p_dtd"), "d2P/dDdT")))

(* The ideal gas limit. *)
P_E07(e, c0, c) ==
  When(e.fl = "" /\ e.op \in {"pressure", "props"} /\ Valid(XOf(c)) /\ TempScope(c) /\ Between("0", V(c, "d"), "1e-3"),
    LET k == e.k
        t == V(c, "t")
        d == V(c, "d")
        R == GasConstant(k)
        rt == R (.) t
        r == D!Residual01(Terms(Fluid(k, XOf(c), t), d))
        \* the deviation from 1 is at most the sum of the terms of the equation
        lim == (F("1e9") (.) r.e (.) F("1.001")) (+) F("1e-12")
        u == V(c, "u")
        h == V(c, "h")
        cv == V(c, "cv")
        cp == V(c, "cp")
    IN  Must(FLe(FAbs(V(c, "z") (-) One), lim), "Z")
        \union Must(FLe(FAbs(PValue(e, c) (-) (d (.) rt)), (lim (.) d (.) rt) (+) F("1e-306")), "P")
        \union When(e.op = "props" /\ FLt(d, F("1e-15")),
             \* (GERG-2008's properties do not write the pressure: it is an input of density alone)
             Must(\A i \in 1..NF : (k = "G" /\ i = Idx["p"]) \/ FIsFinite(FHex(c.f[i])), "finite")
             \union Must(Same((h (-) u) (/) rt, One, lim, One (+) ((FAbs(h) (+) FAbs(u)) (/) rt)), "H-U=RT")
             \union Must(Same(cp (-) cv, R, F("1e-11"), FAbs(cp)), "Cp-Cv=R")
             \union Must(FEq(V(c, "d2p_dd2"), Zero), "d2P/dD2=0")
             \union Must(FEq(V(c, "jt"), F("1e20")), "JT=1e20")
             \union Must(Same(V(c, "dp_dd"), rt, Two (.) lim, Zero), "dP/dD=RT")
             \union Must(FLe(FAbs(V(c, "dp_dt")), F("1e-13")), "dP/dT=0")
             \union Must(Same(V(c, "kappa"), cp (/) cv, (F("4") (.) lim) (+) F("1e-11"), Zero), "kappa=Cp/Cv")
             \union Must(Same(V(c, "w") (.) V(c, "w"), (F("1000") (.) (cp (/) cv) (.) rt) (/) V(c, "mm"), (F("4") (.) lim) (+) F("1e-11"), Zero), "W^2=Cp/Cv RT/M")))

(* Natural gas: both equations of state. *)
NaturalGas(x) ==
  LET Le(i, v) == FLe(x[i], F(v))
  IN  /\ Valid(x)
      /\ FLe(F("0.85"), x[1])
      /\ Le(2, "0.05") /\ Le(3, "0.03") /\ Le(4, "0.06") /\ Le(5, "0.015")
      /\ \A i \in 6..9 : Le(i, "0.002")
      /\ \A i \in 10..14 : Le(i, "0.0002")
      /\ \A i \in 15..21 : Le(i, "0.001")
P_E08(e, evs, x) ==
  When(e.op = "note" /\ e.a[1] = "pair",
    LET ev(j) == evs[IntOf(e.a[j + 1])]          \* density and properties with DETAIL, then with GERG
        A(j, nm) == FHex(ev(j).f[Idx[nm]])
        Close(nm, a, b, rel) == FLe(FAbs(A(a, nm) (-) A(b, nm)), F(rel) (.) FAbs(A(a, nm)))
    IN  When(NaturalGas(x) /\ Between("279.99", A(1, "t"), "350.01") /\ Between("1e-3", FHex(ev(1).f[Idx["p"]]), "10000.1"),
          Must(ev(1).ret = "ok" /\ ev(3).ret = "ok", "found")
          \union Must(Close("d", 1, 3, "0.005"), "density")
          \union Must(Close("w", 2, 4, "0.002"), "speed of sound")))

(* -------------------------------------------------- densities -------------------------------------------------- *)
Mode(e) == IF e.k = "D" THEN "0" ELSE e.a[1]
ModeN(e) == CASE Mode(e) = "0" -> 0 [] Mode(e) = "1" -> 1 [] OTHER -> 2

\* m: [on, z, p] of the last density calculation, on only while temperature, pressure, density and composition stay.
P_S01(e, c0, c, m) ==
  When(e.fl = "" /\ e.op = "density" /\ e.ret = "ok",
     Must(FIsFinite(V(c, "d")) /\ FLt(Zero, V(c, "d")), "density positive")
     \union Must(c0.x = c.x /\ c0.f[Idx["t"]] = c.f[Idx["t"]] /\ c0.f[Idx["p"]] = c.f[Idx["p"]], "inputs kept"))
  \union When(e.fl = "" /\ e.op = "pressure" /\ m.on /\ Valid(XOf(c)),
     LET t == V(c, "t")
         d == V(c, "d")
         p == FHex(m.p)
         terms == Terms(Fluid(e.k, XOf(c), t), d)
         drt == d (.) GasConstant(e.k) (.) t
         r == D!Residual1(terms)
         slope == drt (.) (One (+) (Two (.) r.a01) (+) r.a02)                \* D dP/dD
         size == drt (.) (One (+) (F("1e9") (.) D!Residual01(terms).e))
         tol == (F("1e-6") (.) FAbs(slope)) (+) (F("1e-11") (.) size) (+) (F("1e-11") (.) p)
     IN  Must(FLe(FAbs(FHex(e.ret) (-) p), tol), "pressure reproduced")
         \union Must(FLe(FAbs((FHex(m.z) (.) drt) (-) p), (Two (.) tol) (+) (F("1e-6") (.) p)), "Z = P/(DRT)")   \* Z may be that of the last step but one
         \union Must(FLe(FNeg(tol), slope), "pressure rises with density"))

Usable(v) == FIsFinite(v) /\ FLt(Zero, v)
IdealOk(k, p, t, d) == LET i == IdealDensity(k, p, t)
                       IN  \/ Same(d, i, F("1e-12"), Zero)
                           \/ FLe(FAbs(d (-) i), F("1e-306")) /\ FIsFinite(i)
OutcomeOk(k, ret, p, t, d, sfx) ==
  Must(ret \in DensityOutcomes, "outcome" \o sfx)
  \union When(FLt(p, PMin), Must(ret = "low" /\ FEq(d, Zero), "low pressure" \o sfx))
  \union When(~FLt(p, PMin), Must(ret # "low", "not a low pressure" \o sfx))
  \union When(ret = "fail", Must(IdealOk(k, p, t, d), "ideal gas density" \o sfx))
  \union When(~Usable(p) \/ ~Usable(t), Must(ret # "ok", "unusable input" \o sfx))
P_S02(e, c0, c) ==
  When(e.op = "density",
    Must(e.fl = "", "returns")
    \union When(e.fl = "",
       OutcomeOk(e.k, e.ret, V(c0, "p"), V(c0, "t"), V(c, "d"), "")
       \union Must(e.cret # "died", "returns (C)")
       \union When(e.cret \notin {"", "died"}, OutcomeOk(e.k, e.cret, V(c0, "p"), V(c0, "t"), FHex(e.cf[Idx["d"]]), " (C)"))))

DefaultStart(d) == FIsNaN(d) \/ FLt(F("-1e-15"), d)
Root(e, c, pred) == Must(e.ret = "ok", "found") \union When(e.ret = "ok", Must(Same(V(c, "d"), pred.d, F("2e-6"), Zero), "root"))
SolveScope(t, p) == Between("49.99", t, "3000.1") /\ Between("1e-14", p, "1e7")
P_S03(e, c0, c) ==
  When(e.fl = "" /\ e.op = "density" /\ Mode(e) = "0" /\ Valid(XOf(c0)) /\ DefaultStart(V(c0, "d")),
    LET x == XOf(c0)
        t == V(c0, "t")
        p == V(c0, "p")
        pred == RobustSearch(Fluid(e.k, x, t), p, IdealDensity(e.k, p, t), TRUE)
    IN  When(SolveScope(t, p), When(pred.out = "ok", Root(e, c, pred)))
        \union When(NaturalGas(x) /\ Between("250", t, "450") /\ Between("1e-14", p, "35000.1"), Must(e.ret = "ok", "natural gas")))

CheckFields == {"p", "dp_dd", "d2p_dtd", "cv", "cp", "w"}
\* Whether the state with properties q passes the phase check: "yes", "no", or "open" within the accuracy of q.
PhaseCheck(q) ==
  LET no(v) == FLe(v.v (+) v.e, Zero)
      yes(v) == FLt(Zero, v.v (-) v.e)
      w2sign == IF FLt(Zero, q.w.v) THEN (IF FLt(q.w.e, q.w.v) THEN "yes" ELSE "open") ELSE IF FEq(q.w.e, Zero) THEN "no" ELSE "open"
      five == CheckFields \ {"w"}
  IN  IF (\E nm \in five : no(q[nm])) \/ w2sign = "no" THEN "no"
      ELSE IF (\A nm \in five : yes(q[nm])) /\ w2sign = "yes" THEN "yes" ELSE "open"
P_S04(e, c0, c) ==
  When(e.fl = "" /\ e.op = "density" /\ e.k = "G" /\ Mode(e) # "0" /\ Valid(XOf(c0)) /\ Usable(V(c0, "t")) /\ Usable(V(c0, "p")),
    LET x == XOf(c0)
        t == V(c0, "t")
        p == V(c0, "p")
        d0 == V(c0, "d")
        mode == ModeN(e)
        start == StartDensity("G", x, t, p, d0, mode)
        pred == RobustSearch(Fluid("G", x, t), p, start, DefaultStart(d0) /\ mode = 1)
        q == PropsQ("G", x, t, pred.d)
        verdict == IF pred.out = "ok" THEN PhaseCheck(q) ELSE "open"
        here == PropsQ("G", x, t, V(c, "d"))
    IN  When(Between("59.99", t, "2000.1") /\ Between("1e-6", p, "1e6"),
          When(verdict = "yes", Root(e, c, pred))
          \union When(verdict = "no", Must(e.ret = "fail", "refused"))
          \union When(e.ret = "ok" /\ EosScope(c),
               {<<nm, Near(V(c, nm), here[nm])>> : nm \in EnergyFields \union {"d2p_dtd", "z", "mm"}}
               \union Must(\A nm \in CheckFields \ {"p"} : FLt(Zero, V(c, nm)), "checks passed")))
        \union When(e.ret = "fail", Must(IdealOk("G", p, t, V(c, "d")), "ideal gas density")))

SameOutcome(e, c, ret, f) ==
  Must(e.ret = ret, "outcome")
  \union Must(Same(V(c, "d"), FHex(f[Idx["d"]]), F("1e-11"), Zero), "density")
P_S05(e, c0, c) ==
  When(e.fl = "" /\ e.op = "density",
    When(DefaultStart(V(c0, "d")) /\ e.rret # "", SameOutcome(e, c, e.rret, e.rf))      \* recorded with a stored density of 0
    \union When(~DefaultStart(V(c0, "d")) /\ Valid(XOf(c0)) /\ Mode(e) = "0",
       LET x == XOf(c0)
           t == V(c0, "t")
           p == V(c0, "p")
           pred == RobustSearch(Fluid(e.k, x, t), p, FAbs(V(c0, "d")), FALSE)
       IN  When(SolveScope(t, p), When(pred.out = "ok", Root(e, c, pred))))
    \union When(~DefaultStart(V(c0, "d")) /\ Valid(XOf(c0)) /\ Mode(e) # "0" /\ e.k = "G" /\ Usable(V(c0, "t")) /\ Usable(V(c0, "p")),
       LET x == XOf(c0)
           t == V(c0, "t")
           p == V(c0, "p")
           pred == RobustSearch(Fluid("G", x, t), p, FAbs(V(c0, "d")), FALSE)
       IN  When(Between("59.99", t, "2000.1") /\ Between("1e-6", p, "1e6") /\ pred.out = "ok",
             When(PhaseCheck(PropsQ("G", x, t, pred.d)) = "yes", Root(e, c, pred)))))

(* Natural gas, one-to-one: relations among density calculations named by the arguments of a note.
     iso e1 e2 ...     at one temperature, in the order of their pressures
     heat e1 e2        at one pressure, at a lower and a higher temperature
     round e d         at the pressure that the equation gives at density d                                          *)
GasScope(x, t, p) == NaturalGas(x) /\ Between("249.999", t, "450.001") /\ FLt(Zero, p) /\ FLe(p, F("35000.1"))
P_S06(e, evs, x) ==
  When(e.op = "note" /\ e.a[1] \in {"iso", "heat", "round"},
    LET n == IF e.a[1] = "round" THEN 1 ELSE Len(e.a) - 1
        ev(j) == evs[IntOf(e.a[j + 1])]
        A(j, nm) == FHex(ev(j).f[Idx[nm]])
    IN  When(\A j \in 1..n : ev(j).fl = "" /\ GasScope(x, A(j, "t"), A(j, "p")),
          Must(\A j \in 1..n : ev(j).ret = "ok", "found")
          \union When(e.a[1] = "iso", Must(\A j \in 1..(n - 1) : FLt(A(j, "d"), A(j + 1, "d")), "denser at higher pressure"))
          \union When(e.a[1] = "heat", Must(FLt(A(2, "d"), A(1, "d")), "thinner at higher temperature"))
          \union When(e.a[1] = "round", Must(Same(A(1, "d"), FHex(e.a[3]), F("1e-6"), Zero), "there and back"))))
  \union When(e.op = "props" /\ e.fl = "",
    LET f(nm) == FHex(e.f[Idx[nm]])
        p == IF e.k = "D" THEN f("p") ELSE FHex(e.ret)
    IN  When(GasScope(x, f("t"), p) /\ FLt(F("1e-12"), f("d")) /\ FLe(f("d"), F("25")),
          {<<nm, FLt(Zero, f(nm))>> : nm \in {"z", "dp_dd", "dp_dt", "cv", "cp", "w"}}
          \union Must(FLt(f("cv"), f("cp")), "Cp > Cv")
          \union Must(FLe(F("0.3") (.) GasConstant(e.k) (.) f("t"), f("dp_dd")), "stiffness")))

(* -------------------------------------------------- histories -------------------------------------------------- *)
\* What op wrote, compared with what it writes on a new calculator.
FieldScale(nm, k, t, d) ==
  LET R == GasConstant(k)
      rt == FAbs(R (.) t)
  IN  CASE nm \in {"u", "h", "g", "dp_dd"} -> rt
        [] nm \in {"s", "cv", "cp", "d2p_dtd"} -> R
        [] nm = "p" -> FAbs(d (.) rt)
        [] nm = "z" -> One
        [] nm = "dp_dt" -> FAbs(d (.) R)
        [] OTHER -> Zero
Written(e) == CASE e.op = "density" -> IF e.ret # "ok" THEN {"d"} ELSE Writes("density", e.k, Mode(e))
                [] OTHER -> Writes(e.op, e.k, "")
SameAsNew(e, c) ==
  When(e.rret # "",
    LET t == V(c, "t")
        d == V(c, "d")
        Eq(a, b, scale) == Same(a, b, F("1e-11"), IF FIsFinite(scale) THEN scale ELSE Zero)
    IN  {<<nm, Eq(V(c, nm), FHex(e.rf[Idx[nm]]), FieldScale(nm, e.k, t, d))>> : nm \in Written(e)}
        \union (IF e.op \in {"pressure", "props", "mm"}
                THEN Must(e.rret # "panic" /\ Eq(FHex(e.ret), FHex(e.rret), FieldScale("p", e.k, t, d)), "returned")
                ELSE Must(e.ret = e.rret, "returned")))
\* Repetitions of one operation, without a change of an input between them.
Steady(e) == When(e.fl = "" /\ e.op \in {"spin", "swing"}, Must(e.ret = "same", "repeated"))
SteadyC(e) == When(e.op \in {"spin", "swing"} /\ e.cret \notin {"", "died"}, Must(e.cret = "same", "repeated (C)"))
P_H01(e, c0, c) ==
  When(e.fl = "" /\ IsCalc(e) /\ Valid(XOf(c)) /\ Usable(V(c, "t")), SameAsNew(e, c))
  \union When(Valid(XOf(c)) /\ Usable(V(c, "t")), Steady(e))

\* Through the C interface: a setter changes nothing that can be read, and what is calculated next is what it is in Rust.
P_C02C(e, c0, c, m) ==
  When(e.fl = "" /\ e.cret \notin {"", "died"},
    When(e.op = "setx" /\ m.cf # << >>, Must(e.cf = m.cf, "fields kept (C)"))
    \union When(e.op \in {"mm", "pressure"} /\ AllFinite(XOf(c)), Must(Bits(e.cret, e.ret), "stored (C)")))
  \union SteadyC(e)
P_C02(e, c0, c, m) ==
  When(e.fl = "" /\ e.op = "setx",
    Must(c0.f = c.f, "fields kept")
    \union (IF e.ret = "ok" THEN Must(c.x = e.a, "stored") ELSE Must(c.x = c0.x, "unchanged when rejected")))
  \union P_H01(e, c0, c)
  \union P_C02C(e, c0, c, m)

P_H02(e, c0, c) ==
  Must(e.oth = << >>, "another calculator changed")
  \union When(e.op = "threads", Must(FALSE, "returns"))                \* the process ended while several threads ran
  \union Must(e.cret # "died", "returns (C)")
  \union When(e.sret # "",
      Must(e.sret = "-" \o e.ret, "returned")
      \union Must(e.sf = e.f, "fields"))
  \union Must(e.coth = << >>, "another handle changed (C)")
  \union When(e.csret # "" /\ e.cret # "died",
      Must(e.csret = "-" \o e.cret, "returned (C)")
      \union Must(e.csf = e.cf, "fields (C)"))

P_H03(e, c0, c) ==
  When(e.fl = "" /\ IsCalc(e),
     Must(Changed(c0, c) \subseteq Writes(e.op, e.k, IF e.op = "density" THEN Mode(e) ELSE ""), "writes only its outputs")
     \union Must(c0.x = c.x, "composition kept")
     \union When(e.op = "props" /\ e.k = "D" /\ Between("1e-3", V(c, "t"), "1e6") /\ Between("0", V(c, "d"), "1e6") /\ FIsFinite(V(c, "z")),
          LET p == V(c, "z") (.) V(c, "d") (.) D!RD (.) V(c, "t")
          IN  Must(Same(V(c, "p"), p, F("1e-10"), F("1e-290")), "stored pressure is the calculated one")))
  \union When(e.op = "move", Must(c0.f = c.f /\ c0.x = c.x, "moving"))
  \union When(e.op = "raw",
     Must(Changed(c0, c) \subseteq {e.a[1]} /\ c.f[Idx[e.a[1]]] = e.a[2] /\ c0.x = c.x, "setting one input"))

(* ------------------------------------------------- C interface ------------------------------------------------- *)
P_F01(e, c0, c) ==
  Must(e.cret # "died", "returns")
  \union When(Valid(XOf(c)) /\ Usable(V(c, "t")), SteadyC(e))
  \union When(e.cret \notin {"", "died"},
    Must(IF e.op \in {"mm", "pressure"} THEN Bits(e.cret, e.ret)
          ELSE IF e.op \in {"density", "setx"} THEN e.cret = e.ret
          ELSE TRUE, "returned"))
  \union When(e.cret # "died" /\ e.cf # << >>,
      {<<nm, Bits(e.cf[Idx[nm]], e.f[Idx[nm]])>> : nm \in {FieldNames[i] : i \in {j \in 1..NF : e.cf[j] # ""}}}
      \union Must(Bits(e.cf[NF + 1], e.f[Idx["d"]]), "density in the record"))

(* A client compiled against the published interface: its composition record is taken for the composition that the Rust
   calculator was given by name, and position j of the property record is the quantity PropertyRecord[j].        *)
P_F03(e, c0, c) ==
  Must(e.cret # "died", "returns")
  \union When(e.op = "sym", Must(e.cret = "found", "exported"))
  \union When(e.op \in {"setx", "compact"} /\ e.cret \notin {"", "died"}, Must(e.cret = e.ret, "composition code"))
  \union When(e.op = "density" /\ e.cret \notin {"", "died"}, Must(e.cret = e.ret, "density code"))
  \union When(e.op \in {"mm", "pressure"} /\ e.cret \notin {"", "died"}, Must(Bits(e.cret, e.ret), "composition record"))
  \union When(e.op \in {"props", "raw"} /\ e.crec # << >>,
       {<<PropertyRecord[j], Bits(e.crec[j], e.f[Idx[PropertyRecord[j]]])>> : j \in 1..Len(PropertyRecord)})

(* --------------------------------------------------- robustness --------------------------------------------------- *)
P_X01(e, c0, c) ==
  Must(e.fl = "", "returns")
  \union When(e.fl = "" /\ e.op = "props",
       LET w == V(c, "w")
           w2 == (F("1000") (.) (V(c, "cp") (/) V(c, "cv")) (.) V(c, "dp_dd")) (/) V(c, "mm")
       IN  Must(~FLt(w, Zero), "W negative")
           \union When(FIsFinite(w2), Must(~FIsNaN(w), "W undefined")
                                      \union When(FLt(w2, Zero), Must(FEq(w, Zero), "W of an unstable state"))))
=============================================================================
