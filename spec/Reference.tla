------------------------------ MODULE Reference ------------------------------
(* The two equations of state of this specification against facts that do not come from the code: the published
   reference values of both equations (NIST, AGA8 code), the atomic weights, the critical points, boiling points and
   heat capacities of the 21 components as tabulated elsewhere, the agreement of the two independently published
   equations with each other, and the agreement of the derivatives with difference quotients.

   One state for each fact; nothing here concerns the implementation.                                              *)
EXTENDS DensitySolver, Approx
CONSTANT Equations                \* {"D"}, {"G"} or both

LOCAL Props(k, x, t, d) == IF k = "D" THEN D!DProperties(x, t, d) ELSE G!GProperties(x, t, d)
LOCAL Pure(i) == FVec([j \in 1..NC |-> IF j = i THEN One ELSE Zero])
LOCAL Half(i, j) == FVec([k \in 1..NC |-> IF k \in {i, j} THEN F("0.5") ELSE Zero])
LOCAL Rel(a, b, r) == FLe(FAbs(a (-) b), F(r) (.) FAbs(b))

(* -------------------------------------- published reference values -------------------------------------- *)
LOCAL Mix == FDecVec(<<"0.77824", "0.02", "0.06", "0.08", "0.03", "0.0015", "0.003", "0.0005", "0.00165", "0.00215", "0.00088",
                       "0.00024", "0.00015", "0.00009", "0.004", "0.005", "0.002", "0.0001", "0.0025", "0.007", "0.001">>)
Published ==
  [D |-> [d |-> "12.80792403648801", mm |-> "20.54333051", z |-> "1.173801364147326", dp_dd |-> "6971.38769092409",
          d2p_dd2 |-> "1118.80363663952", dp_dt |-> "235.6641493068212", u |-> "-2739.134175817231", h |-> "1164.699096269404",
          s |-> "-38.54882684677111", cv |-> "39.12076154430332", cp |-> "58.54617672380667", w |-> "712.6393684057903",
          g |-> "16584.22983497785", jt |-> "7.432969304794577e-5", kappa |-> "2.672509225184606"],
   G |-> [d |-> "12.79828626082062", mm |-> "20.5427445016", z |-> "1.174690666383717", dp_dd |-> "7000.694030193327",
          d2p_dd2 |-> "1129.526655214841", dp_dt |-> "235.9832292593096", u |-> "-2746.49290121253", h |-> "1160.280160510973",
          s |-> "-38.57590392409089", cv |-> "39.02948218156372", cp |-> "58.45522051000366", w |-> "714.4248840596024",
          g |-> "16590.64173014733", jt |-> "7.155629581480913e-5", kappa |-> "2.683820255058032"]]
LOCAL PublishedHolds(k) ==
  LET r == Published[k]
      found == SearchFrom(Fluid(k, Mix, F("400")), F("50000"), IdealDensity(k, F("50000"), F("400")))
      q == Props(k, Mix, F("400"), F(r.d))
  IN  /\ found.out = "ok" /\ Rel(found.d, F(r.d), "1e-10")
      /\ \A nm \in DOMAIN r \ {"d"} : Rel(q[nm].v, F(r[nm]), "1e-11")
      /\ Rel(q.p.v, F("50000"), "1e-11")

(* ------------------------------------------------- atomic weights ------------------------------------------------- *)
LOCAL Atoms == <<"12.0107", "1.00794", "14.0067", "15.9994", "32.065", "4.002602", "39.948">>        \* C H N O S He Ar
LOCAL Formula ==
  <<<<1, 4, 0, 0, 0, 0, 0>>, <<0, 0, 2, 0, 0, 0, 0>>, <<1, 0, 0, 2, 0, 0, 0>>, <<2, 6, 0, 0, 0, 0, 0>>, <<3, 8, 0, 0, 0, 0, 0>>,
    <<4, 10, 0, 0, 0, 0, 0>>, <<4, 10, 0, 0, 0, 0, 0>>, <<5, 12, 0, 0, 0, 0, 0>>, <<5, 12, 0, 0, 0, 0, 0>>, <<6, 14, 0, 0, 0, 0, 0>>,
    <<7, 16, 0, 0, 0, 0, 0>>, <<8, 18, 0, 0, 0, 0, 0>>, <<9, 20, 0, 0, 0, 0, 0>>, <<10, 22, 0, 0, 0, 0, 0>>, <<0, 2, 0, 0, 0, 0, 0>>,
    <<0, 0, 0, 2, 0, 0, 0>>, <<1, 0, 0, 1, 0, 0, 0>>, <<0, 2, 0, 1, 0, 0, 0>>, <<0, 2, 0, 0, 1, 0, 0>>, <<0, 0, 0, 0, 0, 1, 0>>,
    <<0, 0, 0, 0, 0, 0, 1>>>>
LOCAL MassHolds(k, i) ==
  LET m == FSum([a \in 1..7 |-> FI(Formula[i][a]) (.) F(Atoms[a])])
  IN  FLe(FAbs(Props(k, Pure(i), F("300"), Zero).mm.v (-) m), F("0.005"))

(* ------------------------------ critical points [kPa]; heat capacities at 298.15 K ------------------------------ *)
LOCAL Pc == <<"4599.2", "3395.8", "7377.3", "4871.8", "4248", "3630", "3796", "3378", "3370", "3034", "2736", "2497", "2281", "2103",
              "1315", "5043", "3494", "22064", "9000", "227.5", "4863">>
LOCAL Cp0 == <<"35.7", "29.12", "37.13", "52.5", "73.6", "96.6", "98.5", "118.9", "120.0", "142.6", "165.2", "187.8", "210.4", "233.1",
               "28.84", "29.38", "29.14", "33.58", "34.2", "20.786", "20.786">>
LOCAL CriticalHolds(i) ==
  LET t == G!TCrit(i)
      d == G!DCrit(i)
      q == G!GProperties(Pure(i), t, d)
      rt == G!RG (.) t
  IN  /\ Rel(q.p.v, F(Pc[i]), "0.004")
      /\ FLe(FAbs(q.dp_dd.v), F("0.005") (.) rt)
      /\ FLe(FAbs(q.d2p_dd2.v (.) d), F("0.04") (.) rt)
LOCAL HeatHolds(k, i) == Rel(Props(k, Pure(i), F("298.15"), Zero).cp.v, F(Cp0[i]), "0.005")

(* Boiling points [K] at 101.325 kPa; of carbon dioxide the triple point.  Liquid and vapour have the same Gibbs energy. *)
LOCAL Tb == <<"111.667", "77.355", "216.592", "184.569", "231.036", "261.401", "272.66", "300.98", "309.21", "341.86", "371.53", "398.77",
              "423.91", "447.27", "20.38", "90.188", "81.64", "373.124", "212.85", "4.222", "87.302">>
RECURSIVE Bisect(_, _, _, _, _)
Bisect(e, p, lo, hi, n) ==
  LET d == (lo (+) hi) (/) Two
  IN  IF n = 0 THEN d
      ELSE IF FLt(PandSlope(e, d).p, p) THEN Bisect(e, p, d, hi, n - 1) ELSE Bisect(e, p, lo, d, n - 1)
LOCAL BoilingHolds(i) ==
  LET t == F(Tb[i])
      p == IF i = 3 THEN F("517.95") ELSE F("101.325")
      e == Fluid("G", Pure(i), t)
      v == SearchFrom(e, p, IdealDensity("G", p, t))
      l == Bisect(e, p, F("1.6") (.) G!DCrit(i), F("4") (.) G!DCrit(i), 50)
      gv == G!GProperties(Pure(i), t, v.d).g.v
      gl == G!GProperties(Pure(i), t, l).g.v
  IN  /\ v.out = "ok"
      /\ FLt(F("5") (.) v.d, l)
      /\ FLe(FAbs(gv (-) gl), F("0.005") (.) G!RG (.) t)

(* ----------------------- second virial coefficients of the two equations, pure and of pairs ----------------------- *)
LOCAL Virial(k, x, t) == LET d == F("1e-9") IN D!Residual01(Terms(Fluid(k, x, t), d)).v (/) d
LOCAL Size(i) == One (/) G!DCrit(i)
\* heavy hydrocarbons are described differently far below their critical temperature
LOCAL VirialTol(i, t) == IF i = 18 THEN "1.3" ELSE IF i >= 10 /\ i <= 14 THEN (IF t = "350" THEN "2.5" ELSE "1") ELSE IF i \in 6..9 THEN "0.1" ELSE "0.05"
LOCAL VirialHolds(i, t) == FLe(FAbs(Virial("D", Pure(i), F(t)) (-) Virial("G", Pure(i), F(t))), F(VirialTol(i, t)) (.) Size(i))
LOCAL Cross(k, i, j, t) == (F("2") (.) Virial(k, Half(i, j), t)) (-) ((Virial(k, Pure(i), t) (+) Virial(k, Pure(j), t)) (/) F("2"))
LOCAL CrossHolds(i, j) ==
  LET t == F("350")
      tol == CASE i <= 4 /\ j <= 4 -> "0.03"                                \* methane, nitrogen, carbon dioxide, ethane
               [] i <= 2 /\ j \in {15, 17, 19, 21} -> "0.02"
               [] OTHER -> "0.16"
  IN  FLe(FAbs(Cross("D", i, j, t) (-) Cross("G", i, j, t)), F(tol) (.) ((Size(i) (+) Size(j)) (/) F("2")))

(* ------------------------------------ derivatives and difference quotients ------------------------------------ *)
LOCAL Derivs(k, x, t, d) ==
  LET h == F("1e-4")
      Dd(nm) == LET a == Props(k, x, t, d (.) (One (-) h))
                    b == Props(k, x, t, d (.) (One (+) h))
                IN  (b[nm].v (-) a[nm].v) (/) (F("2") (.) h (.) d)
      Dt(nm) == LET a == Props(k, x, t (.) (One (-) h), d)
                    b == Props(k, x, t (.) (One (+) h), d)
                IN  (b[nm].v (-) a[nm].v) (/) (F("2") (.) h (.) t)
      q == Props(k, x, t, d)
      rt == GasConstant(k) (.) t
      Ok(a, b, scale) == FLe(FAbs(a (-) b), F("1e-5") (.) (FAbs(a) (+) scale))
  IN  /\ Ok(q.dp_dd.v, Dd("p"), rt)
      /\ Ok(q.d2p_dd2.v, Dd("dp_dd"), rt (/) d)
      /\ Ok(q.dp_dt.v, Dt("p"), d (.) GasConstant(k))
      /\ Ok(q.d2p_dtd.v, Dt("dp_dd"), GasConstant(k))
      /\ Ok(q.cv.v, Dt("u"), GasConstant(k))
      /\ Ok(q.cv.v (/) t, Dt("s"), GasConstant(k) (/) t)
      /\ Ok(FNeg(q.dp_dt.v) (/) (d (.) d), Dd("s"), GasConstant(k) (/) d)

(* ------------------------------------------------------ cases ------------------------------------------------------ *)
VARIABLE fact
LOCAL Named(name, k, i, j) == [what |-> name, k |-> k, i |-> i, j |-> j]
\* fact "all", then one "group" for each component, then the facts of the group (so that they are shared out to the workers)
Group(i) ==
  {Named(w, k, i, 0) : w \in {"mass", "heat", "derivatives"}, k \in Equations}
  \union {Named(w, "G", i, 0) : w \in {v \in {"critical", "boiling"} : "G" \in Equations}}
  \union {Named("published", k, i, 0) : k \in {q \in Equations : i = 1}}
  \union {Named("virial", "-", i, j) : j \in {i} \union (i+1..7) \union {q \in {15, 16, 17, 19, 20, 21} : i <= 2}}
Init == fact = Named("all", "-", 0, 0)
Next == \/ fact.what = "all" /\ \E i \in 1..NC : fact' = Named("group", "-", i, 0)
        \/ fact.what = "group" /\ fact' \in Group(fact.i)
Spec == Init /\ [][Next]_fact
FactsHold ==
  CASE fact.what \in {"all", "group"} -> TRUE
    [] fact.what = "published" -> PublishedHolds(fact.k)
    [] fact.what = "mass" -> MassHolds(fact.k, fact.i)
    [] fact.what = "heat" -> HeatHolds(fact.k, fact.i)
    [] fact.what = "derivatives" -> /\ Derivs(fact.k, Half(fact.i, (fact.i % NC) + 1), F("300"), F("5"))
                                    /\ Derivs(fact.k, Pure(fact.i), G!TCrit(fact.i) (.) F("1.2"), G!DCrit(fact.i) (.) F("0.7"))
    [] fact.what = "critical" -> CriticalHolds(fact.i)
    [] fact.what = "boiling" -> BoilingHolds(fact.i)
    [] fact.what = "virial" -> IF fact.i = fact.j THEN VirialHolds(fact.i, "350") /\ VirialHolds(fact.i, "450")
                               ELSE CrossHolds(fact.i, fact.j)
=============================================================================
