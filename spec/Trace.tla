-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validation of a trace recorded from the real code: a linear behaviour   *)
(* of System (each event is one of its actions) in which every observed    *)
(* answer is judged by one property.  A broken clause is printed as        *)
(* <<"BAD", line, clauses>>; the whole trace is always consumed.           *)
(***************************************************************************)
EXTENDS Props, Json, IOUtils

VARIABLE l
vars == <<mk, mt, byId, raw, seen, l>>

T == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

Judge(e) ==
    IF e.op = "broken" THEN {"broken: " \o e.exc}
    ELSE IF e.op = "bare" THEN BareMake(e)
    ELSE CASE Prop = "C01" -> C01(e) [] Prop = "C02" -> C02(e) [] Prop = "C03" -> C03(e)
      [] Prop = "C04" -> C04(e) [] Prop = "C05" -> C05(e) [] Prop = "C06" -> C06(e)
      [] Prop = "C07" -> C07(e) [] Prop = "C08" -> C08(e) [] Prop = "C09" -> C09(e)
      [] Prop = "C10" -> C10(e) [] Prop = "C11" -> C11(e) [] Prop = "C12" -> C12(e)
      [] Prop = "C13" -> C13(e) [] Prop = "C14" -> C14(e) [] Prop = "C15" -> C15(e)
      [] Prop = "C16" -> C16(e) [] Prop = "C17" -> C17(e) [] Prop = "C18" -> C18(e)
      [] Prop = "C19" -> C19(e) [] Prop = "C20" -> C20(e) [] Prop = "C21" -> C21(e)
      [] Prop = "C22" -> C22(e) [] Prop = "C23" -> C23(e) [] Prop = "C24" -> C24(e)
      [] Prop = "C25" -> C25(e) [] Prop = "C26" -> C26(e) [] Prop = "C27" -> C27(e)

\* What the event adds to the record of answers.
Learn(e) ==
    CASE Prop = "C26" -> IF CalmKey(e) = <<>> THEN seen ELSE Remember("calm", CalmKey(e), CalmVal(e))
      [] e.op = "make" /\ ~Failed(e) ->
           IF Prop = "C24"
           THEN [seen EXCEPT !["final"] =
                   seen["final"] @@
                   F([x \in {<<mk[e.k].m, Mem(e.cl[j])>> : j \in Sub(e.cl)} |->
                        e.cl[CHOOSE j \in Sub(e.cl) : <<mk[e.k].m, Mem(e.cl[j])>> = x].pat])]
           ELSE IF Prop = "C22"
           THEN LET S == {g \in SigsOf(Urls(e.k)) : ~Before("iso", IsoKey(e.k, g))}
                IN  [seen EXCEPT !["iso"] =
                       F([x \in {IsoKey(e.k, g) : g \in S} |->
                            IsoVal(e, CHOOSE g \in S : IsoKey(e.k, g) = x)]) @@ seen["iso"]]
           ELSE IF \E u \in Urls(e.k) : \A i \in mk[e.k].urls[u] : i <= 0 THEN seen \* not all members told
           ELSE Remember("make", MakeKey(e.k), Norm(e.cl))
      [] e.op = "combine" /\ ~Failed(e) ->
           Remember("ete", MakeKey(e.k), Bagged(Cat([i \in Sub(e.trees) |-> e.trees[i].ete])))
      [] e.op = "match" /\ ~Failed(e) /\ Prop \in {"C03", "C14", "C15", "C18", "C20"} ->
           LET k == IF Prop = "C18" THEN Spelled(e) ELSE Answer(e)
               a == Remember("match", MatchKey(e), k)
           IN  IF e.rank = <<>> \/ Before("rank", k) \/ ~Ranked(e) THEN a
               ELSE [a EXCEPT !["rank"] =
                       Set(a["rank"], k, IF Prop = "C18" THEN RankSpelled(e) ELSE RankVal(e))]
      [] e.op = "clilog" -> Remember("quiet", QuietKey(e), QuietVal(e))
      [] e.op = "digest" /\ ~Failed(e) /\ DigestKey(e) # <<>> ->
           Remember("digest", DigestKey(e), e.d)
      [] OTHER -> seen

Step(e) ==
    CASE e.op = "reset" -> \* a new process
           /\ mk' = EmptyFun /\ mt' = EmptyFun
           /\ byId' = EmptyFun /\ raw' = (0 :> <<>>) /\ seen' = Nothing
      [] e.op = "maker" -> \* a new maker in the same process
           /\ mk' = Set(mk, e.k, NewMaker(e.m)) /\ UNCHANGED <<mt, byId, raw, seen>>
      [] e.op = "matcher" ->
           /\ mt' = Set(mt, e.k, NewMatcher) /\ UNCHANGED <<mk, byId, raw, seen>>
      [] e.op = "load" ->
           /\ LoadUrl(e.k, e.u, ToSet(e.x))
           /\ byId' = IF e.x # <<>> /\ e.x[1] > 0 THEN Set(byId, e.x[1], ParseUrl(e.u)) ELSE byId
           /\ raw' = IF e.x # <<>> /\ e.x[1] > 0 THEN Set(raw, e.x[1], e.u) ELSE raw
           /\ seen' = Learn(e)
      [] e.op = "loadp" ->
           /\ LoadPattern(e.k, e.p, ToSet(e.x))
           /\ raw' = IF e.x # <<>> THEN Set(raw, e.x[1], e.p) ELSE raw
           /\ UNCHANGED byId
           /\ seen' = Learn(e)
      [] OTHER -> \* questions change nothing
           /\ Ask /\ UNCHANGED <<byId, raw>>
           /\ seen' = Learn(e)

Init == mk = EmptyFun /\ mt = EmptyFun /\ byId = EmptyFun /\ raw = (0 :> <<>>) /\ seen = Nothing /\ l = 1

Next ==
    /\ l <= Len(T)
    /\ LET e == T[l]
           bad == Judge(e)
       IN  /\ IF bad = {} THEN TRUE ELSE PrintT(<<"BAD", l, bad>>)
           /\ Step(e)
    /\ l' = l + 1

Spec == Init /\ [][Next]_vars
Done == TLCGet("stats").diameter - 1 = Len(T)
=============================================================================
