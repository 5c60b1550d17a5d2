------------------------------ MODULE IdentRuns ------------------------------
(* C02. The identification command as a state machine over what is saved for each network: the measurements R reads  *)
(* (which a new simulation may replace between two commands), the reference, the standard estimates, the Bayesian     *)
(* estimate with its history of iterations and the error covariances. What is saved is described by where it comes    *)
(* from: a record of everything its stage may depend on. A command goes through its stages one by one, may fail at    *)
(* each of them and leaves what it completed. The replay evaluates the records with the stages themselves.            *)
EXTENDS Num
CONSTANTS Nets, MaxCmds, Random
VARIABLES data,     \* network -> measurements saved by the simulation
          saved,    \* network -> stage -> where it comes from
          conf,     \* configuration
          cmd,      \* command under way
          pc,       \* its next stage, "idle" between commands
          hist,     \* what happened so far
          done
vars == <<data, saved, conf, cmd, pc, hist, done>>
\* a random value, drawn anew each time (TLC keeps the value of constant expressions)
Draw(e) == TLCEval(IF done THEN e ELSE e)
Stages == {"R", "S", "B", "U"}
None == [k |-> "none"]
\* ------------------------------------------------------------------ measurements: columns of each phase (or sequence)
Labels == {"0", "1", "2", "3"}
Versions(n) == CASE n \in {"a", "b"} -> {"s0", "s1", "s2"} [] n = "p" -> {"p0", "p1"} [] n = "q" -> {"q0", "q1"}
                 [] n = "x" -> {"x0"} [] OTHER -> {"none"}
Count(d, l) == CASE d \in {"s0", "s1"} -> (IF l = "1" THEN 3 ELSE 0)
                 [] d = "s2" -> (IF l = "1" THEN 2 ELSE 0)
                 [] d = "x0" -> (IF l = "1" THEN 29 ELSE 0)
                 [] d = "p0" -> (CASE l = "1" -> 3 [] l \in {"2", "3"} -> 2 [] OTHER -> 0)
                 [] d = "p1" -> (CASE l = "1" -> 2 [] l = "2" -> 3 [] OTHER -> 0)
                 [] d = "q0" -> (CASE l = "1" -> 3 [] l \in {"0", "2"} -> 2 [] OTHER -> 0)
                 [] d = "q1" -> (CASE l = "3" -> 0 [] OTHER -> 2)
                 [] OTHER -> 0
Chars(ph) == CASE ph = "012" -> {"0", "1", "2"} [] ph = "123" -> {"1", "2", "3"} [] ph = "12" -> {"1", "2"} [] OTHER -> {ph}
Joint(ph) == ph \in {"012", "123"}
Available(d, ph) == \A l \in Chars(ph) : Count(d, l) > 0
Size(d, ph) == SumSeq([k \in 1..4 |-> LET l == <<"0", "1", "2", "3">>[k] IN IF l \in Chars(ph) THEN Count(d, l) ELSE 0])
\* ------------------------------------------------------------------ commands
Allowed(c) == c.ph \in (IF c.seq THEN {"012", "0", "1", "2"} ELSE {"123", "1", "2", "3"})
Has(c, f) == f \in c.flags
Redo(c, f) == Has(c, f) \/ ~(Has(c, "s") \/ Has(c, "b"))
Its(c) == IF Redo(c, "b") /\ c.its > 0 THEN c.its ELSE 0
NoCmd == [net |-> "", ph |-> "", seq |-> FALSE, flags |-> {}, its |-> 0]
Default == [ll |-> 0, le |-> 0, lp |-> 0, tol |-> 0, reg |-> 0, sd |-> 0]
Ranges == [ll |-> 0..1, le |-> 0..1, lp |-> 0..1, tol |-> 0..1, reg |-> 0..2, sd |-> 0..2]
\* ------------------------------------------------------------------ where recomputed results come from
Ref(c, d) == [k |-> "R", data |-> d, ph |-> c.ph, lap |-> Has(c, "l")]
Std(c, d, g) == [k |-> "S", data |-> d, ph |-> c.ph, lap |-> Has(c, "l"), its |-> IF c.its > 0 THEN c.its ELSE 0,
                 ll |-> g.ll, tol |-> g.tol]
Bay(c, d, g, from) ==
    [k |-> "B", data |-> d, ph |-> c.ph, lap |-> Has(c, "l"), its |-> Its(c), le |-> g.le, lp |-> g.lp, tol |-> g.tol, reg |-> g.reg,
     weights |-> IF ~Has(c, "w") THEN "none" ELSE IF Has(c, "r") THEN "unsynchronized" ELSE "synchronized",
     sd |-> IF Has(c, "w") THEN g.sd ELSE 0, known |-> Has(c, "e") /\ ~Has(c, "l"),
     from |-> from,                              \* start and reference of the prior
     after |-> Has(c, "c")]                      \* its iterations follow those of where it comes from
Unc(c, d, g, b) == [k |-> "U", data |-> d, ph |-> c.ph, lap |-> Has(c, "l"), sd |-> g.sd, est |-> b]
\* ------------------------------------------------------------------ stages
Cur == saved[cmd.net]
D == data[cmd.net]
Keep(s, t) == saved' = [saved EXCEPT ![cmd.net][s] = t]
Finish(how) == /\ pc' = "idle" /\ cmd' = NoCmd
               /\ hist' = Append(hist, [cmd |-> cmd, conf |-> conf, data |-> D, how |-> how, saved |-> saved'[cmd.net]])
Go(next) == pc' = next /\ UNCHANGED <<cmd, hist>>
StageR == /\ pc = "R" /\ UNCHANGED <<data, conf, done>>
          /\ IF ~Allowed(cmd) \/ D = "none" THEN UNCHANGED saved /\ Finish("failed")
             ELSE IF ~Available(D, cmd.ph) THEN UNCHANGED saved /\ Finish("failed")
             ELSE Keep("R", Ref(cmd, D)) /\ Go("S")
StageS == /\ pc = "S" /\ UNCHANGED <<data, conf, done>>
          /\ IF Redo(cmd, "s") THEN Keep("S", Std(cmd, D, conf)) /\ Go("B")
             ELSE UNCHANGED saved /\ (IF Cur.S = None THEN Finish("failed") ELSE Go("B"))
StageB == /\ pc = "B" /\ UNCHANGED <<data, conf, done>>
          /\ IF Has(cmd, "c") /\ Cur.B = None THEN UNCHANGED saved /\ Finish("failed")
             ELSE IF Its(cmd) = 0 THEN UNCHANGED saved /\ (IF Cur.B = None THEN Finish("failed") ELSE Go("U"))
             ELSE IF cmd.ph = "123" THEN UNCHANGED saved /\ Finish("failed")
             ELSE Keep("B", Bay(cmd, D, conf, IF Has(cmd, "c") THEN Cur.B ELSE Cur.S)) /\ Go("U")
StageU == /\ pc = "U" /\ UNCHANGED <<data, conf, done>>
          /\ (IF Has(cmd, "u") /\ ~Has(cmd, "r") /\ ~Joint(cmd.ph) THEN Keep("U", Unc(cmd, D, conf, Cur.B)) ELSE UNCHANGED saved)
          /\ Finish("done")
\* ------------------------------------------------------------------ histories
\* commands of the scope: estimates of one size are not continued with (nor judged against) data of another size,
\* and exactly known lines, which are those of the large networks, are not asked for in the small ones
Fits(t, d, ph) == IF t = None THEN TRUE ELSE Size(t.data, t.ph) = Size(d, ph)
InScope(c) == LET d == data[c.net] a == saved[c.net] IN
    /\ ~Has(c, "c") /\ ~Redo(c, "s") => Fits(a.S, d, c.ph)
    /\ Has(c, "c") => Fits(a.B, d, c.ph)
    /\ Has(c, "u") /\ Its(c) = 0 => Fits(a.B, d, c.ph)
    /\ Has(c, "e") => c.net = "x" \/ Has(c, "l")
Start(c) == InScope(c) /\ cmd' = c /\ pc' = "R"
Good(n) == CASE n \in {"a", "b", "x"} -> {<<"1", FALSE>>, <<"1", TRUE>>}
             [] n = "p" -> {<<"1", FALSE>>, <<"2", FALSE>>, <<"3", FALSE>>, <<"1", TRUE>>, <<"2", TRUE>>} \cup (IF saved[n].B = None THEN {} ELSE {<<"123", FALSE>>})
             [] n = "q" -> {<<"012", TRUE>>, <<"0", TRUE>>, <<"1", TRUE>>, <<"2", TRUE>>, <<"1", FALSE>>}
             [] OTHER -> {<<"1", FALSE>>}
Bad == {<<"12", FALSE>>, <<"3", TRUE>>, <<"0", FALSE>>, <<"", FALSE>>, <<"012", FALSE>>, <<"123", TRUE>>, <<"1 3", FALSE>>, <<"3", FALSE>>, <<"123", FALSE>>}
RandFlags(n, z) == {f \in {"s", "b", "c", "l", "w", "u", "r", "v"} :
                     RandInt(0, 99) < (CASE f = "s" -> (IF saved[n].B = None THEN 3 ELSE 15) [] f = "b" -> (IF saved[n].S = None THEN 3 ELSE 30) [] f = "c" -> (IF saved[n].B = None THEN 3 ELSE 30)
                                         [] f = "l" -> 30 [] f = "w" -> 45 [] f = "u" -> 30 [] f = "r" -> 25 [] OTHER -> 20)}
                   \cup {f \in {"e"} : RandInt(0, 9) < (IF n = "x" THEN 7 ELSE 1)}
RandCmd(n, g, z) == [net |-> n, ph |-> g[1], seq |-> g[2], flags |-> RandFlags(n, z),
                     its |-> IF n = "x" THEN 1 ELSE RandomElement(IF saved[n].B = None THEN {1, 2, 5} ELSE {0, 1, 2, 3, 5, -1})]
Small == {[net |-> n, ph |-> "1", seq |-> FALSE, flags |-> f, its |-> i] : n \in Nets, f \in SUBSET {"s", "b", "c", "u"}, i \in {0, 1}}
         \cup {[net |-> n, ph |-> p, seq |-> p = "012", flags |-> f, its |-> 1] : n \in Nets, p \in {"012", "123", "12", "3"}, f \in {{}, {"b"}, {"c"}}}
Command ==
    /\ ~done /\ pc = "idle" /\ Len(hist) < MaxCmds /\ UNCHANGED <<saved, hist, done>>
    /\ IF Random
       THEN \E n \in {Draw(RandomElement(IF RandInt(1, 12) = 1 THEN Nets ELSE Nets \ {"none"}))}, m \in {Draw(RandInt(0, 11))}, k \in {Draw(RandomElement(DOMAIN Ranges))}, j \in {Draw(RandInt(0, 9))} :
            \E g \in {Draw(IF m = 0 THEN RandomElement(Bad) ELSE IF n = "q" /\ m > 5 THEN <<"012", TRUE>> ELSE RandomElement(Good(n)))}, v \in {Draw(RandomElement(Versions(n)))},
               r \in {Draw(RandomElement(Ranges[k]))} :
               /\ data' = IF j = 1 THEN [data EXCEPT ![n] = v] ELSE data
               /\ conf' = IF j >= 6 THEN [conf EXCEPT ![k] = r] ELSE conf
               /\ \E c \in {Draw(RandCmd(n, g, 0))} : (data' = data /\ Start(c)) \/ (data' # data /\ cmd' = NoCmd /\ pc' = pc)
       ELSE /\ \E c \in Small, g \in {Default, [Default EXCEPT !.ll = 1, !.le = 1]} : conf' = g /\ Start(c)
            /\ UNCHANGED data
Stop == ~done /\ pc = "idle" /\ Len(hist) = MaxCmds /\ done' = TRUE /\ UNCHANGED <<data, saved, conf, cmd, pc, hist>>
\* a draw out of scope is drawn again
Retry == ~done /\ pc = "idle" /\ Random /\ Len(hist) < MaxCmds /\ UNCHANGED vars
Init == /\ data \in {[n \in Nets |-> CHOOSE v \in Versions(n) : v \in {"s0", "p0", "q0", "x0", "none"}]}
        /\ saved = [n \in Nets |-> [s \in Stages |-> None]] /\ conf = Default /\ cmd = NoCmd /\ pc = "idle"
        /\ hist = <<>> /\ done = FALSE
Next == Command \/ Retry \/ StageR \/ StageS \/ StageB \/ StageU \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(StageR \/ StageS \/ StageB \/ StageU)
\* ------------------------------------------------------------------ theorems
View == <<data, saved, conf, cmd, pc, Len(hist), IF hist = <<>> THEN <<>> ELSE <<hist[Len(hist)]>>>>
Last == hist[Len(hist)]
Atend == hist # <<>> /\ pc = "idle"
\* a command that ends well leaves the reference of its data, and estimates that derive from it or were kept on demand
InvFresh == Atend /\ Last.how = "done" =>
    LET c == Last.cmd a == Last.saved d == Last.data IN
    /\ a.R = Ref(c, d)
    /\ (Redo(c, "s") => a.S = Std(c, d, Last.conf))
    /\ (Its(c) > 0 => a.B.data = d /\ a.B.ph = c.ph /\ a.B.its = c.its)
    /\ (Its(c) > 0 /\ ~Has(c, "c") => a.B.from = a.S)
    /\ (Has(c, "u") /\ a.U # None /\ ~Joint(c.ph) /\ ~Has(c, "r") => a.U.est = a.B)
\* one without any flag that keeps or continues depends on nothing but itself, its data and the configuration
InvComplete == Atend /\ Last.how = "done" /\ Its(Last.cmd) > 0 /\ Redo(Last.cmd, "s") /\ ~Has(Last.cmd, "c") =>
    Last.saved.B = Bay(Last.cmd, Last.data, Last.conf, Std(Last.cmd, Last.data, Last.conf))
\* data that are not there, or phases without data, change nothing; there is no joint estimate of three phases
InvRefused == Atend /\ (~Allowed(Last.cmd) \/ Last.data = "none" \/ ~Available(Last.data, Last.cmd.ph)) => Last.how = "failed"
InvJoint == \A n \in Nets : saved[n].B = None \/ saved[n].B.ph # "123"
RECURSIVE Depth(_)
Depth(t) == IF t.k # "B" THEN 0 ELSE 1 + (IF t.after THEN Depth(t.from) ELSE 0)
Touched == [][\A n \in Nets, s \in Stages : saved'[n][s] # saved[n][s] =>
    /\ n = cmd.net /\ s = pc /\ Allowed(cmd) /\ Available(data[n], cmd.ph)
    /\ (s = "S" => Redo(cmd, "s")) /\ (s = "B" => Redo(cmd, "b") /\ cmd.its > 0) /\ (s = "U" => Has(cmd, "u"))]_vars
ConfKept == [][pc # "idle" => conf' = conf /\ data' = data]_vars
\* continuing keeps every earlier iteration: the chain of runs grows by one
Continued == [][\A n \in Nets : saved'[n].B # saved[n].B /\ Has(cmd, "c") => Depth(saved'[n].B) = Depth(saved[n].B) + 1]_vars
Ends == pc # "idle" ~> pc = "idle"
EmitCase == done => Emit([nets |-> Nets, cmds |-> hist])
=============================================================================
