------------------------------ MODULE SimRuns ------------------------------
(* C01. The simulation command as a state machine over what is saved for each network. Data are described by where  *)
(* they come from: a record with everything the stage may depend on. A command goes through its stages one by one,   *)
(* may fail at each of them (missing archive, missing or unreadable profiles, power flow without a solution,         *)
(* filter longer than the data) and leaves the stages it completed. Histories of commands with configuration         *)
(* changes in between are generated; what each command of the history must leave behind is emitted with them.        *)
EXTENDS Num
CONSTANTS Singles, Triples, MaxCmds, Random
VARIABLES saved,    \* network -> stage -> where it comes from
          conf,     \* configuration
          cmd,      \* command under way
          pc,       \* its next stage, "idle" between commands
          hist,     \* what happened so far
          done
vars == <<saved, conf, cmd, pc, hist, done>>
\* a random value, drawn anew each time (TLC keeps the value of constant expressions)
Draw(e) == TLCEval(IF done THEN e ELSE e)
Nets == Singles \cup Triples
Stages == {"L", "S", "F", "X"}
None == [k |-> "none"]
NoCmd == [net |-> "", flags |-> {}, src |-> "", e |-> FALSE, lap |-> FALSE, seq |-> FALSE]
Confs == [seed |-> {131, 7}, sd |-> {"none", "vm", "cm", "vp", "cp"}, hidden |-> {{}, {2}, {4}}, const |-> BOOLEAN,
          constness |-> {84, 50}, weeks |-> {0, 1}, steps |-> {3, 5, 100000}]
Default == [seed |-> 131, sd |-> "none", hidden |-> {2}, const |-> TRUE, constness |-> 84, weeks |-> 0, steps |-> 3]
Srcs == {"g1", "g2", "gbad", "prof", "missing", "broken"}
Flagsets == {{}, {"p"}, {"s"}, {"d"}, {"p", "s"}, {"p", "d"}, {"s", "d"}, {"p", "s", "d"}}
Redo(c, f) == c.flags = {} \/ f \in c.flags
\* ------------------------------------------------------------------ where recomputed data come from
Loads(c, cf) == [k |-> "L", net |-> c.net, src |-> c.src, seed |-> cf.seed,
                 weeks |-> IF c.src = "prof" THEN cf.weeks ELSE 0,
                 fixed |-> IF cf.const THEN cf.hidden ELSE {},
                 by |-> IF cf.const /\ cf.hidden # {} THEN cf.constness ELSE 0]
Flow(c, l) == [k |-> "S", net |-> c.net, loads |-> l]
Noisy(c, cf, s) == [k |-> "F", net |-> c.net, sim |-> s, seed |-> cf.seed, sd |-> cf.sd, e |-> c.e, steps |-> cf.steps]
\* (three-phase networks are reduced in the same way with or without the laplacian flag)
Final(c, cf, f) == [k |-> "X", net |-> c.net, noisy |-> f, hidden |-> cf.hidden, lap |-> c.lap /\ c.net \in Singles, seq |-> c.seq,
                    own |-> f.steps = cf.steps]
\* ------------------------------------------------------------------ stages
Cur == saved[cmd.net]
Keep(what) == saved' = [saved EXCEPT ![cmd.net] = what]
Finish(how) == /\ pc' = "idle" /\ cmd' = NoCmd
               /\ hist' = Append(hist, [cmd |-> cmd, conf |-> conf, how |-> how, saved |-> saved'])
Go(next) == pc' = next /\ UNCHANGED <<cmd, hist>>
StageL == /\ pc = "L" /\ UNCHANGED <<conf, done>>
          /\ IF Redo(cmd, "p")
             THEN IF cmd.src = "missing" THEN UNCHANGED saved /\ Finish("refused")
                  ELSE IF cmd.src = "broken" THEN UNCHANGED saved /\ Finish("failed")
                  ELSE Keep([Cur EXCEPT !.L = Loads(cmd, conf)]) /\ Go("S")
             ELSE UNCHANGED saved /\ IF Cur.L = None THEN Finish("failed") ELSE Go("S")
StageS == /\ pc = "S" /\ UNCHANGED <<conf, done>>
          /\ IF Redo(cmd, "s")
             THEN IF Cur.L.src = "gbad" THEN UNCHANGED saved /\ Finish("failed")
                  ELSE Keep([Cur EXCEPT !.S = Flow(cmd, Cur.L)]) /\ Go("F")
             ELSE UNCHANGED saved /\ IF Cur.S = None THEN Finish("failed") ELSE Go("F")
StageF == /\ pc = "F" /\ UNCHANGED <<conf, done>>
          /\ IF Redo(cmd, "d")
             THEN IF conf.steps > 1000 THEN UNCHANGED saved /\ Finish("failed")
                  ELSE Keep([Cur EXCEPT !.F = Noisy(cmd, conf, Cur.S)]) /\ Go("X")
             ELSE UNCHANGED saved /\ IF Cur.F = None THEN Finish("failed") ELSE Go("X")
StageX == /\ pc = "X" /\ UNCHANGED <<conf, done>>
          /\ Keep([Cur EXCEPT !.X = Final(cmd, conf, Cur.F)]) /\ Finish("done")
\* ------------------------------------------------------------------ commands and configuration changes
Start(c) == cmd' = c /\ pc' = "L"
Net(n) == n \in Triples
RandFlags(z) == IF RandInt(0, 4) = 0 THEN {} ELSE RandomElement(Flagsets)
Weighted(m, t) == CASE m <= 5 -> "g1" [] m = 6 -> "g2" [] m <= 8 -> "prof" [] OTHER -> t
RandCmd(n, m, z) ==
    [net |-> n, flags |-> IF saved[n].X = None /\ m # 3 THEN {} ELSE RandFlags(0),
     src |-> Weighted(m, RandomElement({"gbad", "missing", "broken"})), e |-> RandInt(0, 3) = 0, lap |-> RandInt(0, 2) = 0,
     seq |-> Net(n) /\ RandInt(0, 1) = 0]
RandConf(k, m) == CASE m <= 5 -> conf
                    [] m <= 6 -> Default
                    [] k = "steps" -> IF conf.steps = 3 THEN [conf EXCEPT !.steps = RandomElement({5, 100000})] ELSE Default
                    [] OTHER -> [conf EXCEPT ![k] = RandomElement(Confs[k])]
Small == {[net |-> n, flags |-> f, src |-> s, e |-> FALSE, lap |-> l, seq |-> FALSE] :
          n \in Nets, f \in Flagsets, s \in {"g1", "gbad", "missing"}, l \in {FALSE}}
SmallConfs == {[Default EXCEPT !.seed = s, !.steps = t] : s \in {131, 7}, t \in {3, 100000}}
Command == /\ ~done /\ pc = "idle" /\ Len(hist) < MaxCmds /\ UNCHANGED <<saved, hist, done>>
           /\ IF Random THEN \E n \in {Draw(RandomElement(Nets))}, m \in {Draw(RandInt(0, 11))}, k \in {Draw(RandomElement(DOMAIN Default))}, j \in {Draw(RandInt(0, 9))} :
                                  /\ \E c \in {Draw(RandCmd(n, m, 0))} : Start(c)
                                  /\ \E g \in {Draw(RandConf(k, j))} : conf' = g
              ELSE \E c \in Small, g \in SmallConfs : Start(c) /\ conf' = g
Stop == ~done /\ pc = "idle" /\ Len(hist) = MaxCmds /\ done' = TRUE /\ UNCHANGED <<saved, conf, cmd, pc, hist>>
Init == /\ saved = [n \in Nets |-> [s \in Stages |-> None]] /\ conf = Default /\ cmd = NoCmd /\ pc = "idle"
        /\ hist = <<>> /\ done = FALSE
Next == Command \/ StageL \/ StageS \/ StageF \/ StageX \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(StageL \/ StageS \/ StageF \/ StageX)
\* ------------------------------------------------------------------ theorems
View == <<saved, conf, cmd, pc, Len(hist), IF hist = <<>> THEN <<>> ELSE <<hist[Len(hist)]>>>>
Last == hist[Len(hist)]
Before == IF Len(hist) = 1 THEN [n \in Nets |-> [s \in Stages |-> None]] ELSE hist[Len(hist) - 1].saved
\* a command that ends well leaves data that derive from the saved upstream data, and only from them
InvFresh == (hist # <<>> /\ pc = "idle") => (Last.how = "done" =>
    LET n == Last.cmd.net a == saved[n] c == Last.cmd IN
    /\ a.X = Final(c, Last.conf, a.F)
    /\ (Redo(c, "d") => a.F = Noisy(c, Last.conf, a.S))
    /\ (Redo(c, "s") => a.S = Flow(c, a.L))
    /\ (Redo(c, "p") => a.L = Loads(c, Last.conf)))
\* a complete command leaves data that depend on nothing but the command and the configuration
InvComplete == (hist # <<>> /\ pc = "idle") => (Last.how = "done" /\ Last.cmd.flags \in {{}, {"p", "s", "d"}} =>
    saved[Last.cmd.net].X = Final(Last.cmd, Last.conf, Noisy(Last.cmd, Last.conf, Flow(Last.cmd, Loads(Last.cmd, Last.conf)))))
\* nothing but the requested stages (and the final data) changes
Touched == [][\A n \in Nets, s \in Stages : saved'[n][s] # saved[n][s] =>
    /\ n = cmd.net /\ s = pc
    /\ (s = "X" \/ Redo(cmd, CASE s = "L" -> "p" [] s = "S" -> "s" [] s = "F" -> "d" [] OTHER -> ""))]_vars
ConfKept == [][pc # "idle" => conf' = conf]_vars
InvNets == \A n \in Nets, s \in Stages : saved[n][s] # None => saved[n][s].net = n
Ends == pc # "idle" ~> pc = "idle"
EmitCase == done => Emit([cmds |-> [k \in 1..Len(hist) |->
    [cmd |-> hist[k].cmd, conf |-> hist[k].conf, how |-> hist[k].how, saved |-> hist[k].saved]]])
=============================================================================
