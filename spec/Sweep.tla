------------------------------- MODULE Sweep -------------------------------
(* C19. The sweeps as a state machine: the configuration, the experiments still to run, and the commands that ran    *)
(* with the configuration they saw. Any command may fail; a failure changes nothing else. Sequences of runs of the   *)
(* script, with random options and failures, are generated and replayed on the real script.                         *)
EXTENDS Num
CONSTANTS MaxRuns, SeqMode
VARIABLES opts,     \* options of the present run (a sequence of words), <<>> before the first one
          todo,     \* steps still to do in the present run
          conf,     \* what is configured: seed, noise level (thousandths), days
          log,      \* commands run so far in this run: [cmd, seed, noise, days, fails]
          runs,     \* finished runs: [opts, log, refused]
          done
vars == <<opts, todo, conf, log, runs, done>>
Default == [seed |-> 131, noise |-> 1000, days |-> 7]
NoiseSeeds == <<11>>
NoiseLevels == <<100>>
SizeSeeds == <<11, 13, 111, 131>>
Sizes == <<1, 2, 3, 5, 7, 10, 15, 21, 30, 45, 60>>
Sim(flags) == [script |-> "simulate_network.py", flags |-> flags, opts |-> {<<"--network", "ieee123center">>}]
Ident == [script |-> "identify_network.py", flags |-> {"q"}, opts |-> {<<"--network", "ieee123center">>, <<"--max-iterations", "20">>, <<"--phases", "012">>}]
Plot == [script |-> "plot_results.py", flags |-> {}, opts |-> {<<"--network", "ieee123center">>}]
Set(k, x) == [act |-> "set", key |-> k, val |-> x]
Cmd(c) == [act |-> "run", cmd |-> c]
Each(f(_), s) == FlattenSeq([i \in 1..Len(s) |-> f(s[i])])
\* the steps of the sweeps
NoiseSweep == Each(LAMBDA sd : <<Set("seed", sd), Cmd(Sim({"q", "t", "e"}))>>
                    \o Each(LAMBDA x : <<Set("noise", x), Cmd(Sim({"q", "t", "d", "e"})), Cmd(Ident), Cmd(Plot), Set("noise", Default.noise)>>, NoiseLevels)
                    \o <<Set("seed", Default.seed)>>, NoiseSeeds)
SizeSweep == Each(LAMBDA sd : <<Set("seed", sd)>>
                    \o Each(LAMBDA x : <<Set("days", x), Cmd(Sim({"q", "t", "e"})), Cmd(Ident), Cmd(Plot), Set("days", Default.days)>>, Sizes)
                    \o <<Set("seed", Default.seed)>>, SizeSeeds)
\* options: words of letters; any letter that is not known refuses the run, words that are not options end them
Known == {"n", "s"}
OptWords == {<<>>, <<"n">>, <<"s">>, <<"n", "s">>, <<"s", "n">>, <<"x">>, <<"n", "x">>, <<"h">>, <<"s", "s">>, <<"v">>}
Letters(o) == {l \in UNION {{o[i][j] : j \in 1..Len(o[i])} : i \in 1..Len(o)} : TRUE}
Plan(o) == IF ~(Letters(o) \subseteq Known) THEN <<>>
           ELSE (IF "n" \in Letters(o) THEN NoiseSweep ELSE <<>>) \o (IF "s" \in Letters(o) THEN SizeSweep ELSE <<>>)
Init == opts = <<>> /\ todo = <<>> /\ conf = Default /\ log = <<>> /\ runs = <<>> /\ done = FALSE
RandOpts(z) == LET k == RandInt(1, 2) IN TLCEval([i \in 1..k |-> RandomElement(OptWords \ {<<>>})])
Start == /\ ~done /\ opts = <<>> /\ Len(runs) < MaxRuns
         /\ \E o \in (IF SeqMode THEN {<<w>> : w \in OptWords \ {<<>>}} ELSE {RandOpts(0)}) : opts' = o /\ todo' = Plan(o)
         /\ UNCHANGED <<conf, runs, done>> /\ log' = <<>>
Step == /\ ~done /\ opts # <<>> /\ todo # <<>> /\ todo' = Tail(todo) /\ UNCHANGED <<opts, runs, done>>
        /\ IF Head(todo).act = "set" THEN conf' = [conf EXCEPT ![Head(todo).key] = Head(todo).val] /\ UNCHANGED log
           ELSE \E f \in (IF SeqMode THEN {0} ELSE {IF RandInt(0, 3) = 0 THEN RandomElement({1, 2, 137}) ELSE 0}) :
                log' = Append(log, [cmd |-> Head(todo).cmd, conf |-> conf, fails |-> f]) /\ UNCHANGED conf
End == /\ ~done /\ opts # <<>> /\ todo = <<>>
       /\ runs' = Append(runs, [opts |-> opts, log |-> log, refused |-> ~(Letters(opts) \subseteq Known)])
       /\ opts' = <<>> /\ UNCHANGED <<todo, conf, done>> /\ log' = <<>>
Stop == ~done /\ opts = <<>> /\ Len(runs) = MaxRuns /\ done' = TRUE /\ UNCHANGED <<opts, todo, conf, log, runs>>
Spec == Init /\ [][Start \/ Step \/ End \/ Stop]_vars /\ WF_vars(Step) /\ WF_vars(End)
\* ------------------------------------------------------------------ theorems
InvRestored == opts = <<>> => conf = Default
InvOneValue == conf.noise = Default.noise \/ conf.days = Default.days
InvRefused == \A i \in 1..Len(runs) : runs[i].refused => runs[i].log = <<>>
\* every experiment of the sample-size sweep is run, once, with its own seed and size, in order
Identified(l) == SelectSeq(l, LAMBDA e : e.cmd = Ident)
InvExperiments == \A i \in 1..Len(runs) : ~runs[i].refused /\ Letters(runs[i].opts) = {"s"} =>
    [k \in 1..Len(Identified(runs[i].log)) |-> <<Identified(runs[i].log)[k].conf.seed, Identified(runs[i].log)[k].conf.days>>]
    = FlattenSeq([a \in 1..Len(SizeSeeds) |-> [b \in 1..Len(Sizes) |-> <<SizeSeeds[a], Sizes[b]>>]])
Ends == opts # <<>> ~> opts = <<>>
EmitCase == done => Emit([runs |-> runs])
=============================================================================
