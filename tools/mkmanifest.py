#!/usr/bin/env python3
# writes /verif/MANIFEST.json from properties.jsonl and the list of implemented checks
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE="seeded random search over simulated executions of the real binary (not exhaustive); trusts the reference semantics and oracles in sim/src (written independently of the tool) and the preloaded OS shim; "
IMPL={
 "C01":("system runs scheduled by seed, logs damaged by injected observation faults; verdict against a reference semantics","verdict of 'accept' is compared with exact membership decided by the reference semantics"),
 "C02":("as C01 with observers crashing, late or partitioned; verdict against exact global-prefix membership","Fail is checked against existence of one complete execution extending every log"),
 "C03":("each observer crashes at its own instant; verdict against per-log extension and a lifeline-removal reference model","with sync operators, a Fail for logs that no execution extends is not required; one known finding (synchronised simultaneous actions on a removed lifeline)"),
 "C04":("observers start late and crash early; simulation verdict against per-log extension (after / before+after), budgets sized by the oracle","how insufficient budgets are spent is not judged, only that no positive verdict and no plain Fail results"),
 "C05":("same execution analysed under several seeded search schedules and hash seeds; verdicts compared","partial-order reduction (marked experimental by the tool) is excluded"),
 "C06":("limits injected into the search at seeded points; limited verdict and node count compared with the unlimited run",""),
 "C08":("recorded schedules (complete, cut short, damaged) replayed through the tool's automata under seeded hash maps and search schedules; drawn automata, minimal automata and hidden projections compared with the reference model's automaton","completeness is judged for interactions with finitely many residual states; two known findings (loop bound of the exploration, edge count under the memo order) are recognised by what the same bound leaves of the drawn automaton"),
 "C09":("canonization driven through its own rewriting schedules (default order and every order, seeded strategies, randomised priorities, hash seeds, memoisation); every interaction of the drawn rewriting graph is read back and its language compared with the original's in the reference model","languages are compared exactly when the interaction has finitely many residual states, up to a bounded length otherwise; that all orders end in one same normal form is not claimed (it does not hold and the tool does not promise it)"),
 "C10":("slicing driven by seeded random streams under slow, interrupted and partial file operations; the set of files written compared with an independent enumeration of slices, and the slices drawn over many random streams with what must be reachable",""),
 "C11":("mutation commands driven by seeded random streams under slow, interrupted and partial file operations; the written multi-trace compared with the original by an edit-distance oracle per mutation kind, and the mutations drawn over many random streams with what must be reachable",""),
 "C14":("every command run twice from the same inputs in two simulated environments (hash seeds, clock steps and jumps, short and interrupted reads and writes); verdict, node count, prints and output files compared; generated interactions checked against their parameters","commands whose randomness is explicit are run with the same random stream; partial writes are not injected where the graphviz library writes drawings (it ignores them)"),
 "C12":("every command run under injected I/O faults (failing opens, reads, writes, directories, deletions, allocations and child processes, short and interrupted writes, quotas, kills at seeded operations), with older outputs and other people's files around; the files compared with the fault-free run, then the command run again without faults","what the graphviz library and program write under write faults is left out, because that library ignores its own write results"),
 "C13":("input files damaged by seeded edits (cuts, lost, swapped, repeated and foreign pieces, renamed names, invalid encodings, lost files) and read faults at seeded operations; acceptance and understanding compared with independent strict readers of the file formats","configuration files are only damaged in ways that certainly make them malformed; the undocumented operator 'and' and names declared twice are not judged"),
 "C15":("chains of commands (generate or take an interaction, explore, slice, mutate, project, canonize, analyse in every kind), each link one simulated process under its own hash seed, clock and read faults, with a seeded search schedule, and any one link killed at a seeded operation and run again; verdicts of the last link against what the reference model says of the file","with lifeline removal, complete traces may get WeakPass, or be inconclusive when lifelines are grouped: the tool removes lifelines as soon as their log is empty"),
 "C16":("seeded search schedules of explorations and analyses (strategy, priorities, randomisation, memoization, local analysis, filters, hash seeds, clocks, benign read faults) with the graphical logger on, graphviz being a stub that keeps what it is given to draw; the drawn graph is read back and every state, step, cut, mark and verdict compared with an independent operational semantics, successes by searching the drawn graph for a run that leaves the logs; term trees and PlantUML sequence diagrams read back likewise","languages of very large states are not compared (counted as undecided); analyses: that no step is missing follows only through their verdicts (C01-C05); systems in which a lifeline sends to itself cannot be drawn and are left out"),
 "C07":("exploration under seeded search schedules, limits and projections; the set of trace files written compared with the reference model's behaviours","loop-depth limits are judged with the least and greatest depth over the derivations of a behaviour"),
}
try: IMPL.update(json.load(open(V+"/tools/impl.json")))
except FileNotFoundError: pass
NA={"C17":"the images, and puml_ap, are a pure function of one input file (no schedule, clock, fault or interleaving in the property), and deciding whether pixels depict the right actions needs a reader of images, not a simulator; that the drawing commands write their files completely or fail is part of C12"}
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
m={"version":1,"setup_cmd":"bash check.sh build","hooks":{"guard":"none","enable":"no hooks: the shipped binary is run unchanged under a preloaded OS shim","source_commits":[]},"checks":[],"not_applicable":[]}
for p in props:
    i=p["id"]
    if i in IMPL:
        t,n=IMPL[i]
        m["checks"].append({"property":i,"quick_cmd":"bash check.sh "+i,"thorough_cmd":"bash check.sh "+i+" --tier thorough","technique":"deterministic simulation with fault injection: "+t,"level":"exploration","level_note":(NOTE+n).strip().rstrip(';')})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"check not built yet")})
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); open(V+"/MANIFEST.json","a").write("\n")
print(len(m["checks"]),"checks",[x["property"] for x in m["not_applicable"]])
