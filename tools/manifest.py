#!/usr/bin/env python3
# Source of MANIFEST.json (run: python3 tools/manifest.py > MANIFEST.json)
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=[json.loads(l)["id"] for l in open(os.path.join(here,"properties.jsonl"))]
B="Sampled executions, not all inputs: assurance is the absence of violations over the counted workload. Trusts the harness's own WAD codec and oracle (independent of the target's code). "
C={
"C06":("online monitoring of real runs: independent structural checker over written node lumps",B+"Exact oracle for every format."),
"C07":("online monitoring of real runs: per-side coverage oracle over written segs",B+"Vertex rounding of the vanilla formats is allowed for with stated tolerances; extended formats are checked at sub-unit precision."),
"C08":("online monitoring of real runs: point-location oracle (tree descent vs polygon containment) plus box/convexity monitor",B+"Vanilla formats are judged with tolerances for 16-bit rounding; extended formats almost exactly."),
"C09":("online monitoring of real runs: exact line/grid intersection oracle over every block",B+"A line clipping less than 1 unit of a block corner may be listed or not."),
"C10":("metamorphic monitoring: decoded lists of paired runs compared block by block",B+"Line removal is judged against the manual's list of removable lines."),
}
C.update({
"C01":("online monitoring of real runs: independent WAD parser checks the output of generated multi-level WADs against a model of the schedule",B+"Lump sharing is allowed when contents agree."),
"C02":("online monitoring of real runs: authored level lumps of input and output compared by value",B+"Lines are compared by coordinates, since vertices may be renumbered."),
"C11":("online monitoring of real runs: exhaustive sight-line search oracle finds witness sight lines; each must be visible in the table",B+"A hidden pair is a violation only with an explicit witness line at least one unit clear of every obstacle."),
"C12":("online monitoring of real runs plus metamorphic pairs: connectivity and sight-line oracle bounds what is left visible; symmetry/graph variants compared",B+"The visibility half is statistical: a small share of provably hidden pairs left visible is tolerated (map and total limits)."),
"C16":("metamorphic monitoring: selection and disabled-builder runs compared lump by lump with full runs and the input",B),
"C17":("online monitoring of real runs: size, content and placement of zero-filled reject lumps checked for every level",B),
"C25":("online monitoring of real runs: reported digests compared with digests recomputed from the output file",B),
"C26":("metamorphic monitoring over histories: chains of rebuilds compared pass by pass",B+"Reject bits of pairs without a clear sight line may change once, when unused vertices stop widening the map's bounds."),
})
C.update({
"C04":("metamorphic monitoring over schedules: output of runs under perturbed goroutine schedules (probes at every channel operation, GOMAXPROCS, threads) compared byte by byte",B+"Interleavings are sampled by seeded delays and yields; the evidence counts distinct event orders."),
"C05":("race detector build with schedule perturbation; exit status, hang and end-of-run blocked-goroutine monitor",B+"The race detector judges only accesses that execute; interleavings are sampled by seeded delays."),
"C15":("metamorphic monitoring: output of runs with and without performance-only options compared byte by byte",B),
})
C.update({
"C13":("online monitoring of real runs: random modifier programs judged entry by entry against a model of the manual applied to the unmodified table, report files line by line",B+"The unmodified table comes from the program itself (judged by C11 and C12); pairs on which the manual is ambiguous are left open and counted."),
})
C.update({
"C23":("online monitoring of hostile runs: damaged containers and levels under time and memory limits; crash, status, well-formedness and bystander-twin monitors",B+"Only the 'no crash, bounded, valid or refused, bystanders untouched' half is judged on damaged levels; what is built of them is not."),
})
C.update({
"C03":("fault injection with an online log of file operations: hooked system call wrappers (build overlay of the standard library) fail, shorten or kill at every operation of a run; file system monitor afterwards","All single faults at system call granularity of the sampled runs are enumerated, double and triple faults sampled; process death, not power loss. Runs themselves are sampled."),
})
C.update({
"C22":("online monitoring of hostile runs: mutated, faulty, random and oversized modifier files under time and memory limits; crash, message, status and bystander-lump monitors, plus paired runs for out-of-range numbers",B+"Syntax judged as faulty is a fixed list of lines the manual leaves no reading for."),
})
C.update({
"C21":("online monitoring of hostile and paired runs: random argument lists under time and memory limits with crash, status, message and touched-file monitors; random spellings of one setting compared byte by byte",B+"Faulty lists that must be refused are drawn from a fixed set of faults placed anywhere in a sound list."),
})
C.update({
"C14":("differential monitoring: each map, small or built to land at a limit of the vanilla format, built by the real program in every format; decoded trees compared with one another and with the limits of the formats",B+"Limits are approached with simple regular maps of up to 65535 lines."),
})
C.update({
"C19":("online monitoring of real runs: segs, helper lines and blockmap of maps with special lines compared with a model of the documented effects; every lump a special line must not change compared with the paired build without it",B+"Scroller placements with several equally near candidates are skipped."),
})
C.update({
"C24":("online monitoring of real runs: segs of culled builds accounted for line by line against the documented conditions, outlines of planted self-referencing areas required, points located through the resulting tree",B+"Self-referencing areas nested in one another and connected are left out (known finding)."),
})
C.update({
"C20":("metamorphic monitoring: trees of the three root modes and of growing numbers of roots scored by the documented criterion and compared; root partition and number of trees against a model; repeats with other thread counts compared byte by byte",B+"The trees that lost are seen only through other runs in which they won."),
})
C.update({
"C18":("online monitoring of real runs: the tree of every build replayed from the root; a step that parted a polyobject room or precious line is a violation if some partition on offer there clearly harmed nothing of the kind",B+"Alternatives within the builder's rounding tolerance of something precious, or cutting very much else, are not held against it; rooms that hold no other sector."),
})
C.update({
"C27":("online monitoring of real runs: every figure and warning in the printed report recomputed from the output file and compared",B+"Figures are compared where the report prints them; the number of a search's attempts and timings are not judged."),
})
C.update({
"C28":("online monitoring of real runs: the blockmap of an offset search compared with blockmaps built one by one at the fixed origins it was told to try",B+"All 36 origins are compared; of the 65536 or heuristic origins a sample."),
})
extra=os.path.join(here,"tools","manifest_extra.py")
if os.path.exists(extra): exec(open(extra).read())
NA={}
checks=[]
for i in ids:
    if i in C:
        lvl="fault_enumeration" if i=="C03" else "exploration"
        checks.append({"property":i,"quick_cmd":"bash check.sh %s"%i,"thorough_cmd":"bash check.sh %s thorough"%i,
          "evidence_file":"evidence/%s.json"%i,"technique":C[i][0],"level":lvl,"level_note":C[i][1]})
na=[{"property":i,"reason":NA.get(i,"check not built yet")} for i in ids if i not in C]
print(json.dumps({"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na},indent=1))
