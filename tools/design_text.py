T["C01"]={"Code":"wad.go, lumpwrite.go, level.go, vigilantbsp.go, zdefs.go (lump schedule)",
"Workload":"multi-level WADs assembled from generated levels: IWAD/PWAD, Doom and Hexen levels, missing and repeated lumps, extra lumps between, after and named like level lumps, GL nodes, UDMF, SCRIPTS, empty lumps, shared and overlapping data in the input, lumps in any physical order; all builder and format switches",
"Oracle":"own WAD parser: header, directory and lump extents; overlap only where contents agree; lumps not scheduled for a rebuilt level keep name bytes, order and contents; the lumps a rebuilt level must hold are present once",
"Bounds and exclusions":"a level's missing lumps may be created; lump sharing is allowed when the contents agree",
"Beyond tests":"the tests hold no WAD at all; what matters is the bookkeeping of a directory that changes while several levels are rebuilt",
"Cost":"10 s / 5 min"}
T["C02"]={"Code":"level.go, node_outro.go, node_rearrange.go, blockmapgen.go (helper lines)",
"Workload":"the maps of all other families, in both formats, x node formats, --stknode, culling, multi-tree, --eject",
"Oracle":"things, sidedefs, sectors, scripts byte for byte; linedefs compared by end point coordinates and every other field, in order; extra lines only at the end",
"Bounds and exclusions":"vertex numbers may change",
"Beyond tests":"vertex renumbering happens after the tree is known, in code the tests do not reach","Cost":"10 s / 5 min"}
T["C03"]={"Code":"filecontrol.go, vigilantbsp.go, wad.go, writebus.go, fixedwriter.go",
"Workload":"in-place and -o runs on small WADs with and without report files, -rz and hashes, on a build whose os and syscall packages carry (by build overlay, outside /repo) a plan of faults",
"Oracle":"each file operation is numbered and logged. Single faults at every operation are enumerated (EIO, ENOSPC, EACCES, EPERM, half a write then full disk, full disk for good, killed before, killed half way, short transfer), sequences of 2-3 sampled, with copy_file_range and with its fallback. With -o the input is never opened for writing; the input is intact before replacement begins and afterwards either the original, the complete result, or complete in the temporary file is there; status 0 means the result equals that of an undisturbed run; failure has a message and leaves no temporary file. Further families without hooks: file size limits, permissions as an unprivileged user, missing or full or directory outputs, names that collide, links, deleted working directory",
"Bounds and exclusions":"death of the process, not loss of power. A temporary file may stay when the fault hit its own removal",
"Beyond tests":"crash points and failing system calls","Cost":"25 s / 6 min"}
T["C04"]={"Code":"all go statements: nodegen, multitree_plain, blockity, reject, level, writebus",
"Workload":"maps x builders x thread counts, run on a build with probes at every channel operation (inserted by a source overlay) which yield or sleep by a seeded plan, with GOMAXPROCS 1-16",
"Oracle":"output bytes equal under -d; without -d every lump but the blockmap has the same contents. The distinct orders of probe events seen are counted",
"Bounds and exclusions":"interleavings are sampled","Beyond tests":"tests run no two builders at once","Cost":"40 s / 8 min"}
T["C05"]={"Code":"as C04","Workload":"as C04, on a race detector build with the probes",
"Oracle":"no report of the detector; exit status 0 within the time limit; at exit no goroutine of a builder is blocked (stack dump requested by the overlay)",
"Bounds and exclusions":"the detector judges accesses that execute","Beyond tests":"tests run no two builders at once","Cost":"60 s / 10 min"}
T["C06"]={"Code":"nodegen.go, znodegen.go, node_outro.go, zdefs.go, zstream.go",
"Workload":"generated maps (planar meshes, fans, strips, big, self-referencing areas, line soups; tight skewed meshes; crossing and T-joined lines), every node format and partitioner, culling, multi-tree, --stknode",
"Oracle":"own decoders for vanilla, DeeP, ZNOD/XNOD, XNOD/ZNOD; index ranges, one tree, root last, leaves = subsectors once each, runs of segs consecutive and not empty; vertices referred to by segs but no line (added ones) are all distinct from the vertices in use, and no vertex behind the last authored one is unused","Bounds and exclusions":"in the fractional formats coincident added vertices are not judged (distinct fractions may be written as one; harmless)","Beyond tests":"whole-tree invariants on unlimited maps","Cost":"20 s / 6 min"}
T["C07"]={"Code":"nodegen.go, node_intro.go, stknode.go, node_rearrange.go, diffgeometry.go",
"Workload":"as C06","Oracle":"for each line side due to be drawn, the segs sorted along the line tile it from vertex to vertex, in the right direction, lying on the line; offset and angle as the engine uses them",
"Bounds and exclusions":"16-bit formats may be off by vertex rounding (40 units along pathological slivers, 80 on strips and big maps), extended formats are exact to 0.01",
"Beyond tests":"splits of splits on arbitrary slopes","Cost":"11 s / 5 min"}
T["C08"]={"Code":"nodegen.go, picknode.go, convexity.go, superblocks.go, diffgeometry.go",
"Workload":"as C06, on planar maps where the sector of a point is known","Oracle":"random and near-wall points are located by polygon containment and by the engine's descent; boxes enclose what is below; segs lie on their side of each partition above; subsectors convex and of one sector",
"Bounds and exclusions":"points within 0.6 of a line (10 + 3 points + 2 % for the 16-bit formats) are not judged. A seg along a partition may be moved alone to the left ('No left side, moving partition into left side'), which makes a leaf without area: harmless. Maps with lines longer than 32767 units: in the whole-coordinate formats those with a split long line are left out (the rest may have no shorter vector of its direction; the program warns that it cannot represent such a partition)",
"Beyond tests":"a quantifier over all points of all maps","Cost":"9 s / 5 min"}
T["C09"]={"Code":"blockmapgen.go, blockity.go","Workload":"generated maps incl. maps at the 16-bit limits, lines along block borders, through corners, outside the grid, zero-length, huge; all blockmap options, offsets and thread counts",
"Oracle":"exact rational line/block intersection for every block; delimiters; offsets in range; an empty lump only when the model agrees that the lists don't fit",
"Bounds and exclusions":"slanted lines that clip less than one unit of a corner may be listed or not; lines longer than 32767 that can't be reduced are not representable",
"Beyond tests":"every block of every map","Cost":"15 s / 5 min"}
T["C10"]={"Code":"blockmapgen.go, bblocks.go, blockity.go","Workload":"as C09, pairs and chains of runs that differ in compression only","Oracle":"decoded lists per block as sets; sizes never larger; aggressive lists are supersets; removed lines are only those the manual names",
"Beyond tests":"list merging depends on which lists happen to contain one another","Cost":"12 s / 5 min"}
T["C11"]={"Code":"reject*.go","Workload":"planar maps with pillars, islands, fences, self-referencing areas, loops of sectors, slanted door rows; also no graph, no symmetry","Oracle":"a search for witness sight lines (los.go) between all pairs of sectors; each witness is one unit clear of every obstacle (2 on big maps); size, symmetry, own bit",
"Bounds and exclusions":"a hidden pair counts only with a witness","Beyond tests":"a quantifier over all pairs and all lines","Cost":"25 s / 8 min"}
T["C12"]={"Code":"reject*.go","Workload":"as C11","Oracle":"pairs with no chain of two-sided lines must be hidden, spare bits zero, no see-through line means all zero; pairs for which the exhaustive search finds no line may be left visible only in rare cases (more than 12 and 12 % on one map, or 0.4 % in total, is a violation); --nosymm byte-identical; -rg- differs on grazing pairs only",
"Beyond tests":"speed-ups are compared with the slow path on whole maps","Cost":"25 s / 8 min"}
T["C13"]={"Code":"rmbparse.go, rmbunit.go, rejectRMB.go, rejectDFS.go, reject.go","Workload":"random modifier programs over random maps: all options, global and map frames, groups, INVERT, NOPROCESS from the same or another file, reports",
"Oracle":"a model of the manual applied entry by entry to the unmodified table; report files line by line",
"Bounds and exclusions":"BAND is [from,to) hops. A plain GROUP doesn't share lines of sight, with DISTANCE/LINE/LENGTH it does (judged with -rg-). VORTEX is judged between its least and greatest reading. LINE is the same as clearing the two-sided flag. Pairs at infinite hop distance that are visible in the base table are free. With LENGTH or LINE, graph effects on grazing pairs are decided by the sight line oracle. NOPROCESS is combined with INCLUDE, EXCLUDE, BLIND 0/1, SAFE 0/1, GROUP, ASSERT only",
"Beyond tests":"the tests parse single lines and never build a table","Cost":"40 s / 8 min"}
T["C14"]={"Code":"multiformat_tree.go, zdefs.go, node_outro.go, nodegen.go, znodegen.go","Workload":"small maps in all formats; regular maps sized to land on, before and behind each 16-bit limit (vertices, segs, subsectors, first segs)",
"Oracle":"the DeeP tree (c=d) is the reference: vanilla equals it up to the arrangement of segs or is empty with the message, and is written whenever vertices <= 65536, subsectors <= 32767 and first segs fit (also after moving the largest subsector's segs to the end); D/X/Z pick v exactly if it fits; z inflates to x at every level",
"Bounds and exclusions":"multi-tree at the limits with one root only; exactly 32768 subsectors is too many","Beyond tests":"limits need maps of 65536 segs","Cost":"55 s / 8 min"}
T["C15"]={"Code":"zensideness.go, segalias.go, nodegen.go, reject.go, config.go","Workload":"maps x partitioners x pairs of runs","Oracle":"output bytes equal with --sidecache, --speedtree, thread counts, --nosymm, -v, profiles, --hashlump changed under -d","Beyond tests":"caches only matter on trees","Cost":"60 s / 8 min"}
T["C16"]={"Code":"level.go, cmdparser.go, vigilantbsp.go, wad.go","Workload":"WADs of levels with confusable names x -m/-!m lists x disabled builders","Oracle":"unselected levels byte for byte; a disabled builder's lumps untouched; what the others wrote equals the full run's","Beyond tests":"combinations of selection and layout","Cost":"15 s / 5 min"}
T["C17"]={"Code":"wad.go, reject.go, level.go (-rz)","Workload":"multi-level WADs with very different sector counts, duplicates and missing REJECT lumps","Oracle":"size, zeroes and extent of every table","Beyond tests":"the shared pool is a property of the whole file","Cost":"10 s / 4 min"}
T["C18"]={"Code":"universal_interfaces.go (detection), node_intro.go (flags), picknode.go and convexity.go (costs)",
"Workload":"Hexen maps with start spots (both numberings, decoys, several in one room, level with vertices, so close to a wall that two rooms count, crowded maps) in convex rooms; Doom maps with disjoint two-sided precious lines; all pickers, formats, multi-tree",
"Oracle":"the tree is replayed from the root. Wherever a room was parted (by segs that don't lie along the partition) or a precious side cut, a partition along some unsplit line is searched that clearly has something on either side and clearly harms nothing precious: if there is one, the step is a violation. The same map without spots and tags tells whether anything was at stake",
"Bounds and exclusions":"clearly = 3 units; alternatives with more than 25 cuts or among more than 300 sides don't count; the root of a multi-tree is not picked by this rule; a map that is a single convex room is always cut once",
"Beyond tests":"depends on all costs of a step together","Cost":"14 s / 2-4 min"}
T["C19"]={"Code":"gamespec.go, node_intro.go, blockmapgen.go, universal_interfaces.go, level.go","Workload":"random specials 998, 999 (also on lines with a back), 1080-1086, BSPNOSEG, near values that mean nothing, Hexen maps; scrolling walls 48/1048 with near and far rooms; coalescing sectors (tag >= 900)",
"Oracle":"presence and angle of segs by a model in all formats; blockmap without 998-like and 999 lines; helper lines by a model of the nearest suitable wall; every other lump equal to the same chain of builds without scrolling; partial and second builds change nothing",
"Bounds and exclusions":"scrollers with several equally near candidates are skipped","Beyond tests":"specials interact with splits, blockmap and lump sizes","Cost":"25 s / 6 min"}
T["C20"]={"Code":"multitree_plain.go, picknode.go, zenscore.go","Workload":"maps of up to 70 lines, also with precious tags or Hexen; m=1,2,3, --roots=1..n, thread counts, --speedtree, --stknode",
"Oracle":"root partition lies along a line of the kind asked for; number of trees tried = number of distinct partitions of that kind; score (precious split?, subsectors, height difference, height, segs) of m=3 not worse than m=1 or 2, chain over --roots never worse, full search not worse than any; other thread counts give the same bytes",
"Bounds and exclusions":"the trees that lost are only seen through other runs in which they won","Beyond tests":"the search is over whole trees","Cost":"27 s / 5 min"}
T["C21"]={"Code":"cmdparser.go, config.go, vigilantbsp.go","Workload":"hostile argument lists; faulty lists that must be refused; three random spellings of one model of settings",
"Oracle":"no crash, timeout, garbled text or status other than 0/1; only named files touched; failure has a message; status 0 is usage or a valid WAD; spellings byte-identical; disabled builders leave lumps alone",
"Bounds and exclusions":"-o right after --cpuprofile/--memprofile is that option's value; empty arguments are ignored","Beyond tests":"the parser's state carries over between arguments","Cost":"30 s / 6 min"}
T["C22"]={"Code":"rmbparse.go, rmbunit.go, rejectRMB.go","Workload":"damaged programs (line, word, byte), one faulty line in a sound program, random bytes, oversize files, numbers at and beyond their ranges",
"Oracle":"no crash, hang or garbled message; refusal names the line and leaves the input as it was; accepted means all lumps but REJECT equal the run without -rm",
"Beyond tests":"the tests feed sound lines","Cost":"25 s / 5 min"}
T["C23"]={"Code":"wad.go, level.go, node_intro.go, blockmapgen.go, reject.go","Workload":"damaged headers, directories, lumps; levels with bad references, sizes, duplicates, missing lumps, besides sound twins","Oracle":"bounded time and memory, message and status, well-formed output; the twin level is built as it would be alone; unbuildable levels copied",
"Bounds and exclusions":"what is built of damaged levels is not judged","Beyond tests":"any bytes","Cost":"40 s / 8 min"}
T["C24"]={"Code":"selfref.go, node_intro.go","Workload":"maps with lines inside sectors, textures and tags that forbid culling, planted self-referencing polygons","Oracle":"a side may only be missing if it may be culled; outlines of self-referencing areas required; points inside areas and elsewhere located through the tree",
"Bounds and exclusions":"self-referencing areas nested in one another and touching are left out (known finding, one fixed map shows it on every run)","Beyond tests":"culling is a graph search over the whole map","Cost":"15 s / 5 min"}
T["C25"]={"Code":"lumpwrite.go, wad.go, zdefs.go","Workload":"all formats and builders with --hashlump","Oracle":"digests recomputed from the output file; every rebuilt lump reported once","Beyond tests":"digests are made while data streams through buffers of several writers","Cost":"10 s / 4 min"}
T["C26"]={"Code":"level.go, node_outro.go, blockmapgen.go (helper lines), node_intro.go","Workload":"chains of 3 rebuilds with the same options, incl. scrollers, culling, formats, in place or not","Oracle":"authored geometry, blockmap, reject equal from pass to pass and node counts the same; nothing grows",
"Bounds and exclusions":"reject bits of pairs without a clear sight line may change once when unused vertices stop widening the bounds","Beyond tests":"histories of runs","Cost":"20 s / 5 min"}
T["C27"]={"Code":"nodegen.go, node_outro.go, node_intro.go, blockmapgen.go, bblocks.go, lumpwrite.go, level.go, multi-tree and multi-format drivers","Workload":"planar maps with all node options (some with lines lacking sidedefs), line-removal maps, scattered lines with all blockmap options (offset searches, subset compression, removable dummies), maps at the limits of vanilla nodes, multi-level WADs with selections; half of them with -v",
 "Oracle":"the report, cut at each `Processing level`, against figures recomputed from the lumps: subsectors, nodes, segs, segs = initial + splits, subtree heights, largest subsector, extents, blockmap corner and largest offset, removed lines, dummy line and word stealing, sizes; and for each warning, that it appears exactly when the output calls for it","Bounds and exclusions":"height of a subtree is the program's own convention (steps to the deepest subsector, 0 for a lone subsector); multi-tree runs need not say that the vanilla format was kept; a search ended by `e=` may print no largest offset","Beyond tests":"totals are kept along the build of several trees, formats and offsets, of which one is written; they must be those of that one","Cost":"25 s / 4 min"}
T["C28"]={"Code":"blockmapgen.go (hive, aggregators), bblocks.go (lump pool)","Workload":"random maps, and maps found by trial of which some origins fit 32767 or 65535 and others don't; compression options, goals, threads; 36, heuristic and all origins",
"Oracle":"the same program at each fixed origin alone (`x=..,y=..`): the searched lump must equal the fixed one at its own origin, be in the best class (vanilla, unsigned, none), be the smallest there, and on ties the earliest origin","Bounds and exclusions":"65536 and heuristic searches are compared with a sample of origins; a search ended by a goal only has to meet it","Beyond tests":"which worker tries which origin, and when buffers are rotated, depends on the schedule","Cost":"25 s / 5 min"}
TF="""
A fixed entry suppresses nothing. The one known finding is shown by its own fixed map in every run of C24.
Left alone as minor, and not judged by any check: `-rs=2` (pedantic) self-referencing lines, which the author
marks as unfinished; the documentation says that the angle of a tag-999 horizon comes from the tag where the code
takes the side's X offset, and calls the turn of action 1080 clockwise where BAM are added; `--roots` drops aliases
before it filters by kind; long options are accepted by prefix; the picker and the splitter may disagree about a
seg that all but touches the partition, which then ends up alone on the left.
"""
TS="""
Each was written from a property's text and the code; `tools/seed.sh` verified it in a scratch copy (builds, tests pass,
demonstration passes without and fails with it).
"""
TN="""
## False alarms met and what became of them

* C06/C07: segs of zero length and single-seg leaves are legal outcomes of rounding; tolerances per format were derived from the format's precision, not from what was observed.
* C09: lines clipping less than a unit of a block's corner: the program works in whole units; such blocks may list the line or not.
* C11: sight lines closer than a unit to an obstacle are no witnesses.
* C13: the manual's ambiguous cases (BAND's upper limit, VORTEX, GROUP) are judged only where all readings agree.
* C18: rooms are judged by area, as a seg along a partition can be moved to either side without parting the room; alternatives that come within rounding of something precious are not held against the builder.
* C26: see its exclusions.
"""
