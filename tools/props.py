#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 tools/props.py > properties.jsonl)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":mech,"where":", ".join(files)}]}
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
NT="The 19 unit tests call a few helpers (RMB tokeniser, superblock constants, intersection arithmetic, alias sets) with literal values; none of them opens a WAD or "
p("C01","Output is a well-formed WAD and unrelated lumps survive unchanged",
  "For any readable input WAD the tool writes a well-formed WAD of the same kind: header and directory lie inside the file, and every lump named by the directory lies inside the file and overlaps no other lump's data unless the contents agree. Every lump that is not one of the lumps rebuilt for a selected level keeps its name bytes, its relative position in the directory and its exact contents; each level is still recognisable afterwards and holds every lump the engine needs.",
  ["inputs","configurations"],"all WADs (any mix of Doom/Hexen levels, non-level lumps, zero-size lumps, duplicate names, odd physical layouts, missing or extra level lumps) x option sets",
  NT+"check what is written for one.",["wad.go","writebus.go","lumpwrite.go","vigilantbsp.go"],
  "directory scan and lump scheduling in wad.go, ordered writing through the write bus, directory rewritten at the end","output file bytes")
p("C02","Authored level data is never altered by rebuilding",
  "Rebuilding a level leaves things, sidedefs, sectors and scripts byte-identical, and leaves every linedef with the same endpoints (as coordinates), flags, action, arguments, tag and sidedefs, in the same order. Only vertex numbering may change, and lines added for scroll effects may only be appended.",
  ["inputs","configurations"],"all levels in both map formats x all node/blockmap/reject options",
  NT+"compare level data before and after.",["level.go","universal_interfaces.go","node_vmap.go","node_rearrange.go"],
  "vertex pruning/renumbering rewrites LINEDEFS and VERTEXES after node building; other lumps are copied","VERTEXES/LINEDEFS/THINGS/SIDEDEFS/SECTORS/BEHAVIOR lumps of the output")
p("C03","The input file survives every failure and -o never touches it",
  "With a separate output file the input is never modified; when overwriting in place, the result equals what a separate output would have contained. If anything fails or the process dies at any point before the final replacement begins, the input file is intact, no failed run reports success, and an ordinary failure leaves no temporary file behind.",
  ["crash_points","fault_sequences","inputs"],"every write, read, seek, create and truncate of a run failing (ENOSPC, EIO, EACCES) or the process being killed there, for both output modes",
  NT+"inject an I/O fault.",["filecontrol.go","vigilantbsp.go","lumpwrite.go","writebus.go","trollgen.go"],
  "temporary output file, verbatim copy back over the input on success, cleanup on failure","file system state and exit status after the run, under system-call fault injection")
p("C04","Deterministic mode gives the same bytes on every run",
  "With the deterministic option, the same input and options give a byte-identical output file whatever the number of processors, worker threads or goroutine schedule. Without it, only the placement of lumps in the file and the choice among acceptable blockmap origins may differ: every other lump keeps the same contents.",
  ["schedules","configurations"],"repeated runs under GOMAXPROCS 1..16, thread options, randomised schedulers and injected delays",
  NT+"run the concurrent pipeline.",["writebus.go","vigilantbsp.go","multitree_plain.go","level.go","blockmapgen.go","reject.go"],
  "ordered delivery through the write bus; tie-breaking by candidate number in multi-tree","output bytes")
p("C05","No data races, deadlocks or leaks between builder threads",
  "Node, blockmap, reject and multi-tree builders may run concurrently on one level and across consecutive levels, yet no memory is accessed by two of them without synchronisation when one of them writes, every run terminates with exit status 0, and no builder is left blocked when it does.",
  ["schedules","configurations"],"all schedules of the builder goroutines x option sets that add goroutines (multi-tree, multi-offset blockmap, RMB, culling)",
  NT+"start a builder goroutine.",["level.go","solidblocks.go","bblocks.go","blockmapgen.go","reject.go","multitree_plain.go","writebus.go"],
  "channels between level control, builders and the write bus","race detector reports and exit status")
p("C06","Node trees are structurally valid in every format",
  "Whenever nodes are written, whatever the format, all indices are in range, the nodes form one binary tree whose root is the last node and whose leaves are exactly the subsectors, and the subsectors partition the seg list into consecutive non-empty runs. Vertices added by splitting are all in use, and in the formats of whole coordinates none is added where a vertex in use already stands.",
  ["inputs","configurations"],"all maps x node formats x partitioning, culling, multi-tree and tree-shape options",
  NT+"look at a finished tree.",["nodegen.go","znodegen.go","node_outro.go","zdefs.go","zstream.go","multitree_plain.go","stknode.go"],
  "recursive tree construction followed by post-order renumbering and serialisation","SEGS/SSECTORS/NODES/VERTEXES lumps")
p("C07","Segs tile every rendered line side and describe it correctly",
  "Every side of every line that should be drawn is covered end to end, without gap, overlap or reversal, by segs that lie on the line (up to the vertex precision of the format) and name the right line, side, angle and offset; no seg exists for a side that has no sidedef.",
  ["inputs","configurations"],"all maps x node formats x partitioning and tree options",
  NT+"build segs from a map.",["node_intro.go","nodegen.go","znodegen.go","zdefs.go"],
  "seg creation per linedef side, splitting at partition crossings, recomputation of angle and offset","SEGS or extended NODES lump against LINEDEFS")
p("C08","Descending the tree finds the sector a point is really in",
  "For every point of the map away from line rounding error, the engine's descent through the written nodes ends in a subsector whose sector is the one that contains the point; each node's two boxes enclose everything below them, every seg lies on its side of all partitions above it and subsectors are convex, up to the precision of the format.",
  ["inputs","configurations"],"all points of all planar maps x node formats x partitioning and tree options",
  NT+"walk a tree.",["nodegen.go","znodegen.go","convexity.go","picknode.go","diffgeometry.go","intgeometry.go"],
  "partition choice, side classification, seg splitting and convexity tests","NODES lump: point location, boxes, partitions")
p("C09","Blockmap lists every line in every block it passes through",
  "When a blockmap is written, its grid covers all its lines, each block's list is properly delimited and names exactly the valid lines that pass through that block (a line that only touches its border, or clips its corner by less than one map unit, may be listed or not), and no offset has wrapped around. When it cannot be represented the lump is written empty instead of wrong.",
  ["inputs","configurations"],"all maps x header, offset, zero-header and size options",
  NT+"decode a blockmap.",["blockmapgen.go","blockity.go","bblocks.go"],
  "grid marking per linedef, duplicate list merging, offset table generation","BLOCKMAP lump against an exact line/grid intersection")
p("C10","Blockmap compression options never change what collides",
  "Lossless compression, offset optimisation and list merging decode to the same set of colliding lines per block as the plain blockmap built for the same origin, and never give a larger lump; aggressive compression may only add lines to a block; line removal options drop only lines that can never block or trigger anything.",
  ["inputs","configurations"],"all maps x combinations of blockmap options",
  NT+"build a blockmap under any option.",["blockmapgen.go","blockity.go","config.go"],
  "identity merging, subset compression, multi-offset competition, non-collidable line removal","BLOCKMAP lumps of paired runs")
p("C11","Reject never hides sectors that can see each other",
  "A rebuilt reject table has exactly the size the engine expects, and absent modifying options no two sectors between which a straight line of sight exists (crossing two-sided lines only, and clear of every obstacle by at least one map unit, since the computation works in whole units) are marked as not seeing each other; the table is symmetric and a sector sees itself.",
  ["inputs","configurations"],"all planar maps and all sight lines x reject options (graphs, self-referencing modes)",
  NT+"build a reject table.",["reject.go","rejectLOS.go","rejectDFS.go","rejectFAST.go","rejectSYMM.go","selfref.go"],
  "line-pair visibility tests with blocking chains; graph articulation speed-ups","REJECT lump against an independent exhaustive sight-line search")
p("C12","Reject hides what provably cannot be seen, whatever the speed-ups",
  "Absent modifying options, sectors with no chain of see-through lines between them are marked as hidden from each other, spare bits are zero, and sectors between which no sight line exists are recognised as such save for rare cases; a map with no see-through line between two sectors gets an all-zero table. Symmetric processing on or off gives a byte-identical table, and graph use may change it only for pairs without a clear sight line.",
  ["inputs","configurations"],"all maps x graph and symmetry options",
  NT+"compare reject variants.",["reject.go","rejectLOS.go","rejectDFS.go","rejectSYMM.go","rejectFAST.go"],
  "three specialised copies of the reject builder chosen at run time; component and articulation pruning","REJECT lumps of paired runs; connectivity and visibility oracle")
p("C13","Reject modifier options have exactly their documented effect",
  "A map's modifier file changes the reject table exactly as the manual describes: depth, band and safety limits by sector distance, length and distance limits, opaque lines, groups, vortices, and forced inclusions and exclusions with their documented order of precedence, globally and per map frame, on a freshly computed table or on an existing one kept on request; pairs not named by an option keep their value and reported pairs are the visible ones beyond the limit.",
  ["programs","inputs"],"all modifier programs over the documented options x maps",
  "The unit tests only tokenise a few modifier files; none applies one to a map.",["rejectRMB.go","rmbparse.go","rmbunit.go","filecontrol.go"],
  "breadth-first sector distances, staged application of options, include/exclude last","REJECT lump and report file against a model evaluated on the unmodified table")
p("C14","Node formats agree and overflow falls back or empties, never lies",
  "The same map built in the vanilla and in the large format under equal options (including an explicit --detailnodes, whose default depends on the format) describes the same tree, compressed nodes decompress to the uncompressed ones, and a 'prefer vanilla' format gives the plain vanilla result when that fits and the named fallback when it does not. When a format cannot hold the map its lumps are written empty: no count, index or child reference is ever truncated.",
  ["inputs","configurations"],"maps below, at and above each limit of the vanilla format x node formats and multi-tree modes",
  NT+"build a map near a format limit.",["nodegen.go","zdefs.go","zstream.go","node_outro.go","multiformat_tree.go","multitree_plain.go","level.go"],
  "format upgrade during construction, overflow detection after it, parallel extended builder","node lumps of paired runs")
p("C15","Options that only trade memory or time never change results",
  "With deterministic output, the side cache, thread counts, speed modes, symmetric processing of reject, verbosity, lump hashes and profiling change no byte of the output file.",
  ["configurations","inputs"],"all maps x performance option combinations",
  NT+"run two configurations.",["zensideness.go","picknode.go","superblocks.go","multitree_plain.go","config.go","mylogger.go"],
  "cached side classification, pooled superblocks, cloned multi-tree workers","output lumps of paired runs")
p("C16","Only selected levels and lumps are rebuilt",
  "Level selection rebuilds exactly the named levels (or all but the excluded ones) and copies the others byte for byte; a disabled builder leaves its lumps byte-identical to the input where they remain usable, and never changes what the other builders produce.",
  ["configurations","inputs"],"multi-level WADs x selection lists x builder on/off switches",
  NT+"combine selection with building.",["wad.go","vigilantbsp.go","level.go","cmdparser.go","config.go"],
  "level filter during directory scan and per-level scheduling of builders","output lumps against input and against single-builder runs")
p("C17","Zero-filled reject tables have the right size for every level",
  "With the empty-reject option each rebuilt level gets an all-zero reject table of exactly the size its sector count requires, wherever its data is placed in the file.",
  ["inputs","configurations"],"multi-level WADs of any sector counts x deterministic and other modes",
  NT+"write a reject lump.",["trollgen.go","wad.go","lumpwrite.go"],
  "one shared run of zero bytes addressed by several directory entries","REJECT lumps and directory")
p("C18","Polyobject rooms are kept whole where the map allows",
  "In Hexen-format levels a convex sector holding a polyobject's start spot (a polyobject room), and in any level a line marked precious by its tag, is parted by the node builder only at a step where every partition on offer would part such a room or line; where rooms can be cut free one after the other, the area of each lies in a single subsector.",
  ["inputs","configurations"],"Hexen maps with polyobjects in convex rooms; tagged precious lines x partitioning options",
  NT+"build a Hexen map.",["node_intro.go","picknode.go","nodegen.go","gamespec.go","convexity.go"],
  "precious flags on segs of polyobject sectors weigh on partition choice","SSECTORS/SEGS of Hexen output")
p("C19","Special line actions and tags have their documented effect",
  "Lines carrying the documented special tags, actions or side markers are omitted from rendering or from the blockmap, get the stated seg angle, or gain scrolling helper lines exactly as documented, and lines not carrying them are treated normally.",
  ["inputs","configurations"],"maps with any placement of special lines x builders on/off",
  NT+"build a map with special lines.",["gamespec.go","node_intro.go","blockmapgen.go","level.go","universal_interfaces.go"],
  "line classification when segs and blockmap are made; scroll groups","SEGS/BLOCKMAP/LINEDEFS lumps against a model")
p("C20","Multi-tree search returns the best tree it was asked to try",
  "A multi-tree build is valid like any other, is independent of the number of threads, and widening the set of root candidates never yields a worse tree by its documented criterion; it works on every map that ordinary building handles.",
  ["inputs","schedules","configurations"],"all maps x multi-tree modes x thread counts",
  NT+"run multi-tree.",["multitree_plain.go","stknode.go","nodegen.go","multiformat_tree.go"],
  "workers build one tree per root candidate; comparison with deterministic tie-break","node lumps of paired runs")
p("C21","Every command line is accepted or refused cleanly",
  "Any argument list either runs, shows the usage, or ends with a message and a non-zero status; it never crashes, hangs, or writes to a file the user did not name, and options given in the documented short and combined forms mean what the usage says.",
  ["inputs","configurations"],"all argument lists, including truncated, repeated, combined and garbled options",
  "Two tests parse a single string option.",["cmdparser.go","config.go","vigilantbsp.go"],
  "hand-written argument scanner","exit status, output and file system after the run")
p("C22","Any modifier file is handled without crashing",
  "Any bytes in a reject modifier file are either understood or reported, never crash or hang the run, and a faulty file does not corrupt the level: the output stays a valid WAD and lumps other than the reject are unaffected.",
  ["inputs"],"all byte strings as modifier files, including mutations of valid ones",
  "The parser tests cover a handful of well-formed files.",["rmbparse.go","rmbunit.go","rejectRMB.go","filecontrol.go"],
  "hand-written tokeniser and parser","exit status and output")
p("C23","Damaged or hostile WADs are refused or handled, never crash",
  "For any bytes given as input, the run ends in bounded time and memory with a message and non-zero status or with a valid output; it does not crash, and a level it cannot build does not damage other levels or lumps.",
  ["inputs"],"mutated and truncated WADs; levels with out-of-range references, crossing, overlapping, zero-length, dangling and extreme geometry",
  NT+"open a damaged file.",["wad.go","level.go","nodegen.go","blockmapgen.go","reject.go","universal_interfaces.go"],
  "bounds checks while loading level lumps","exit status and output")
p("C24","Line culling drops only what cannot matter",
  "Discarding invisible lines before node building only removes two-sided lines lying inside a single sector without textures or effects, never an outer wall, never the perimeter of a self-referencing sector, and leaves a tree that still locates every point in its sector.",
  ["inputs","configurations"],"maps with in-sector lines, self-referencing sectors, special lines x culling modes and formats",
  NT+"cull a map.",["segalias.go","nodegen.go","node_intro.go","selfref.go"],
  "culler perimeter tracking and recovery of lines","SEGS/NODES with culling on and off")
p("C25","Reported lump hashes are the true hashes",
  "When lump hashes are requested, each reported digest is the SHA-256 of that lump as stored in the output file, and every rebuilt lump is reported.",
  ["inputs","configurations"],"all WADs x build options",
  NT+"compute a hash.",["lumpwrite.go","writebus.go","mylogger.go","wad.go"],
  "hash computed while lumps are written","log text against output bytes")
p("C26","Rebuilding is stable: output is valid input with the same result",
  "Feeding the output back in with the same options gives the same authored geometry and the same blockmap, reject and node counts as the first run; data does not grow or drift from pass to pass.",
  ["histories","inputs"],"chains of rebuilds x options",
  NT+"run the tool twice.",["level.go","node_vmap.go","node_rearrange.go","wad.go","universal_interfaces.go"],
  "split vertices are pruned on load and regenerated","lumps of successive outputs")
p("C27","The figures and warnings a run prints are true of the file it wrote",
  "What the run reports about a level agrees with what it wrote: counts of subsectors, nodes, segs and splits, subtree heights, largest subsector, map extents, blockmap corner, largest block offset, number of lines left out of the blockmap, lump sizes, the list of levels rebuilt; and warnings (format kept or switched, unsigned ports needed, lumps left empty, lines without sidedefs) appear when, and only when, they apply.",
  ["inputs","configurations"],"all levels x build options",
  NT+"compare the report with the output.",["nodegen.go","node_outro.go","node_intro.go","blockmapgen.go","bblocks.go","multitree_plain.go","multiformat_tree.go","lumpwrite.go","level.go"],
  "running totals kept while trees and blockmaps are built and rearranged","log text against output bytes")
p("C28","Trying several blockmap offsets yields the best of them",
  "A search over blockmap origins without a goal ends with a blockmap at least as compatible and as small as every single origin it was told to try would give, ties going to the first origin in the documented order under -d; with a goal (vanilla limit, 65535 limit) it ends with a blockmap that meets it whenever one of those origins does. The result is byte for byte what building at that origin alone gives, for any number of threads.",
  ["inputs","configurations","schedules"],"all maps x offset choices x goals x compression options x thread counts",
  NT+"search over blockmap offsets.",["blockmapgen.go","bblocks.go","config.go"],
  "workers build blockmaps at several origins into pooled buffers, an aggregator keeps the best","BLOCKMAP lumps of a search against those of single fixed origins")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(json.dumps(x))
