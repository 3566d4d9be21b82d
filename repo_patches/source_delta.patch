From 745e60add0367029cce8285c77b56f3f1879c61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 01/59] fix: multi-tree mode crashed when no linedef was of the
 kind requested for root

On a map without two-sided lines, -nm=2 (or -nm=1 on a map without one-sided
ones) left no root candidates at all, so there was no best tree to return and
the nodes builder dereferenced nil. Try all the lines in this case.
---
 multitree_plain.go | 6 ++++++
 znodegen.go        | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/multitree_plain.go b/multitree_plain.go
index ce1bc53..001935f 100755
--- a/multitree_plain.go
+++ b/multitree_plain.go
@@ -129,6 +129,12 @@ func MTPSentinel_MakeBestBSPTree(w *NodesWork, bbox *NodeBounds,
 	if config.Roots == 0 { // reference to global: config
 		rootSegCandidates = MTPSentinel_GetRootSegCandidates(w.allSegs,
 			rootChoiceMethod)
+		if len(rootSegCandidates) == 0 {
+			// No linedef is of the kind requested (for example, there are no
+			// two-sided lines to choose from), so try all of them instead
+			rootSegCandidates = MTPSentinel_GetRootSegCandidates(w.allSegs,
+				MROOT_EVERY)
+		}
 	} else {
 		// code tree will pick from global config directly the needed things
 		// not a good API, admittedly
diff --git a/znodegen.go b/znodegen.go
index 40f11f7..f68b0b9 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -4278,6 +4278,10 @@ func ZExt_MTPSentinel_MakeBestBSPTree(w *ZExt_NodesWork, bbox *NodeBounds,
 	if config.Roots == 0 {
 		rootSegCandidates = ZExt_MTPSentinel_GetRootSegCandidates(w.allSegs,
 			rootChoiceMethod)
+		if len(rootSegCandidates) == 0 {
+			rootSegCandidates = ZExt_MTPSentinel_GetRootSegCandidates(w.allSegs,
+				MROOT_EVERY)
+		}
 	} else {
 
 		rootSegCandidates = ZExt_MTP_ZenRootEnumerate(w, bbox)
-- 
2.43.0


From 94baa1e2cca01884120ff939da546cc7ad76939f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 02/59] fix: blockmap block counts overflowed 16 bits on large
 maps

The product of block columns and rows was computed in uint16, so buffers
shared between blockmaps tried with different offsets were too short and the
default mode crashed on maps with more than 65535 blocks.
---
 blockmapgen.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/blockmapgen.go b/blockmapgen.go
index 6f65a5b..004cb8b 100755
--- a/blockmapgen.go
+++ b/blockmapgen.go
@@ -50,7 +50,7 @@ type BlockmapBeeInput struct {
 	offsetYStep  int16
 	replyTo      chan<- BlockmapBeeOutput
 	triedOffsets chan<- TriedOffsets
-	bailout      uint16
+	bailout      int
 	sieveMode    bool
 	subsetMode   int // bblocks.go!BCOMPRESS_XXX constants
 }
@@ -146,7 +146,7 @@ func BlockmapGenerator(input BlockmapInput, where chan<- []byte,
 		}
 	case BM_OFFSET_HEURISTIC:
 		{ // Heuristic method to reduce from 65536 offsets
-			bailout := uint16(0)
+			bailout := 0
 			xblocks := uint16(input.bounds.Xmax-input.bounds.Xmin)>>BLOCK_BITS + 1
 			yblocks := uint16(input.bounds.Ymax-input.bounds.Ymin)>>BLOCK_BITS + 1
 			ratio := float32(xblocks) / float32(yblocks)
@@ -156,7 +156,7 @@ func BlockmapGenerator(input BlockmapInput, where chan<- []byte,
 				Log.Printf("Will try all 65536 offsets for blockmap - map is close to quadratic.\n")
 				bailout = 0
 			} else {
-				bailout = (xblocks + 1) * (yblocks + 1)
+				bailout = (int(xblocks) + 1) * (int(yblocks) + 1)
 			}
 			BlockmapQueen(offsetXMax, offsetYMax, offsetStep, &input, where,
 				bailout, start, subsetMode)
@@ -196,7 +196,7 @@ func BlockmapGenerator(input BlockmapInput, where chan<- []byte,
 // Sets up a hive of bees to split the "build multiple blockmaps" workload
 // roughly even among the concurrent goroutines (called bees)
 func BlockmapQueen(offsetXMax int16, offsetYMax int16, offsetStep int16,
-	input *BlockmapInput, where chan<- []byte, bailout uint16, start time.Time,
+	input *BlockmapInput, where chan<- []byte, bailout int, start time.Time,
 	subsetMode int) {
 
 	var bees []chan BlockmapBeeOutput
@@ -272,7 +272,7 @@ func BlockmapQueen(offsetXMax int16, offsetYMax int16, offsetStep int16,
 // synchronously for bees to complete their work.
 func BlockmapHive(ctx context.Context, cancel context.CancelFunc,
 	bees []chan BlockmapBeeOutput, sieve *OffsetSieve, input *BlockmapInput,
-	offsetAggregators []chan TriedOffsets, bailout uint16, subsetMode int) []byte {
+	offsetAggregators []chan TriedOffsets, bailout int, subsetMode int) []byte {
 	beeCount := len(bees)
 	NA := reflect.Value{}
 	var best BlockmapBeeOutput
@@ -488,7 +488,7 @@ func BlockmapBee(ctx context.Context, bmConfig *BlockmapInput, beeConfig *Blockm
 			ymax := int(bmConfig.bounds.Ymax)
 			xblocks := uint16(xmax-xmin)>>BLOCK_BITS + 1
 			yblocks := uint16(ymax-ymin)>>BLOCK_BITS + 1
-			if beeConfig.bailout == (xblocks * yblocks) {
+			if beeConfig.bailout == int(xblocks)*int(yblocks) {
 				bailedOut = true
 				Log.Verbose(2, "Heuristics: offset (%d,%d) produces extra column and row\n", bmConfig.XOffset, bmConfig.YOffset)
 			}
@@ -589,7 +589,7 @@ func BMBeeMaxSize(b LevelBounds) int {
 	ymax := int(b.Ymax)
 	xblocks := uint16(xmax-xmin)>>BLOCK_BITS + 1
 	yblocks := uint16(ymax-ymin)>>BLOCK_BITS + 1
-	return int((xblocks + 1) * (yblocks + 1))
+	return (int(xblocks) + 1) * (int(yblocks) + 1)
 }
 
 func StatBlockmap(bm *Blockmap) {
@@ -891,7 +891,7 @@ func (s *OffsetSieve) CountHoles(LastXOffset, LastYOffset int16) int {
 // from multi-threading. In fact, multi-threading could be detrimental if number
 // of holes is very low, which is what indeed happens on maps I ran it on
 func BlockmapHoleChaser(oldBest *BlockmapBeeOutput, sieve *OffsetSieve,
-	LastXOffset, LastYOffset int16, input BlockmapInput, bailout uint16,
+	LastXOffset, LastYOffset int16, input BlockmapInput, bailout int,
 	cntHoles int, subsetMode int) BlockmapBeeOutput {
 	Log.Printf("Blockmap generator: backtracking to produce blockmap for %d skipped blockmap offsets to ensure determinism.\n",
 		cntHoles)
@@ -921,7 +921,7 @@ func BlockmapHoleChaser(oldBest *BlockmapBeeOutput, sieve *OffsetSieve,
 				ymax := int(input.bounds.Ymax)
 				xblocks := uint16(xmax-xmin)>>BLOCK_BITS + 1
 				yblocks := uint16(ymax-ymin)>>BLOCK_BITS + 1
-				if bailout == (xblocks * yblocks) {
+				if bailout == int(xblocks)*int(yblocks) {
 					bailedOut = true
 					Log.Verbose(2, "Heuristics: offset (%d,%d) produces extra column and row\n", input.XOffset, input.YOffset)
 				}
-- 
2.43.0


From a9d243c67636774fabab900479eae169aca403f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:36 +0000
Subject: [PATCH 03/59] fix: blockmap with more blocks than addressable by
 offsets crashed the builder

When the block table itself is beyond the reach of 16-bit offsets, no valid
lump exists. The code would still try to write it to a fixed size buffer, and
would truncate block indices when looking for identical blocklists. Report the
limits as exceeded right away, so that the lump gets written empty.
---
 bblocks.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/bblocks.go b/bblocks.go
index 8a9fdf0..1d498d3 100755
--- a/bblocks.go
+++ b/bblocks.go
@@ -393,6 +393,9 @@ func (bm *Blockmap) GetBytes() []byte {
 		// empty map
 		return nil
 	}
+	if bm.tooManyBlocks() {
+		return nil
+	}
 	blockOffsets := bm.gcShield.GetBlockOffsets(totalblocks)
 	hashes := bm.gcShield.GetHashes(totalblocks)
 	buckets := bm.gcShield.GetBuckets()
@@ -679,6 +682,9 @@ func (bm *Blockmap) GetBytesArcane(subsetMode int) []byte {
 	// But the number of unique BlocklistIdentity will go down during subset
 	// compression stage
 	totalblocks := len(bm.blocklist)
+	if bm.tooManyBlocks() {
+		return nil
+	}
 	hashes := bm.gcShield.GetHashes(totalblocks)
 	buckets := bm.gcShield.GetBuckets()
 	blocks := bm.gcShield.GetBlocks(totalblocks)
@@ -1025,6 +1031,19 @@ func (bm *Blockmap) LimitCheck(intBlockOffset int) {
 	}
 }
 
+// tooManyBlocks returns whether the block table alone is so big that no offset
+// to a blocklist could ever be represented. The limits are marked as exceeded
+// then. This is also what guarantees that block indices fit in 16 bits in the
+// code that merges identical blocklists
+func (bm *Blockmap) tooManyBlocks() bool {
+	firstOffset := binary.Size(bm.header)/2 + len(bm.blocklist)
+	if firstOffset < ANYPORT_BM_OFFSET_TOO_BIG {
+		return false
+	}
+	bm.LimitCheck(firstOffset)
+	return true
+}
+
 // IdentifyOrderAndSize returns {last identity to be written, number of words
 // for blocklist part of BLOCKMAP lump}
 // Return values remain valid if no further manipulations are done on blocklists,
-- 
2.43.0


From 7b1267d4e0df8f0c4ca722b03a52c8d98f8a6079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:52 +0000
Subject: [PATCH 04/59] fix: subset compression left blocks without a list when
 only the empty list was eligible for last

If every blocklist is a subset of another one down to the empty list, no
identity is chosen to be written last. When word stealing applied as well,
only the last block was written and other blocks kept zero or stale offsets;
on maps with many blocks the missing identity was dereferenced.
---
 bblocks.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bblocks.go b/bblocks.go
index 1d498d3..02d88d0 100755
--- a/bblocks.go
+++ b/bblocks.go
@@ -771,15 +771,14 @@ func (bm *Blockmap) GetBytesArcane(subsetMode int) []byte {
 	part_min := 0
 	part_max := 1
 	if identityToWriteLast == nil {
-		// single unique identity of zero size - write only once
+		// there is no identity we could single out to be written last: either
+		// all blocklists are empty, or all of them are subsets of one another
+		// down to the empty one. Everything is written in one go
 		part_max = 0
 	}
 
 	if bm.stealOneWord {
 		part_min = -1
-		if part_max == 0 { // we have a single unique identity of zero size
-			part_max = -1
-		}
 	}
 
 	// 4. Write out
@@ -1099,7 +1098,7 @@ func (bm *Blockmap) IdentifyOrderAndSize(chunks []*BlocklistChunk, blocks []Bloc
 	if bm.stealOneWord {
 		bmSize -= 2
 	}
-	if bmSize > (VANILLA_BM_OFFSET_TOO_BIG << 1) {
+	if identityToWriteLast != nil && bmSize > (VANILLA_BM_OFFSET_TOO_BIG<<1) {
 		// Note that blockmap's SIZE is only an issue if there is OFFSET to blocklist
 		// that goes beyond it. If the greatest offset is within the limit, it is
 		// fine even if the end of that blocklist is beyond it.
-- 
2.43.0


From cdf58e9c0a104c6b347a5a86e826b2c28b2f3af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:14 +0000
Subject: [PATCH 05/59] fix: creating a missing level lump crashed on its name

---
 wad.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wad.go b/wad.go
index 4b59b29..f94d0d0 100644
--- a/wad.go
+++ b/wad.go
@@ -254,7 +254,7 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 							FilePos: 0,
 							Size:    0,
 						}
-						copy(leOut[curOut].Name[:], []byte(LUMP_SORT_ORDER[key])[:8])
+						copy(leOut[curOut].Name[:], LUMP_SORT_ORDER[key])
 						oldIdxsToNew[-1*inss] = curOut
 						curOut++
 						inss++
-- 
2.43.0


From 88e3efd2a3207798d02e950eafcc4dffcfdb387f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 06/59] fix: SCRIPTS and duplicate level lumps corrupted the
 output directory

---
 wad.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/wad.go b/wad.go
index f94d0d0..9dd9127 100644
--- a/wad.go
+++ b/wad.go
@@ -26,7 +26,7 @@ import (
 	"os"
 )
 
-var LUMP_SORT_ORDER = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR"}
+var LUMP_SORT_ORDER = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SEGS", "SSECTORS", "NODES", "SECTORS", "REJECT", "BLOCKMAP", "BEHAVIOR", "SCRIPTS"}
 var LUMP_MUSTEXIST = []string{"THINGS", "LINEDEFS", "SIDEDEFS", "VERTEXES", "SECTORS"}
 var LUMP_CREATE = []string{"SEGS", "SSECTORS", "NODES", "REJECT", "BLOCKMAP"}
 
@@ -201,7 +201,6 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 			// Now let's conform lump order and existence to the specification
 			valid := true
 			lvlName := string(ByteSliceBeforeTerm(le[oldMainEntryIdx].Name[:]))
-			pendingDel := 0
 			for key, value := range validities[curLevel].requisites {
 				if value == 0 {
 					Log.Error("Level %s is not valid: missing lump %s\n", lvlName,
@@ -210,14 +209,10 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 				} else if value > 1 {
 					Log.Error("Level %s has one or more duplicate of lump %s - only one instance of this lump will remain\n",
 						lvlName, LUMP_MUSTEXIST[key])
-					// Some entries are not copied (ignored) to the output
-					pendingDel += value - 1
 				}
 			}
 			oldLevelLen := len(scheduleEntry.Level)
 			if valid {
-				nSize -= pendingDel
-				deltaCur -= pendingDel
 				// Level is valid. Create missing creatable lump entries,
 				// but delete duplicates
 				for key, value := range validities[curLevel].creatable {
@@ -237,10 +232,6 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 								DirIndex: (-1) * (len(scheduleEntry.Level) - oldLevelLen + 1),
 								Level:    nil,
 							})
-					} else if value > 1 {
-						// Some entries are not copied (ignored) to the output
-						nSize -= value - 1
-						deltaCur -= value - 1
 					}
 				}
 
@@ -262,11 +253,21 @@ func UpdateDirectoryAndSchedule(le []LumpEntry, scheduleRoot **ScheduledLump,
 						leOut[curOut] = le[value]
 						oldIdxsToNew[value] = curOut
 						curOut++
-					} // else can happen - BEHAVIOR is HEXEN-specific, not needs to be present otherwise
+					} // else can happen - BEHAVIOR and SCRIPTS are HEXEN-specific, not needs to be present otherwise
 				}
+				kept := make([]*ScheduledLump, 0, len(scheduleEntry.Level))
 				for _, subEntry := range scheduleEntry.Level {
-					subEntry.DirIndex = oldIdxsToNew[subEntry.DirIndex]
+					newIdx, ok := oldIdxsToNew[subEntry.DirIndex]
+					if !ok {
+						// Duplicate: not copied (ignored) to the output
+						nSize--
+						deltaCur--
+						continue
+					}
+					subEntry.DirIndex = newIdx
+					kept = append(kept, subEntry)
 				}
+				scheduleEntry.Level = kept
 			} else {
 				// Level is not valid, cannot be processed, will copy verbatim.
 				// To do this, a level record in schedule needs to be converted
-- 
2.43.0


From 9c25bb62c7f4f8b29a9b7a5edd1687df94168b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:17 +0000
Subject: [PATCH 07/59] fix: zero-filled reject crashed or got another level's
 size once the directory had shifted

---
 level.go | 4 ++--
 wad.go   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/level.go b/level.go
index 5870a50..f888c31 100755
--- a/level.go
+++ b/level.go
@@ -112,9 +112,9 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 		if bytes.Equal(bname, []byte("REJECT")) && config.Reject != REJECT_DONTTOUCH {
 			l.RejectLumpIdx = idx
 			if config.Reject == REJECT_ZEROFILLED {
-				calcrejectsize, leidx_ok := rejectsize[action.DirIndex]
+				calcrejectsize, leidx_ok := rejectsize[action.id]
 				if !leidx_ok {
-					panic("Rejectsize was not stored for key = <level marker lump DirIndex>")
+					panic("Rejectsize was not stored for key = <level marker lump id>")
 				}
 				le[idx].Size = calcrejectsize
 				private_offset := troll.PopOffset(calcrejectsize)
diff --git a/wad.go b/wad.go
index 9dd9127..a9efb21 100644
--- a/wad.go
+++ b/wad.go
@@ -443,7 +443,7 @@ func LoadWadDirectory(isInputWad bool, le []LumpEntry, rejectsize map[int]uint32
 			fracBytes := float64(numSectors) * float64(numSectors) / 8.0
 			numRejectSize := uint32(math.Ceil(fracBytes))
 			troll.AddSize(numRejectSize)
-			rejectsize[action.DirIndex] = numRejectSize
+			rejectsize[action.id] = numRejectSize
 		}
 	}
 
-- 
2.43.0


From 8707f7a8f23575a31950d5cb31c91c079802b0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:19 +0000
Subject: [PATCH 08/59] fix: zero-filled reject pool made the directory overlap
 the first lump

---
 vigilantbsp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vigilantbsp.go b/vigilantbsp.go
index ef5d7b8..e78fec4 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -213,7 +213,7 @@ func main() {
 		if zerosToInsert > 8 {
 			zerosToInsert = uint32(zerosToInsert - 8)
 		} else {
-			decr = 8 - zerosToInsert // how much to move directory back
+			decr = zerosToInsert // how much to move directory back
 			zerosToInsert = 0
 		}
 		wh.DirectoryStart = wh.DirectoryStart - decr
-- 
2.43.0


From 75221e91399a9542b6797863f08b5eb9e3cc5b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:25 +0000
Subject: [PATCH 09/59] fix: hash of deep nodes lump omitted its signature,
 zero-filled reject had none

---
 level.go     | 8 +++++++-
 lumpwrite.go | 7 ++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/level.go b/level.go
index f888c31..ba3ae7f 100755
--- a/level.go
+++ b/level.go
@@ -119,7 +119,13 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 				le[idx].Size = calcrejectsize
 				private_offset := troll.PopOffset(calcrejectsize)
 				le[idx].FilePos = rejectStart + private_offset
-				Log.Printf("Lump number %d (%s) has its size set to %d bytes.\n", idx, "REJECT", le[idx].Size)
+				hashSuffix := ""
+				if config.HashLumps {
+					hashSuffix = fmt.Sprintf(" (HASH: %s)",
+						Hash(make([]byte, calcrejectsize)))
+				}
+				Log.Printf("Lump number %d (%s) has its size set to %d bytes.%s\n", idx, "REJECT",
+					le[idx].Size, hashSuffix)
 			} else {
 				// for handleRejectNagging possibility (otherwise prefer to keep
 				// less initialized pointers)
diff --git a/lumpwrite.go b/lumpwrite.go
index fe02e47..57250f5 100755
--- a/lumpwrite.go
+++ b/lumpwrite.go
@@ -70,7 +70,12 @@ func ConvertAndWriteDeepNodes(data []DeepNode, curPos *uint32, fout *os.File,
 	sigCnt, _ := fout.Write(DEEPNODES_SIG[:])
 	binary.Write(fout, binary.LittleEndian, data)
 	if config.HashLumps {
-		hashSuffix = fmt.Sprintf(" (HASH: %s)", HashIntf(data))
+		// signature is part of the lump
+		hsh := sha256.New()
+		hsh.Write(DEEPNODES_SIG[:])
+		binary.Write(hsh, binary.LittleEndian, data)
+		hashSuffix = fmt.Sprintf(" (HASH: %s)",
+			base64.StdEncoding.EncodeToString(hsh.Sum(nil)))
 	}
 	dataLen := binary.Size(data)
 	le[lumpIdx].FilePos = *curPos
-- 
2.43.0


From 7010577f5e4308ca4f5c322f57a7874280cbbbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:06 +0000
Subject: [PATCH 10/59] fix: reject without two-sided lines hid every sector
 instead of being zero-filled

---
 reject.go     | 6 ++++++
 rejectFAST.go | 6 ++++++
 rejectSYMM.go | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/reject.go b/reject.go
index 745a7e4..2d16ad9 100755
--- a/reject.go
+++ b/reject.go
@@ -840,6 +840,12 @@ func (r *RejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool,
 	r.solidLines = r.solidLines[:numSolidLines]
 	r.transLines = r.transLines[:numTransLines]
 	r.seenLines = make([]uint8, numSolidLines>>3+1)
+	if numTransLines == 0 {
+		// There won't be any computations to mark anything as visible
+		for i, _ := range r.rejectTable {
+			r.rejectTable[i] = VIS_VISIBLE
+		}
+	}
 	// the second return value (message) will be displayed if numTransLines == 0
 	return numTransLines > 0, "Reject builder: not a single two-sided linedef between two distinct sectors was found. You will have a zero-filled REJECT.\n"
 }
diff --git a/rejectFAST.go b/rejectFAST.go
index b6886c5..29d4141 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -482,6 +482,12 @@ func (r *FastRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone bool
 	r.solidLines = r.solidLines[:numSolidLines]
 	r.transLines = r.transLines[:numTransLines]
 	r.seenLines = make([]uint8, numSolidLines>>3+1)
+	if numTransLines == 0 {
+
+		for i, _ := range r.rejectTable {
+			r.rejectTable[i] = VIS_VISIBLE
+		}
+	}
 
 	return numTransLines > 0, "Reject builder: not a single two-sided linedef between two distinct sectors was found. You will have a zero-filled REJECT.\n"
 }
diff --git a/rejectSYMM.go b/rejectSYMM.go
index b8cec01..89aee0d 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -430,6 +430,12 @@ func (r *SymmetricRejectWork) setupLines(rsetup *RejectInternalSetup) (setupDone
 	r.solidLines = r.solidLines[:numSolidLines]
 	r.transLines = r.transLines[:numTransLines]
 	r.seenLines = make([]uint8, numSolidLines>>3+1)
+	if numTransLines == 0 {
+
+		for i, _ := range r.rejectTable {
+			r.rejectTable[i] = VIS_VISIBLE
+		}
+	}
 
 	return numTransLines > 0, "Reject builder: not a single two-sided linedef between two distinct sectors was found. You will have a zero-filled REJECT.\n"
 }
-- 
2.43.0


From b8fe627239c98dc0ebbf3bdc31ffc7b09082fd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:23 +0000
Subject: [PATCH 11/59] fix: lines swapped for a line-of-sight test were used
 unswapped, so the wrong region was tested

---
 reject.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reject.go b/reject.go
index 2d16ad9..8a89f15 100755
--- a/reject.go
+++ b/reject.go
@@ -1601,7 +1601,7 @@ func adjustLinePair(src, tgt *TransLine, bisects *bool) bool {
 	// Make sure that src doesn't bi-sect tgt
 	if ((y1 > 0) && (y2 < 0)) || ((y1 < 0) && (y2 > 0)) {
 		// Swap src & tgt then recalculate the endpoints
-		src, tgt = tgt, src
+		*src, *tgt = *tgt, *src
 
 		y1 = src.DX*(tgt.start.Y-src.start.Y) - src.DY*(tgt.start.X-src.start.X)
 		y2 = src.DX*(tgt.end.Y-src.start.Y) - src.DY*(tgt.end.X-src.start.X)
-- 
2.43.0


From 476bd19df036dd0a744d9ccf99ea695f17dd911a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:24 +0000
Subject: [PATCH 12/59] fix: line of sight tested the wrong side when the
 dividing point was truncated to the start of the line

---
 reject.go     | 6 ++++++
 rejectFAST.go | 6 ++++++
 rejectSYMM.go | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/reject.go b/reject.go
index 8a89f15..ec6753c 100755
--- a/reject.go
+++ b/reject.go
@@ -1736,6 +1736,12 @@ func (r *RejectWork) divideRegion(src, tgt *TransLine) bool {
 	// See if we ran into an integer truncation problem (shortcut if we did)
 	if (crossPoint == *(src.start)) || (crossPoint == *(src.end)) {
 		Log.Verbose(3, "Reject: integer truncation detected in divideRegion for lines %d & %d\n", src.index, tgt.index)
+		if crossPoint == *(src.start) {
+			// Whole src is on the second side of tgt
+			tgt.start, tgt.end = tgt.end, tgt.start
+			tgt.DX = -tgt.DX
+			tgt.DY = -tgt.DY
+		}
 		return r.checkLOS(src, tgt)
 	}
 
diff --git a/rejectFAST.go b/rejectFAST.go
index 29d4141..8b48f40 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1035,6 +1035,12 @@ func (r *FastRejectWork) divideRegion(src, tgt *TransLine) bool {
 
 	if (crossPoint == *(src.start)) || (crossPoint == *(src.end)) {
 		Log.Verbose(3, "Reject: integer truncation detected in divideRegion for lines %d & %d\n", src.index, tgt.index)
+		if crossPoint == *(src.start) {
+
+			tgt.start, tgt.end = tgt.end, tgt.start
+			tgt.DX = -tgt.DX
+			tgt.DY = -tgt.DY
+		}
 		return r.checkLOS(src, tgt)
 	}
 
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 89aee0d..4475194 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -967,6 +967,12 @@ func (r *SymmetricRejectWork) divideRegion(src, tgt *TransLine) bool {
 
 	if (crossPoint == *(src.start)) || (crossPoint == *(src.end)) {
 		Log.Verbose(3, "Reject: integer truncation detected in divideRegion for lines %d & %d\n", src.index, tgt.index)
+		if crossPoint == *(src.start) {
+
+			tgt.start, tgt.end = tgt.end, tgt.start
+			tgt.DX = -tgt.DX
+			tgt.DY = -tgt.DY
+		}
 		return r.checkLOS(src, tgt)
 	}
 
-- 
2.43.0


From 6cf09a733645f7baab01494f3b4cb8ec506e78d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:08 +0000
Subject: [PATCH 13/59] fix: end the blockmap generator once the early result
 has been delivered

With an end goal and conditional subset compression the first blockmap may
already be good enough. It was sent, but the generator went on to try all
offsets and then blocked forever sending a second result nobody reads.
---
 blockmapgen.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blockmapgen.go b/blockmapgen.go
index 004cb8b..d2a5e12 100755
--- a/blockmapgen.go
+++ b/blockmapgen.go
@@ -128,6 +128,7 @@ func BlockmapGenerator(input BlockmapInput, where chan<- []byte,
 			// fitting blockmap might have already been found
 			Blockmap_ReportTime(start, subsetMode)
 			where <- data
+			return
 		}
 	} // else must be that one fixed offset mode
 
@@ -177,6 +178,7 @@ func BlockmapGenerator(input BlockmapInput, where chan<- []byte,
 			if data != nil {
 				Blockmap_ReportTime(start, subsetMode)
 				where <- data
+				return
 			}
 			bm := CreateBlockmap(&input)
 			if subsetMode != BSUBSET_NOCOMPRESSION {
-- 
2.43.0


From 69edcdccbff5e34f0d1dbb47c0362775d026bfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:42 +0000
Subject: [PATCH 14/59] fix: do not crash when --roots finds no suitable root
 line

The fallback to all lines applied only without --roots; the fallback pick
was stored out of bounds; and the requested count was allocated unchecked.
---
 multitree_plain.go | 12 ++++++------
 picknode.go        |  5 ++++-
 znodegen.go        | 14 +++++++++-----
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/multitree_plain.go b/multitree_plain.go
index 001935f..72cd3a6 100755
--- a/multitree_plain.go
+++ b/multitree_plain.go
@@ -129,17 +129,17 @@ func MTPSentinel_MakeBestBSPTree(w *NodesWork, bbox *NodeBounds,
 	if config.Roots == 0 { // reference to global: config
 		rootSegCandidates = MTPSentinel_GetRootSegCandidates(w.allSegs,
 			rootChoiceMethod)
-		if len(rootSegCandidates) == 0 {
-			// No linedef is of the kind requested (for example, there are no
-			// two-sided lines to choose from), so try all of them instead
-			rootSegCandidates = MTPSentinel_GetRootSegCandidates(w.allSegs,
-				MROOT_EVERY)
-		}
 	} else {
 		// code tree will pick from global config directly the needed things
 		// not a good API, admittedly
 		rootSegCandidates = MTP_ZenRootEnumerate(w, bbox)
 	}
+	if len(rootSegCandidates) == 0 {
+		// No linedef is of the kind requested (for example, there are no
+		// two-sided lines to choose from), so try all of them instead
+		rootSegCandidates = MTPSentinel_GetRootSegCandidates(w.allSegs,
+			MROOT_EVERY)
+	}
 	// whether vanilla nodes format is required or preferred, AND we should be
 	// choosing best tree among specifically vanilla whenever any vanilla-compatible
 	// tree exists
diff --git a/picknode.go b/picknode.go
index 60b6fcf..926a5d7 100755
--- a/picknode.go
+++ b/picknode.go
@@ -1989,7 +1989,7 @@ func PickNode_ZennodeDepth(w *NodesWork, ts *NodeSeg, bbox *NodeBounds,
 		if len(w.zenScores) == 0 { // hopefully never happens
 			w.mlog.Printf("Failed to score segs, falling back to scoreless pick.\n")
 			w.parts = make([]*NodeSeg, 1)
-			w.parts[1] = best
+			w.parts[0] = best
 			if best == nil {
 				Log.Merge(w.mlog, "") // ensure user sees the above error before panic
 				Log.Panic("Failed hard -- no pick at all, for root of all things!\n")
@@ -1999,6 +1999,9 @@ func PickNode_ZennodeDepth(w *NodesWork, ts *NodeSeg, bbox *NodeBounds,
 		ZenPickBestScore(w.zenScores)
 		rootN := config.Roots                      // reference to global: config
 		rootChoiceMethod := config.SpecialRootMode // reference to global: config
+		if rootN > len(w.zenScores) {
+			rootN = len(w.zenScores)
+		}
 		w.parts = make([]*NodeSeg, 0, rootN)
 		i := 0
 		j := 0
diff --git a/znodegen.go b/znodegen.go
index f68b0b9..9aba75c 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -3473,7 +3473,7 @@ func ZExt_PickNode_ZennodeDepth(w *ZExt_NodesWork, ts *ZExt_NodeSeg, bbox *NodeB
 		if len(w.zenScores) == 0 {
 			w.mlog.Printf("Failed to score segs, falling back to scoreless pick.\n")
 			w.parts = make([]*ZExt_NodeSeg, 1)
-			w.parts[1] = best
+			w.parts[0] = best
 			if best == nil {
 				Log.Merge(w.mlog, "")
 				Log.Panic("Failed hard -- no pick at all, for root of all things!\n")
@@ -3483,6 +3483,9 @@ func ZExt_PickNode_ZennodeDepth(w *ZExt_NodesWork, ts *ZExt_NodeSeg, bbox *NodeB
 		ZExt_ZenPickBestScore(w.zenScores)
 		rootN := config.Roots
 		rootChoiceMethod := config.SpecialRootMode
+		if rootN > len(w.zenScores) {
+			rootN = len(w.zenScores)
+		}
 		w.parts = make([]*ZExt_NodeSeg, 0, rootN)
 		i := 0
 		j := 0
@@ -4278,14 +4281,15 @@ func ZExt_MTPSentinel_MakeBestBSPTree(w *ZExt_NodesWork, bbox *NodeBounds,
 	if config.Roots == 0 {
 		rootSegCandidates = ZExt_MTPSentinel_GetRootSegCandidates(w.allSegs,
 			rootChoiceMethod)
-		if len(rootSegCandidates) == 0 {
-			rootSegCandidates = ZExt_MTPSentinel_GetRootSegCandidates(w.allSegs,
-				MROOT_EVERY)
-		}
 	} else {
 
 		rootSegCandidates = ZExt_MTP_ZenRootEnumerate(w, bbox)
 	}
+	if len(rootSegCandidates) == 0 {
+
+		rootSegCandidates = ZExt_MTPSentinel_GetRootSegCandidates(w.allSegs,
+			MROOT_EVERY)
+	}
 
 	vanillaBias := w.nodeType == NODETYPE_VANILLA && !config.Ableist
 
-- 
2.43.0


From 490f066e89fd765e990f223235ea67b9c5ddd3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 15/59] fix: inverted and band BLIND and SAFE reject options
 combine as documented

---
 rejectFAST.go | 30 ++++++++++++++++++++++--------
 rejectRMB.go  | 36 ++++++++++++++++++++++++++++--------
 rejectSYMM.go | 30 ++++++++++++++++++++++--------
 3 files changed, 72 insertions(+), 24 deletions(-)

diff --git a/rejectFAST.go b/rejectFAST.go
index 8b48f40..097f167 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1145,12 +1145,15 @@ func (r *FastRejectWork) prepareBlind(command RMBCommand, sectors []SectorRMB) {
 					continue
 				}
 				if command.Invert {
+
 					sector.Blind = 7
+					sector.BlindLo = command.Data[1]
+					sector.BlindHi = command.Data[0]
 				} else {
 					sector.Blind = 4
+					sector.BlindLo = command.Data[0]
+					sector.BlindHi = command.Data[1]
 				}
-				sector.BlindLo = command.Data[0]
-				sector.BlindHi = command.Data[1]
 			}
 		}
 	} else {
@@ -1185,12 +1188,15 @@ func (r *FastRejectWork) prepareSafe(command RMBCommand, sectors []SectorRMB) {
 					continue
 				}
 				if command.Invert {
+
 					sector.Safe = 7
+					sector.SafeLo = command.Data[1]
+					sector.SafeHi = command.Data[0]
 				} else {
 					sector.Safe = 4
+					sector.SafeLo = command.Data[0]
+					sector.SafeHi = command.Data[1]
 				}
-				sector.SafeLo = command.Data[0]
-				sector.SafeHi = command.Data[1]
 			}
 		}
 	} else {
@@ -1230,8 +1236,8 @@ func (r *FastRejectWork) rmbGetGroup(sectors []SectorRMB, num int, command RMBCo
 
 func (r *FastRejectWork) applyBlind(sector SectorRMB, i int) {
 	if sector.Blind == 3 {
-		if sector.BlindLo > sector.BlindHi {
-			sector.BlindLo, sector.BlindHi = sector.BlindHi, sector.BlindLo
+
+		if sector.BlindHi > sector.BlindLo {
 			sector.Blind = 4
 		}
 	}
@@ -1263,8 +1269,8 @@ func (r *FastRejectWork) applyBlind(sector SectorRMB, i int) {
 
 func (r *FastRejectWork) applySafe(sector SectorRMB, i int) {
 	if sector.Safe == 3 {
-		if sector.SafeLo > sector.SafeHi {
-			sector.SafeLo, sector.SafeHi = sector.SafeHi, sector.SafeLo
+
+		if sector.SafeHi > sector.SafeLo {
 			sector.Safe = 4
 		}
 	}
@@ -1609,6 +1615,10 @@ func (fr *RMBFrame) FastprocessSimpleBlindSafeOptions(r *FastRejectWork, sectors
 }
 
 func (r *FastRejectWork) applySimpleBlind(sector SectorRMB, i int) {
+	if sector.Blind == 3 && sector.BlindHi > sector.BlindLo {
+
+		sector.Blind = 2
+	}
 
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
@@ -1634,6 +1644,10 @@ func (r *FastRejectWork) applySimpleBlind(sector SectorRMB, i int) {
 }
 
 func (r *FastRejectWork) applySimpleSafe(sector SectorRMB, i int) {
+	if sector.Safe == 3 && sector.SafeHi > sector.SafeLo {
+
+		sector.Safe = 2
+	}
 
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
diff --git a/rejectRMB.go b/rejectRMB.go
index 1b65028..a291b61 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -325,12 +325,16 @@ func (r *RejectWork) prepareBlind(command RMBCommand, sectors []SectorRMB) {
 					continue
 				}
 				if command.Invert {
+					// everything outside the band: beyond its upper bound
+					// (normal), or short of the lower one (inverse)
 					sector.Blind = 7
+					sector.BlindLo = command.Data[1]
+					sector.BlindHi = command.Data[0]
 				} else {
 					sector.Blind = 4
+					sector.BlindLo = command.Data[0]
+					sector.BlindHi = command.Data[1]
 				}
-				sector.BlindLo = command.Data[0]
-				sector.BlindHi = command.Data[1]
 			}
 		}
 	} else {
@@ -366,12 +370,16 @@ func (r *RejectWork) prepareSafe(command RMBCommand, sectors []SectorRMB) {
 					continue
 				}
 				if command.Invert {
+					// everything outside the band: beyond its upper bound
+					// (normal), or short of the lower one (inverse)
 					sector.Safe = 7
+					sector.SafeLo = command.Data[1]
+					sector.SafeHi = command.Data[0]
 				} else {
 					sector.Safe = 4
+					sector.SafeLo = command.Data[0]
+					sector.SafeHi = command.Data[1]
 				}
-				sector.SafeLo = command.Data[0]
-				sector.SafeHi = command.Data[1]
 			}
 		}
 	} else {
@@ -427,8 +435,9 @@ func rmbCheckSectorInRange(numSectors, i int, command RMBCommand) bool {
 
 func (r *RejectWork) applyBlind(sector SectorRMB, i int) {
 	if sector.Blind == 3 {
-		if sector.BlindLo > sector.BlindHi {
-			sector.BlindLo, sector.BlindHi = sector.BlindHi, sector.BlindLo
+		// Only if the inverse distance exceeds the normal one, the two make
+		// a band where they overlap. Otherwise each is applied in full
+		if sector.BlindHi > sector.BlindLo {
 			sector.Blind = 4
 		}
 	}
@@ -467,8 +476,9 @@ func (r *RejectWork) applyBlind(sector SectorRMB, i int) {
 
 func (r *RejectWork) applySafe(sector SectorRMB, i int) {
 	if sector.Safe == 3 {
-		if sector.SafeLo > sector.SafeHi {
-			sector.SafeLo, sector.SafeHi = sector.SafeHi, sector.SafeLo
+		// Only if the inverse distance exceeds the normal one, the two make
+		// a band where they overlap. Otherwise each is applied in full
+		if sector.SafeHi > sector.SafeLo {
 			sector.Safe = 4
 		}
 	}
@@ -1177,6 +1187,11 @@ func (fr *RMBFrame) processSimpleBlindSafeOptions(r *RejectWork,
 }
 
 func (r *RejectWork) applySimpleBlind(sector SectorRMB, i int) {
+	if sector.Blind == 3 && sector.BlindHi > sector.BlindLo {
+		// normal 0 and inverse 1 overlap only in the sector itself, which is
+		// what the inverse part hides
+		sector.Blind = 2
+	}
 	// Not relying on distanceTable means having to account for groups here
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
@@ -1203,6 +1218,11 @@ func (r *RejectWork) applySimpleBlind(sector SectorRMB, i int) {
 }
 
 func (r *RejectWork) applySimpleSafe(sector SectorRMB, i int) {
+	if sector.Safe == 3 && sector.SafeHi > sector.SafeLo {
+		// normal 0 and inverse 1 overlap only in the sector itself, which is
+		// what the inverse part hides
+		sector.Safe = 2
+	}
 	// Not relying on distanceTable means having to account for groups here
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 4475194..ea64df7 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -1077,12 +1077,15 @@ func (r *SymmetricRejectWork) prepareBlind(command RMBCommand, sectors []SectorR
 					continue
 				}
 				if command.Invert {
+
 					sector.Blind = 7
+					sector.BlindLo = command.Data[1]
+					sector.BlindHi = command.Data[0]
 				} else {
 					sector.Blind = 4
+					sector.BlindLo = command.Data[0]
+					sector.BlindHi = command.Data[1]
 				}
-				sector.BlindLo = command.Data[0]
-				sector.BlindHi = command.Data[1]
 			}
 		}
 	} else {
@@ -1117,12 +1120,15 @@ func (r *SymmetricRejectWork) prepareSafe(command RMBCommand, sectors []SectorRM
 					continue
 				}
 				if command.Invert {
+
 					sector.Safe = 7
+					sector.SafeLo = command.Data[1]
+					sector.SafeHi = command.Data[0]
 				} else {
 					sector.Safe = 4
+					sector.SafeLo = command.Data[0]
+					sector.SafeHi = command.Data[1]
 				}
-				sector.SafeLo = command.Data[0]
-				sector.SafeHi = command.Data[1]
 			}
 		}
 	} else {
@@ -1162,8 +1168,8 @@ func (r *SymmetricRejectWork) rmbGetGroup(sectors []SectorRMB, num int, command
 
 func (r *SymmetricRejectWork) applyBlind(sector SectorRMB, i int) {
 	if sector.Blind == 3 {
-		if sector.BlindLo > sector.BlindHi {
-			sector.BlindLo, sector.BlindHi = sector.BlindHi, sector.BlindLo
+
+		if sector.BlindHi > sector.BlindLo {
 			sector.Blind = 4
 		}
 	}
@@ -1195,8 +1201,8 @@ func (r *SymmetricRejectWork) applyBlind(sector SectorRMB, i int) {
 
 func (r *SymmetricRejectWork) applySafe(sector SectorRMB, i int) {
 	if sector.Safe == 3 {
-		if sector.SafeLo > sector.SafeHi {
-			sector.SafeLo, sector.SafeHi = sector.SafeHi, sector.SafeLo
+
+		if sector.SafeHi > sector.SafeLo {
 			sector.Safe = 4
 		}
 	}
@@ -1526,6 +1532,10 @@ func (fr *RMBFrame) SymmetricprocessSimpleBlindSafeOptions(r *SymmetricRejectWor
 }
 
 func (r *SymmetricRejectWork) applySimpleBlind(sector SectorRMB, i int) {
+	if sector.Blind == 3 && sector.BlindHi > sector.BlindLo {
+
+		sector.Blind = 2
+	}
 
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
@@ -1551,6 +1561,10 @@ func (r *SymmetricRejectWork) applySimpleBlind(sector SectorRMB, i int) {
 }
 
 func (r *SymmetricRejectWork) applySimpleSafe(sector SectorRMB, i int) {
+	if sector.Safe == 3 && sector.SafeHi > sector.SafeLo {
+
+		sector.Safe = 2
+	}
 
 	grI := r.groups[i].parent
 	for j := 0; j < r.numSectors; j++ {
-- 
2.43.0


From 8de4d193fa1fc54d35d139fe43e172411283fa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 16/59] fix: reject options that use distance apply on maps
 without see-through lines

---
 reject.go     | 10 ++++++++++
 rejectFAST.go |  9 +++++++++
 rejectSYMM.go |  9 +++++++++
 3 files changed, 28 insertions(+)

diff --git a/reject.go b/reject.go
index ec6753c..a842761 100755
--- a/reject.go
+++ b/reject.go
@@ -467,6 +467,16 @@ func (r *RejectWork) main(input RejectInput, hasGroups bool, groupShareVis bool,
 		// this is ok thing if it is result of NOPROCESS applying, and doesn't then
 		// mean an error
 		Log.Printf(causeSkip)
+
+		if rsetup.needDistances {
+			// No lines to see through is no reason to ignore the options that
+			// depend on distance (never happens in case of NOPROCESS)
+			r.sectors = createSectorInfo(r.numSectors, r.transLines)
+			if r.hasGroups {
+				computeGroupNeighbors(r.groups, r.sectors)
+			}
+			r.CreateDistanceTable()
+		}
 	}
 
 	// Apply special RMB rules (now that all physical LOS calculations are either
diff --git a/rejectFAST.go b/rejectFAST.go
index 097f167..e96d94d 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -176,6 +176,15 @@ func (r *FastRejectWork) main(input RejectInput, hasGroups bool, groupShareVis b
 		r.NoNeedSolidBlockmap()
 
 		Log.Printf(causeSkip)
+
+		if rsetup.needDistances {
+
+			r.sectors = createSectorInfo(r.numSectors, r.transLines)
+			if r.hasGroups {
+				computeGroupNeighbors(r.groups, r.sectors)
+			}
+			r.CreateDistanceTable()
+		}
 	}
 
 	r.rmbFrame.FastProcessOptionsRMB(r)
diff --git a/rejectSYMM.go b/rejectSYMM.go
index ea64df7..9bfcf13 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -176,6 +176,15 @@ func (r *SymmetricRejectWork) main(input RejectInput, hasGroups bool, groupShare
 		r.NoNeedSolidBlockmap()
 
 		Log.Printf(causeSkip)
+
+		if rsetup.needDistances {
+
+			r.sectors = createSectorInfo(r.numSectors, r.transLines)
+			if r.hasGroups {
+				computeGroupNeighbors(r.groups, r.sectors)
+			}
+			r.CreateDistanceTable()
+		}
 	}
 
 	r.rmbFrame.SymmetricProcessOptionsRMB(r)
-- 
2.43.0


From 435c506349d82ae90b2c8cfe0993e27bdc078880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 17/59] fix: DISTANCE reject option measured the distance to a
 line wrongly

---
 rejectFAST.go | 7 ++-----
 rejectRMB.go  | 9 ++++-----
 rejectSYMM.go | 7 ++-----
 3 files changed, 8 insertions(+), 15 deletions(-)

diff --git a/rejectFAST.go b/rejectFAST.go
index e96d94d..8752d6b 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -1504,11 +1504,8 @@ func (r *FastRejectWork) pointTooFar(p *IntVertex, line *TransLine) bool {
 		return !(r.mapDistance(p, p2) < r.maxDistance)
 	}
 
-	d := (int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X)) / int64(line.H)
-	if d < 0 {
-		return false
-	}
-	return !(uint64(d) < r.maxDistance)
+	d := float64(int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X))
+	return !(d*d/float64(line.H) < float64(r.maxDistance))
 }
 
 func (r *FastRejectWork) mapDistance(p1, p2 *IntVertex) uint64 {
diff --git a/rejectRMB.go b/rejectRMB.go
index a291b61..1f90ba7 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -818,11 +818,10 @@ func (r *RejectWork) pointTooFar(p *IntVertex, line *TransLine) bool {
 		return !(r.mapDistance(p, p2) < r.maxDistance)
 	}
 
-	d := (int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X)) / int64(line.H)
-	if d < 0 {
-		return false // guaranteed d < r.maxDistance, since maxDistance is non-negative
-	}
-	return !(uint64(d) < r.maxDistance)
+	// Squared distance to the line, since maxDistance is squared as well. The
+	// square of cross product might not fit into integer
+	d := float64(int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X))
+	return !(d*d/float64(line.H) < float64(r.maxDistance))
 }
 
 func (r *RejectWork) mapDistance(p1, p2 *IntVertex) uint64 {
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 9bfcf13..1f42b76 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -1436,11 +1436,8 @@ func (r *SymmetricRejectWork) pointTooFar(p *IntVertex, line *TransLine) bool {
 		return !(r.mapDistance(p, p2) < r.maxDistance)
 	}
 
-	d := (int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X)) / int64(line.H)
-	if d < 0 {
-		return false
-	}
-	return !(uint64(d) < r.maxDistance)
+	d := float64(int64(line.DX)*int64(p.Y-p1.Y) - int64(line.DY)*int64(p.X-p1.X))
+	return !(d*d/float64(line.H) < float64(r.maxDistance))
 }
 
 func (r *SymmetricRejectWork) mapDistance(p1, p2 *IntVertex) uint64 {
-- 
2.43.0


From d3429a9ba92f4644649f22ceb0802670b0308713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:53 +0000
Subject: [PATCH 18/59] fix: neighbours of one sector of a group are seen from
 the whole group

---
 reject.go     | 2 +-
 rejectFAST.go | 2 +-
 rejectSYMM.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/reject.go b/reject.go
index a842761..50792bc 100755
--- a/reject.go
+++ b/reject.go
@@ -1489,7 +1489,7 @@ func (r *RejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup) {
 		for j := 0; j < sec.numNeighbors; j++ {
 			nei := sec.neighbors[j]
 			if nei.index > sec.index {
-				r.markVisibilitySector(sec.index, nei.index, VIS_VISIBLE)
+				r.markVisibility(sec.index, nei.index, VIS_VISIBLE)
 			}
 		}
 	}
diff --git a/rejectFAST.go b/rejectFAST.go
index 8752d6b..3dad657 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -900,7 +900,7 @@ func (r *FastRejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup) {
 		for j := 0; j < sec.numNeighbors; j++ {
 			nei := sec.neighbors[j]
 			if nei.index > sec.index {
-				r.markVisibilitySector(sec.index, nei.index, VIS_VISIBLE)
+				r.markVisibility(sec.index, nei.index, VIS_VISIBLE)
 			}
 		}
 	}
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 1f42b76..292e4be 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -832,7 +832,7 @@ func (r *SymmetricRejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup)
 		for j := 0; j < sec.numNeighbors; j++ {
 			nei := sec.neighbors[j]
 			if nei.index > sec.index {
-				r.markVisibilitySector(sec.index, nei.index, VIS_VISIBLE)
+				r.markVisibility(sec.index, nei.index, VIS_VISIBLE)
 			}
 		}
 	}
-- 
2.43.0


From e1b4d221d4da8bcac478ec2152811012697ba0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 19/59] fix: a sector without see-through lines sees what the
 rest of its group does

---
 reject.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reject.go b/reject.go
index 50792bc..dc25a8e 100755
--- a/reject.go
+++ b/reject.go
@@ -1455,6 +1455,11 @@ func (r *RejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup) {
 		if r.sectors[i].numLines == 0 {
 			sly, _ := rsetup.slyLinesInSector[uint16(i)]
 			if !sly {
+				if r.groupShareVis && !r.sectorIsNotGroup(i) {
+					// other sectors in the same group might see something,
+					// and this one should then see it as well
+					continue
+				}
 				for j := 0; j < r.numSectors; j++ {
 					r.markVisibilitySector(i, j, VIS_HIDDEN)
 				}
-- 
2.43.0


From 48c4ea4d8118d54f53722d5d2707dff9d94de1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 20/59] fix: distances between sector groups were spoiled by
 leftovers of other rows

---
 rejectRMB.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rejectRMB.go b/rejectRMB.go
index 1f90ba7..35cb626 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -682,6 +682,10 @@ func (r *RejectWork) distanceTableFromGroups(distanceTable []uint16,
 		}
 		parent := uint16(r.groups[i].parent) // GroupBFS supports only legal groups
 		distanceRow := distanceTable[offset : offset+numSectors]
+		for j := range distanceRow {
+			// may contain the unused end of some previous row
+			distanceRow[j] = 65535
+		}
 		itLength := GroupBFS(r.groups, distanceRow, parent, queue)
 		for grI, _ := range r.groups {
 			// After GroupBFS is done, now fill the slots of all "not legal"
-- 
2.43.0


From 31f5419db023066a6d2fa382a84d2f6da3caa5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 21/59] fix: LENGTH reject option hid sectors reachable through
 a group

---
 rejectFAST.go | 8 ++++++++
 rejectRMB.go  | 2 +-
 rejectSYMM.go | 8 ++++++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/rejectFAST.go b/rejectFAST.go
index 3dad657..ea4f68f 100755
--- a/rejectFAST.go
+++ b/rejectFAST.go
@@ -875,6 +875,10 @@ func (r *FastRejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup) {
 		if r.sectors[i].numLines == 0 {
 			sly, _ := rsetup.slyLinesInSector[uint16(i)]
 			if !sly {
+				if r.groupShareVis && !r.sectorIsNotGroup(i) {
+
+					continue
+				}
 				for j := 0; j < r.numSectors; j++ {
 					r.markVisibilitySector(i, j, VIS_HIDDEN)
 				}
@@ -1407,6 +1411,10 @@ func (r *FastRejectWork) distanceTableFromGroups(distanceTable []uint16,
 		}
 		parent := uint16(r.groups[i].parent)
 		distanceRow := distanceTable[offset : offset+numSectors]
+		for j := range distanceRow {
+
+			distanceRow[j] = 65535
+		}
 		itLength := GroupBFS(r.groups, distanceRow, parent, queue)
 		for grI, _ := range r.groups {
 
diff --git a/rejectRMB.go b/rejectRMB.go
index 35cb626..a9b0820 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -156,7 +156,7 @@ func (fr *RMBFrame) HasOptionTrickyForGroups() bool {
 	}
 	for _, cmd := range fr.Commands {
 		switch cmd.Type {
-		case RMB_DISTANCE, RMB_LINE:
+		case RMB_DISTANCE, RMB_LENGTH, RMB_LINE:
 			{
 				return true
 			}
diff --git a/rejectSYMM.go b/rejectSYMM.go
index 292e4be..711e4e9 100755
--- a/rejectSYMM.go
+++ b/rejectSYMM.go
@@ -807,6 +807,10 @@ func (r *SymmetricRejectWork) eliminateTrivialCases(rsetup *RejectInternalSetup)
 		if r.sectors[i].numLines == 0 {
 			sly, _ := rsetup.slyLinesInSector[uint16(i)]
 			if !sly {
+				if r.groupShareVis && !r.sectorIsNotGroup(i) {
+
+					continue
+				}
 				for j := 0; j < r.numSectors; j++ {
 					r.markVisibilitySector(i, j, VIS_HIDDEN)
 				}
@@ -1339,6 +1343,10 @@ func (r *SymmetricRejectWork) distanceTableFromGroups(distanceTable []uint16,
 		}
 		parent := uint16(r.groups[i].parent)
 		distanceRow := distanceTable[offset : offset+numSectors]
+		for j := range distanceRow {
+
+			distanceRow[j] = 65535
+		}
 		itLength := GroupBFS(r.groups, distanceRow, parent, queue)
 		for grI, _ := range r.groups {
 
-- 
2.43.0


From 2f81c2849d65121d42ca5209f8c0d4c264c483fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 22/59] fix: errors writing the output were ignored and
 reported as success

A full disk or a failing device produced a truncated wad that replaced the
input, with exit status 0. Remember the first error, clean up, exit non-zero;
keep the temporary file if overwriting the input failed half way.
---
 filecontrol.go | 36 ++++++++++++++++++++++++++++-----
 lumpwrite.go   | 55 +++++++++++++++++++++++++++++++++++++++++---------
 vigilantbsp.go | 33 +++++++++++++++++++-----------
 wad.go         | 12 +++--------
 writebus.go    | 14 +++++++++----
 5 files changed, 111 insertions(+), 39 deletions(-)

diff --git a/filecontrol.go b/filecontrol.go
index b573f5b..95f6bdd 100644
--- a/filecontrol.go
+++ b/filecontrol.go
@@ -112,14 +112,18 @@ func (fc *FileControl) CloseReportFile(suc bool) bool {
 	if fc.freport == nil {
 		return true
 	}
+	var err error
 	if suc {
-		fc.freport.Write([]byte("# Report written successfully - no entries lost\n"))
+		_, err = fc.freport.Write([]byte("# Report written successfully - no entries lost\n"))
 	} else {
-		fc.freport.Write([]byte("# Program aborted, report might be missing entries\n"))
+		_, err = fc.freport.Write([]byte("# Program aborted, report might be missing entries\n"))
+	}
+	errClose := fc.freport.Close()
+	if err == nil {
+		err = errClose
 	}
-	err := fc.freport.Close()
 	if err != nil {
-		Log.Error("Couldn't close report file '%s': %s\n", fc.reportFileName, err.Error())
+		Log.Error("Couldn't write report file '%s': %s\n", fc.reportFileName, err.Error())
 	} else {
 		if suc {
 			Log.Printf("Written report file %s\n", fc.reportFileName)
@@ -137,6 +141,7 @@ func (fc *FileControl) Success() bool {
 	}
 	errFin := fc.fin.Close()
 	errFout := fc.fout.Close()
+	fc.fin, fc.fout = nil, nil
 	sucReport := fc.CloseReportFile(true)
 	hasError := errFin != nil || errFout != nil || !sucReport
 	if hasError {
@@ -158,6 +163,15 @@ func (fc *FileControl) Success() bool {
 	return success2   // but the criteria to report success to user is different - no errors should have happened
 }
 
+// FailWriting reports error that made it impossible to write the output wad,
+// cleans up and terminates the program
+func (fc *FileControl) FailWriting(err error) {
+	Log.Error("An error has occured while trying to create/modify %s: %s\n",
+		fc.outputFileName, err)
+	fc.Shutdown()
+	os.Exit(1)
+}
+
 func (fc *FileControl) tempFileReplacesInput() bool {
 	success := true
 	// now former output - temp file - is where we read from,
@@ -166,8 +180,10 @@ func (fc *FileControl) tempFileReplacesInput() bool {
 	if errFin != nil {
 		Log.Error("Couldn't reopen the temporarily file to read from it: %s.\n",
 			errFin.Error())
+		os.Remove(fc.outputFileName)
 		return false
 	}
+	overwriting := false
 	fout, errFout := os.OpenFile(fc.inputFileName, os.O_CREATE|os.O_RDWR|os.O_TRUNC,
 		os.ModeExclusive|os.ModePerm)
 	if errFout != nil {
@@ -175,7 +191,12 @@ func (fc *FileControl) tempFileReplacesInput() bool {
 		Log.Error("Couldn't reopen the input file to overwrite it: %s.\n",
 			errFout.Error())
 	} else {
+		overwriting = true
 		_, err := io.Copy(fout, fin)
+		errClose := fout.Close()
+		if err == nil {
+			err = errClose
+		}
 		if err != nil {
 			success = false
 			// FUCK Hope the user has backup for this
@@ -183,9 +204,14 @@ func (fc *FileControl) tempFileReplacesInput() bool {
 			Log.Error("Error when overwriting the original file: %s.\n",
 				err.Error())
 		}
-		fout.Close()
 	}
 	fin.Close()
+	if overwriting && !success {
+		// The original file is gone by now, the temporary one is all that's left
+		Log.Error("The complete output was left in the temporary file %s.\n",
+			fc.outputFileName)
+		return false
+	}
 	// Now delete the temporary file
 	err := os.Remove(fc.outputFileName)
 	if err != nil {
diff --git a/lumpwrite.go b/lumpwrite.go
index 57250f5..6bc4c4f 100755
--- a/lumpwrite.go
+++ b/lumpwrite.go
@@ -22,7 +22,9 @@ import (
 	"crypto/sha256"
 	"encoding/base64"
 	"encoding/binary"
+	"errors"
 	"fmt"
+	"math"
 	"os"
 )
 
@@ -30,9 +32,16 @@ import (
 // as a valid byte array (also already converted to file endianness) ready to be
 // written
 func WriteSliceLump(data []byte, curPos *uint32, fout *os.File, le []LumpEntry,
-	lumpIdx int, s string, postfix string) {
+	lumpIdx int, s string, postfix string) error {
+	err := checkRoomForLump(*curPos, len(data))
+	if err != nil {
+		return err
+	}
 	if data != nil {
-		fout.Write(data)
+		_, err = fout.Write(data)
+		if err != nil {
+			return err
+		}
 	}
 	le[lumpIdx].FilePos = *curPos
 	le[lumpIdx].Size = uint32(len(data))
@@ -45,30 +54,58 @@ func WriteSliceLump(data []byte, curPos *uint32, fout *os.File, le []LumpEntry,
 			s, postfix, le[lumpIdx].Size, hashSuffix)
 	}
 	*curPos = *curPos + uint32(len(data))
+	return nil
+}
+
+// Offsets and sizes in wad are 32-bit, so there is a limit to what can be stored
+func checkRoomForLump(curPos uint32, dataLen int) error {
+	if int64(curPos)+int64(dataLen) > math.MaxUint32 {
+		return errors.New("the resulting wad is too large for its format")
+	}
+	return nil
 }
 
 // Write lump from a typed array of structures that represent game data but need
 // conversion before going to file
 func ConvertAndWriteGenericLump(data interface{}, curPos *uint32, fout *os.File,
-	le []LumpEntry, lumpIdx int, s string, postfix string) {
+	le []LumpEntry, lumpIdx int, s string, postfix string) error {
 	hashSuffix := ""
-	binary.Write(fout, binary.LittleEndian, data)
+	dataLen := binary.Size(data)
+	err := checkRoomForLump(*curPos, dataLen)
+	if err != nil {
+		return err
+	}
+	err = binary.Write(fout, binary.LittleEndian, data)
+	if err != nil {
+		return err
+	}
 	if config.HashLumps {
 		hashSuffix = fmt.Sprintf(" (HASH: %s)", HashIntf(data))
 	}
-	dataLen := binary.Size(data)
 	le[lumpIdx].FilePos = *curPos
 	le[lumpIdx].Size = uint32(dataLen)
 	Log.Printf("Lump #%d (%s)%s has its size set to %d bytes.%s\n", lumpIdx, s,
 		postfix, le[lumpIdx].Size, hashSuffix)
 	*curPos = *curPos + uint32(dataLen)
+	return nil
 }
 
 func ConvertAndWriteDeepNodes(data []DeepNode, curPos *uint32, fout *os.File,
-	le []LumpEntry, lumpIdx int, s string, postfix string) {
+	le []LumpEntry, lumpIdx int, s string, postfix string) error {
 	hashSuffix := ""
-	sigCnt, _ := fout.Write(DEEPNODES_SIG[:])
-	binary.Write(fout, binary.LittleEndian, data)
+	dataLen := binary.Size(data)
+	err := checkRoomForLump(*curPos, len(DEEPNODES_SIG)+dataLen)
+	if err != nil {
+		return err
+	}
+	sigCnt, err := fout.Write(DEEPNODES_SIG[:])
+	if err != nil {
+		return err
+	}
+	err = binary.Write(fout, binary.LittleEndian, data)
+	if err != nil {
+		return err
+	}
 	if config.HashLumps {
 		// signature is part of the lump
 		hsh := sha256.New()
@@ -77,12 +114,12 @@ func ConvertAndWriteDeepNodes(data []DeepNode, curPos *uint32, fout *os.File,
 		hashSuffix = fmt.Sprintf(" (HASH: %s)",
 			base64.StdEncoding.EncodeToString(hsh.Sum(nil)))
 	}
-	dataLen := binary.Size(data)
 	le[lumpIdx].FilePos = *curPos
 	le[lumpIdx].Size = uint32(dataLen + sigCnt)
 	Log.Printf("Lump #%d (%s)%s has its size set to %d bytes.%s\n", lumpIdx, s,
 		postfix, le[lumpIdx].Size, hashSuffix)
 	*curPos = *curPos + uint32(dataLen+sigCnt)
+	return nil
 }
 
 // non-threadsafe encode of cryptographic hash, I presume
diff --git a/vigilantbsp.go b/vigilantbsp.go
index e78fec4..5c1bbff 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -239,16 +239,16 @@ func main() {
 
 	// in the future, will probably store new wad's header separately
 	err = binary.Write(fout, binary.LittleEndian, wh)
-	if err != nil {
-		Log.Error("An error has occured while trying to create/modify %s: %s\n", outFileName, err)
-		os.Exit(1)
+	if err == nil && zerosToInsert > 0 {
+		err = WriteNZeros(fout, zerosToInsert)
 	}
-
-	if zerosToInsert > 0 {
-		WriteNZerosOrFail(fout, zerosToInsert, outFileName)
+	if err == nil {
+		// skip directory also
+		err = WriteNZeros(fout, uint32(binary.Size(le)))
+	}
+	if err != nil {
+		mainFileControl.FailWriting(err)
 	}
-	// skip directory also
-	WriteNZerosOrFail(fout, uint32(binary.Size(le)), outFileName)
 	action := ScheduleRoot
 	curPos := uint32(binary.Size(wh)) + zerosToInsert + uint32(binary.Size(le))
 	wriBus := StartWriteBus(fout, le, curPos)
@@ -288,9 +288,16 @@ func main() {
 		}
 		action = action.Next
 	}
-	wriBus.Shutdown()
-	fout.Seek(int64(wh.DirectoryStart), 0)
-	binary.Write(fout, binary.LittleEndian, le)
+	err = wriBus.Shutdown()
+	if err == nil {
+		_, err = fout.Seek(int64(wh.DirectoryStart), 0)
+	}
+	if err == nil {
+		err = binary.Write(fout, binary.LittleEndian, le)
+	}
+	if err != nil {
+		mainFileControl.FailWriting(err)
+	}
 	suc := mainFileControl.Success()
 	if suc {
 		trFileName := outFileName
@@ -302,7 +309,9 @@ func main() {
 		}
 		Log.Printf("%s successfully written \n ", trFileName)
 	} else {
-		Log.Printf("I/O error on flushing data / closing files. The data might not have been saved!\n")
+		Log.Error("I/O error on flushing data / closing files. The data might not have been saved!\n")
+		mainFileControl.Shutdown()
+		os.Exit(1)
 	}
 	if config.DumpSegsFlag {
 		DebugSaveDumpedSegs(config.SegDumpFile)
diff --git a/wad.go b/wad.go
index a9efb21..a8701a3 100644
--- a/wad.go
+++ b/wad.go
@@ -102,16 +102,10 @@ func FindValidLevels(root *ScheduledLump) int {
 	return res
 }
 
-func WriteNZerosOrFail(a io.Writer, n uint32, fname string) {
+func WriteNZeros(a io.Writer, n uint32) error {
 	zb := make([]byte, n, n)
-	written, err := a.Write(zb)
-	if err != nil {
-		Log.Error("An error has occured while trying to write %s: %s\n", fname, err)
-		os.Exit(1)
-	} else if uint32(written) != n {
-		Log.Error("The number of written bytes %d doesn't match the number of bytes that were to be written: %d\n", written, n)
-		os.Exit(1)
-	}
+	_, err := a.Write(zb)
+	return err
 }
 
 func SetValiditySocket(lumpName string, reference []string, validitySub *[]int,
diff --git a/writebus.go b/writebus.go
index d9c5317..64c82b8 100755
--- a/writebus.go
+++ b/writebus.go
@@ -43,6 +43,7 @@ type WriteBus struct {
 	fout   *os.File
 	le     []LumpEntry
 	curPos uint32
+	err    error // the first error encountered. Nothing is written past that
 }
 
 type WriteBusControl struct {
@@ -73,20 +74,23 @@ func StartWriteBus(fout *os.File, le []LumpEntry, curPos uint32) *WriteBusContro
 func (b *WriteBus) WriteBusLoop(ch <-chan WriteBusRequest, chFinish chan<- bool,
 	chSync chan<- bool) {
 	for req := range ch {
+		if b.err != nil && req.tpeIndex != WRI_TYPE_SYNC {
+			continue
+		}
 		switch req.tpeIndex {
 		case WRI_TYPE_BYTES:
 			{
-				WriteSliceLump(req.bData, &(b.curPos), b.fout, b.le, req.lumpIdx,
+				b.err = WriteSliceLump(req.bData, &(b.curPos), b.fout, b.le, req.lumpIdx,
 					req.lumpName, req.postfix)
 			}
 		case WRI_TYPE_INTERFACE:
 			{
-				ConvertAndWriteGenericLump(req.intfData, &(b.curPos), b.fout,
+				b.err = ConvertAndWriteGenericLump(req.intfData, &(b.curPos), b.fout,
 					b.le, req.lumpIdx, req.lumpName, req.postfix)
 			}
 		case WRI_TYPE_DEEPNODES:
 			{
-				ConvertAndWriteDeepNodes(req.deepData, &(b.curPos), b.fout,
+				b.err = ConvertAndWriteDeepNodes(req.deepData, &(b.curPos), b.fout,
 					b.le, req.lumpIdx, req.lumpName, req.postfix)
 			}
 		case WRI_TYPE_SYNC:
@@ -150,9 +154,11 @@ func (c *WriteBusControl) SendDeepNodesLump(data []DeepNode, lumpIdx int,
 	c.ch <- envl
 }
 
-func (c *WriteBusControl) Shutdown() {
+// Returns the error if not everything sent to bus could be written
+func (c *WriteBusControl) Shutdown() error {
 	close(c.ch)
 	<-c.finisher
+	return c.bus.err
 }
 
 // This service call is needed to prevent actions pertaining to the previous
-- 
2.43.0


From 47d52ce8c15e31ba21d191bbc3ed474aca9a7a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:19 +0000
Subject: [PATCH 23/59] fix: damaged or unreadable input was silently replaced
 with garbage

Lumps lying outside the file or failing to be read were treated as if read,
and the directory size from a damaged header was allocated without question.
---
 filecontrol.go | 16 ++++++++++++++++
 level.go       | 20 +++++++-------------
 vigilantbsp.go |  2 +-
 wad.go         | 16 ++++++++++++++++
 4 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/filecontrol.go b/filecontrol.go
index 95f6bdd..b557789 100644
--- a/filecontrol.go
+++ b/filecontrol.go
@@ -17,9 +17,11 @@
 package main
 
 import (
+	"encoding/binary"
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"runtime/pprof"
@@ -172,6 +174,20 @@ func (fc *FileControl) FailWriting(err error) {
 	os.Exit(1)
 }
 
+// ReadOrFail reads data from the specified offset of the input file. If there
+// is an error, reports it, cleans up and terminates the program - writing output
+// with pieces missing is out of question
+func (fc *FileControl) ReadOrFail(f *os.File, pos uint32, data interface{}) {
+	r := io.NewSectionReader(f, int64(pos), math.MaxUint32)
+	err := binary.Read(r, binary.LittleEndian, data)
+	if err != nil {
+		Log.Error("An error has occured while trying to read %s: %s\n",
+			fc.inputFileName, err)
+		fc.Shutdown()
+		os.Exit(1)
+	}
+}
+
 func (fc *FileControl) tempFileReplacesInput() bool {
 	success := true
 	// now former output - temp file - is where we read from,
diff --git a/level.go b/level.go
index ba3ae7f..cc2b14f 100755
--- a/level.go
+++ b/level.go
@@ -153,47 +153,41 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 					// lines, etc. when building nodes.
 					cntLinedefs := le[idx].Size / DOOM_LINEDEF_SIZE
 					linedefs = make([]Linedef, cntLinedefs, cntLinedefs)
-					f.Seek(int64(le[idx].FilePos), 0)
-					binary.Read(f, binary.LittleEndian, linedefs)
+					fileControl.ReadOrFail(f, le[idx].FilePos, linedefs)
 				} else { // FORMAT_HEXEN
 					cntLinedefs := le[idx].Size / HEXEN_LINEDEF_SIZE
 					hexenLinedefs = make([]HexenLinedef, cntLinedefs, cntLinedefs)
-					f.Seek(int64(le[idx].FilePos), 0)
-					binary.Read(f, binary.LittleEndian, hexenLinedefs)
+					fileControl.ReadOrFail(f, le[idx].FilePos, hexenLinedefs)
 				}
 				copyLump = !config.RebuildNodes // !!! linedefs' vertices might be renumbered by nodes builder
 			} else if bytes.Equal(bname, []byte("VERTEXES")) {
 				l.VerticesLumpIdx = idx
 				cntVertices := le[idx].Size >> 2
 				vertices = make([]Vertex, cntVertices, cntVertices)
-				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, vertices)
+				fileControl.ReadOrFail(f, le[idx].FilePos, vertices)
 				// bounds
 				bounds = GetBounds(vertices)
 				copyLump = !config.RebuildNodes // vertices are created and renumbered by nodes builder
 			} else if bytes.Equal(bname, []byte("SIDEDEFS")) {
 				cntSidedefs := le[idx].Size / DOOM_SIDEDEF_SIZE
 				sidedefs = make([]Sidedef, cntSidedefs, cntSidedefs)
-				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, sidedefs)
+				fileControl.ReadOrFail(f, le[idx].FilePos, sidedefs)
 				// this is kept intact, for now at least
 			} else if bytes.Equal(bname, []byte("SECTORS")) {
 				cntSectors := le[idx].Size / DOOM_SECTOR_SIZE
 				sectors = make([]Sector, cntSectors, cntSectors)
-				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, sectors)
+				fileControl.ReadOrFail(f, le[idx].FilePos, sectors)
 				// this is kept intact
 			} else if action.LevelFormat == FORMAT_HEXEN && bytes.Equal(bname, []byte("THINGS")) {
 				vrThing := HexenThing{}
 				cntThings := le[idx].Size / uint32(binary.Size(vrThing))
 				hexenThings = make([]HexenThing, cntThings, cntThings)
-				f.Seek(int64(le[idx].FilePos), 0)
-				binary.Read(f, binary.LittleEndian, hexenThings)
+				fileControl.ReadOrFail(f, le[idx].FilePos, hexenThings)
 			} // this is kept intact
 			// copy along every entry that is not going to be modified
 			if copyLump {
 				tmpBuf := make([]byte, le[idx].Size, le[idx].Size)
-				f.ReadAt(tmpBuf, int64(le[idx].FilePos))
+				fileControl.ReadOrFail(f, le[idx].FilePos, tmpBuf)
 				wriBus.SendRawLump(tmpBuf, idx, "", "")
 			}
 		}
diff --git a/vigilantbsp.go b/vigilantbsp.go
index 5c1bbff..8f0f49b 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -266,7 +266,7 @@ func main() {
 		idx := action.DirIndex
 		if le[idx].Size != 0 {
 			tmpBuf := make([]byte, le[idx].Size, le[idx].Size)
-			f.ReadAt(tmpBuf, int64(le[idx].FilePos))
+			mainFileControl.ReadOrFail(f, le[idx].FilePos, tmpBuf)
 			wriBus.SendRawLump(tmpBuf, idx, "", "")
 		} else if (idx == 0) && ZeroOffsetFirstLump {
 			// first lump has zero size, if we set zero offset we can steal some bytes
diff --git a/wad.go b/wad.go
index a8701a3..56c5de2 100644
--- a/wad.go
+++ b/wad.go
@@ -544,6 +544,16 @@ func TryReadWadDirectory(isInputFile bool, f *os.File,
 		return nil, errors.New("Unable to find any valid levels")
 	}
 
+	// Don't trust what file header says, it might be damaged
+	fileInfo, err := f.Stat()
+	if err != nil {
+		return nil, errors.New(fmt.Sprintf("Couldn't obtain file size: %s", err.Error()))
+	}
+	fileSize := fileInfo.Size()
+	if int64(wh.DirectoryStart)+int64(wh.LumpCount)*int64(binary.Size(new(LumpEntry))) > fileSize {
+		return nil, errors.New("The wad is damaged or incomplete: the directory doesn't fit in the file")
+	}
+
 	_, err = f.Seek(int64(wh.DirectoryStart), 0)
 	if err != nil {
 		return nil, errors.New(fmt.Sprintf("Couldn't move to wad's directory structure (%d offset): %s", wh.DirectoryStart, err.Error()))
@@ -555,5 +565,11 @@ func TryReadWadDirectory(isInputFile bool, f *os.File,
 	if err != nil {
 		return nil, errors.New(fmt.Sprintf("Failed to read lump info from a wad's directory: %s", err.Error()))
 	}
+	for i, entry := range le {
+		if entry.Size != 0 && int64(entry.FilePos)+int64(entry.Size) > fileSize {
+			return nil, errors.New(fmt.Sprintf("The wad is damaged or incomplete: lump #%d (%s) lies outside the file",
+				i, string(ByteSliceBeforeTerm(entry.Name[:]))))
+		}
+	}
 	return le, nil
 }
-- 
2.43.0


From d765be9aa792bafe9d3dc31286d6a4c23afa1720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:44 +0000
Subject: [PATCH 24/59] fix: NOPROCESS took wrong lump when sourcing from
 another map of the input wad

Schedule kept for lookups in the input shared level entries with the one being
updated to output indices.
---
 wad.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wad.go b/wad.go
index 56c5de2..ea203f4 100644
--- a/wad.go
+++ b/wad.go
@@ -508,6 +508,12 @@ func cloneSchedule(scheduleRoot *ScheduledLump) *ScheduledLump {
 	rootSch := newSch
 	for sch != nil {
 		*newSch = *sch
+		if sch.Level != nil {
+			newSch.Level = make([]*ScheduledLump, len(sch.Level), cap(sch.Level))
+			for i, lump := range sch.Level {
+				newSch.Level[i] = shallowCopy(lump)
+			}
+		}
 		if sch.Next != nil {
 			newSch.Next = &ScheduledLump{}
 			newSch = newSch.Next
-- 
2.43.0


From d51e94a89a86679c57d65ea929f9bf5b056d4c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:58 +0000
Subject: [PATCH 25/59] fix: crash or abort when the wad NOPROCESS refers to is
 damaged or unreadable

Report it and build the reject instead, as for other failures to source it.
---
 filecontrol.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filecontrol.go b/filecontrol.go
index b557789..b474bed 100644
--- a/filecontrol.go
+++ b/filecontrol.go
@@ -417,6 +417,7 @@ func (fc *FileControl) OpenExternalFile(externalFileName string) (*os.File, erro
 		fc.fpin.Close()
 		fc.fpin = nil
 		fc.pinnedFileName = ""
+		fc.pinnedExternalWad = nil
 	}
 
 	fin, err := os.Open(externalFileName)
@@ -477,7 +478,7 @@ func (fc *FileControl) PinExternalWad(wadFileName string) *PinnedWad {
 	if err != nil {
 		Log.Error("An error has occured while trying to open %s: %s\n",
 			wadFileName, err)
-		os.Exit(1)
+		return nil
 	}
 
 	wh := new(WadHeader)
@@ -485,6 +486,7 @@ func (fc *FileControl) PinExternalWad(wadFileName string) *PinnedWad {
 	if err5 != nil {
 		Log.Error("Couldn't read wad directory from %s: %s\n",
 			wadFileName, err5.Error())
+		return nil
 	}
 	wadDir := LoadWadDirectory(false, le, nil, nil, false, nil)
 	if wadDir == nil {
-- 
2.43.0


From 13a46ce32266d592b634ab577282f6c8cc49270d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 26/59] fix: levels that can't be built had lumps lost and
 directory entries pointing astray

When neither nodes nor reject could be started (no sectors or sidedefs), the
lumps they would have written were not written at all, while their directory
entries kept offsets of the input file.
---
 level.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/level.go b/level.go
index cc2b14f..97f8d4f 100755
--- a/level.go
+++ b/level.go
@@ -405,19 +405,46 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 
 	// If either reject or nodes not used, we need to shutdown solid-only
 	// blockmap builder control on their behalf here
-	if bcontrol != nil && rejectSkip {
+	if bcontrol != nil && l.RejectChan == nil {
 		bcontrol <- BconRequest{
 			Sender:  SOLIDBLOCKS_REJECT,
 			Message: BCON_NONEED_SOLID_BLOCKMAP,
 		}
 	}
-	if bcontrol != nil && !config.RebuildNodes {
+	if bcontrol != nil && l.NodesChan == nil {
 		bcontrol <- BconRequest{
 			Sender:  SOLIDBLOCKS_NODES,
 			Message: BCON_NONEED_SOLID_BLOCKMAP,
 		}
 	}
 
+	// It might have been impossible to start building something (for example,
+	// level doesn't have a single sector). Existing data is kept then
+	toCopy := make([]int, 0)
+	if config.RebuildNodes && l.NodesChan == nil {
+		// vertices haven't been renumbered, but there still might be changes in
+		// linedefs that blockmap depends on
+		if l.newLines != nil {
+			wriBus.SendGenericLump(l.newLines.GetLinedefs(), l.LinedefsLumpIdx,
+				"LINEDEFS", "")
+		} else {
+			toCopy = append(toCopy, l.LinedefsLumpIdx)
+		}
+		toCopy = append(toCopy, l.VerticesLumpIdx, l.SegsLumpIdx,
+			l.SSectorsLumpIdx, l.NodesLumpIdx)
+	}
+	if !rejectSkip && l.RejectChan == nil {
+		toCopy = append(toCopy, l.RejectLumpIdx)
+	}
+	if config.RebuildBlockmap && l.BlockmapLumpChannel == nil {
+		toCopy = append(toCopy, l.BlockmapLumpIdx)
+	}
+	for _, idx := range toCopy {
+		tmpBuf := make([]byte, le[idx].Size, le[idx].Size)
+		fileControl.ReadOrFail(f, le[idx].FilePos, tmpBuf)
+		wriBus.SendRawLump(tmpBuf, idx, "", "")
+	}
+
 	// Wait for channels to deliver results of node/reject/blockmap building,
 	// write them
 	l.WaitForAndWriteData()
-- 
2.43.0


From f38b55e4888d18f1024689d5ebdc1460bdaac87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:35 +0000
Subject: [PATCH 27/59] fix: crash on levels with references to vertices,
 sidedefs or sectors that don't exist

Such level is now reported and copied unchanged.
---
 level.go | 56 ++++++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 54 insertions(+), 2 deletions(-)

diff --git a/level.go b/level.go
index 97f8d4f..de66230 100755
--- a/level.go
+++ b/level.go
@@ -98,6 +98,7 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 	l.mapName = GetLumpName(le, action)
 	loadedThings := false
 	loadedLinedefsAndVertices := false
+	damaged := false
 	blockmapNeedsSectors := config.RemoveNonCollideable
 	rejectSkip := config.Reject == REJECT_ZEROFILLED || config.Reject == REJECT_DONTTOUCH
 	rejectDone := rejectSkip
@@ -194,8 +195,14 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 		// Using linedefs and vertices when avaiable, generate both BLOCKMAP
 		// lump and some other blockmaps (solid lines only, for example), and
 		// set universal interfaces for the rest of action
-		if !loadedLinedefsAndVertices && (linedefs != nil ||
-			hexenLinedefs != nil) && vertices != nil {
+		if !loadedLinedefsAndVertices && !damaged && (linedefs != nil ||
+			hexenLinedefs != nil) && vertices != nil && sidedefs != nil &&
+			sectors != nil {
+			damaged = !levelReferencesAreValid(l.mapName, linedefs,
+				hexenLinedefs, vertices, sidedefs, sectors)
+			if damaged {
+				continue
+			}
 			loadedLinedefsAndVertices = true
 			if action.LevelFormat == FORMAT_DOOM {
 				// Scroll effects are for doom format only, not hexen
@@ -450,6 +457,51 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 	l.WaitForAndWriteData()
 }
 
+// levelReferencesAreValid tells whether everything linedefs and sidedefs refer to
+// exists. Nothing can be built for a level for which it doesn't
+func levelReferencesAreValid(mapName string, linedefs []Linedef,
+	hexenLinedefs []HexenLinedef, vertices []Vertex, sidedefs []Sidedef,
+	sectors []Sector) bool {
+	cnt := len(linedefs) + len(hexenLinedefs) // either of them is empty
+	if cnt == 0 {
+		Log.Error("Level %s has no linedefs, it will not be rebuilt\n", mapName)
+		return false
+	}
+	for i := 0; i < cnt; i++ {
+		var ends, sides [2]uint16
+		if len(linedefs) > 0 {
+			ends = [2]uint16{linedefs[i].StartVertex, linedefs[i].EndVertex}
+			sides = [2]uint16{linedefs[i].FrontSdef, linedefs[i].BackSdef}
+		} else {
+			ends = [2]uint16{hexenLinedefs[i].StartVertex, hexenLinedefs[i].EndVertex}
+			sides = [2]uint16{hexenLinedefs[i].FrontSdef, hexenLinedefs[i].BackSdef}
+		}
+		for _, vidx := range ends {
+			if int(vidx) >= len(vertices) {
+				Log.Error("Level %s is damaged and will not be rebuilt: linedef %d references non-existent vertex %d\n",
+					mapName, i, vidx)
+				return false
+			}
+		}
+		for _, sidx := range sides {
+			if sidx == SIDEDEF_NONE {
+				continue
+			}
+			if int(sidx) >= len(sidedefs) {
+				Log.Error("Level %s is damaged and will not be rebuilt: linedef %d references non-existent sidedef %d\n",
+					mapName, i, sidx)
+				return false
+			}
+			if int(sidedefs[sidx].Sector) >= len(sectors) {
+				Log.Error("Level %s is damaged and will not be rebuilt: sidedef %d references non-existent sector %d\n",
+					mapName, sidx, sidedefs[sidx].Sector)
+				return false
+			}
+		}
+	}
+	return true
+}
+
 // This will receive results of work from other threads via channels, then write
 // them. If deterministic, lump data is written in strict order. Otherwise it is
 // written in the order it was received
-- 
2.43.0


From a2466933e48d5679c72d17261f10283bfee09c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 28/59] fix: BSPNOSEG on front sidedef dropped seg of back
 sidedef, and vice versa didn't work

Also crashed on linedefs that only have the back sidedef.
---
 node_intro.go | 2 +-
 znodegen.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_intro.go b/node_intro.go
index 8b46ac3..5e4dced 100755
--- a/node_intro.go
+++ b/node_intro.go
@@ -346,7 +346,7 @@ func addSegsPerLine(myVertices []NodeVertex, i uint16, lines WriteableLines, vid
 		Log.Printf("Warning: linedef %d doesn't have front sidedef\n", i)
 	}
 	if secondSdef != SIDEDEF_NONE {
-		if !bytes.Equal(sidedefs[firstSdef].LoName[:], []byte("BSPNOSEG")) {
+		if !bytes.Equal(sidedefs[secondSdef].LoName[:], []byte("BSPNOSEG")) {
 			// Action = 1084 is do not render back side (zokumbsp)
 			if action == 1084 {
 				Log.Verbose(1, "Will not create seg for BACK sidedef of linedef %d - instructed so by action's numeric code set to 1084 on linedef.\n",
diff --git a/znodegen.go b/znodegen.go
index 9aba75c..c32450f 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -1487,7 +1487,7 @@ func ZExt_addSegsPerLine(myVertices []ZExt_NodeVertex, i uint16, lines Writeable
 		Log.Printf("Warning: linedef %d doesn't have front sidedef\n", i)
 	}
 	if secondSdef != SIDEDEF_NONE {
-		if !bytes.Equal(sidedefs[firstSdef].LoName[:], []byte("BSPNOSEG")) {
+		if !bytes.Equal(sidedefs[secondSdef].LoName[:], []byte("BSPNOSEG")) {
 
 			if action == 1084 {
 				Log.Verbose(1, "Will not create seg for BACK sidedef of linedef %d - instructed so by action's numeric code set to 1084 on linedef.\n",
-- 
2.43.0


From 858df8e31530e6fa6a0e299a10163fdb0de11da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:36 +0000
Subject: [PATCH 29/59] fix: crash when lines that produce no segs lie outside
 the bounds of those that do

---
 node_intro.go | 26 ++++++++++++++++++++++----
 znodegen.go   |  1 -
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/node_intro.go b/node_intro.go
index 5e4dced..ed96086 100755
--- a/node_intro.go
+++ b/node_intro.go
@@ -118,9 +118,11 @@ func MinorCmpFuncFromOption(userOption int) MinorIsBetterFunc {
 // which means it is not advised to be used for vanilla maps unless absolutely
 // necessary
 func IsTooDetailed(lines AbstractLines, linesToIgnore []bool, bounds *NodeBounds) bool {
+	levelBounds := *NodeBoundsToLevelBounds(bounds)
+	linesToIgnore = ignoreLinesOutside(lines, linesToIgnore, levelBounds)
 	bmi := &BlockmapInput{
 		lines:           lines,
-		bounds:          *NodeBoundsToLevelBounds(bounds),
+		bounds:          levelBounds,
 		XOffset:         0,
 		YOffset:         0,
 		useZeroHeader:   false,
@@ -183,6 +185,25 @@ func IsTooDetailed(lines AbstractLines, linesToIgnore []bool, bounds *NodeBounds
 	return ret
 }
 
+// ignoreLinesOutside adds lines with either end out of bounds to those ignored.
+// Such lines exist when they didn't produce segs, so that bounds of segs don't
+// include them
+func ignoreLinesOutside(lines AbstractLines, linesToIgnore []bool,
+	bounds LevelBounds) []bool {
+	res := make([]bool, lines.Len())
+	copy(res, linesToIgnore)
+	for i := uint16(0); i < lines.Len(); i++ {
+		x1, y1, x2, y2 := lines.GetAllXY(i)
+		if x1 < int(bounds.Xmin) || x1 > int(bounds.Xmax) ||
+			x2 < int(bounds.Xmin) || x2 > int(bounds.Xmax) ||
+			y1 < int(bounds.Ymin) || y1 > int(bounds.Ymax) ||
+			y2 < int(bounds.Ymin) || y2 > int(bounds.Ymax) {
+			res[i] = true
+		}
+	}
+	return res
+}
+
 func hitmapAccIdx(i, j int, hiI, hiJ int, hitmap []int) int {
 	if i < 0 || j < 0 || i > hiI || j > hiJ {
 		return 0
@@ -321,9 +342,6 @@ func addSegsPerLine(myVertices []NodeVertex, i uint16, lines WriteableLines, vid
 	action := lines.GetAction(i)
 	bamEffect := lines.GetBAMEffect(i) // support for linedef actions = 1080...1083
 	preciousLine := lines.IsTaggedPrecious(i)
-	// FIXME what if sidedef index is invalid? Well, so far it looks like we
-	// don't perform validity check for ANY references (say, from lines to
-	// vertices)
 	if firstSdef != SIDEDEF_NONE {
 		if !bytes.Equal(sidedefs[firstSdef].LoName[:], []byte("BSPNOSEG")) {
 			// Action = 1085 is do not render front side (zokumbsp)
diff --git a/znodegen.go b/znodegen.go
index c32450f..2ca5e02 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -1464,7 +1464,6 @@ func ZExt_addSegsPerLine(myVertices []ZExt_NodeVertex, i uint16, lines Writeable
 	action := lines.GetAction(i)
 	bamEffect := lines.GetBAMEffect(i)
 	preciousLine := lines.IsTaggedPrecious(i)
-
 	if firstSdef != SIDEDEF_NONE {
 		if !bytes.Equal(sidedefs[firstSdef].LoName[:], []byte("BSPNOSEG")) {
 
-- 
2.43.0


From 02fd50413b60ddd9bcdf2bcc1e099e8ae8f3b87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 30/59] fix: crash on levels with a single seg

---
 nodegen.go  | 5 +++--
 znodegen.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/nodegen.go b/nodegen.go
index 263c074..a2310d3 100755
--- a/nodegen.go
+++ b/nodegen.go
@@ -415,8 +415,9 @@ func NodesGenerator(input *NodesInput) {
 	allSegs, intVertices := createSegs(input.lines, input.sidedefs,
 		input.linesToIgnore, input.nodeType == NODETYPE_ZDOOM_EXTENDED ||
 			input.nodeType == NODETYPE_ZDOOM_COMPRESSED, input.sectors)
-	if len(allSegs) == 0 {
-		Log.Error("Failed to create any SEGs (BAD). Quitting (%s)\n.", time.Since(start))
+	if len(allSegs) < 2 {
+		// with just one seg, there is nothing to divide
+		Log.Error("Failed to create enough SEGs (BAD). Quitting (%s)\n.", time.Since(start))
 		// First respond to solid blocks control goroutine that we won't serve
 		// any requests to them
 		if !alreadyCloned {
diff --git a/znodegen.go b/znodegen.go
index 2ca5e02..419f92c 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -196,8 +196,9 @@ func ZExt_NodesGenerator(input *NodesInput) {
 	allSegs, intVertices := ZExt_createSegs(input.lines, input.sidedefs,
 		input.linesToIgnore, input.nodeType == NODETYPE_ZDOOM_EXTENDED ||
 			input.nodeType == NODETYPE_ZDOOM_COMPRESSED, input.sectors)
-	if len(allSegs) == 0 {
-		Log.Error("Failed to create any SEGs (BAD). Quitting (%s)\n.", time.Since(start))
+	if len(allSegs) < 2 {
+
+		Log.Error("Failed to create enough SEGs (BAD). Quitting (%s)\n.", time.Since(start))
 
 		if !alreadyCloned {
 			input.bcontrol <- BconRequest{
-- 
2.43.0


From 676a78ef440ed625f3ebf6989a7812830053e567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 31/59] fix: scroller helper lines: wrong lines dropped,
 misaligned ignore list, real wall taken for a helper

---
 level.go | 54 ++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/level.go b/level.go
index de66230..2292496 100755
--- a/level.go
+++ b/level.go
@@ -27,6 +27,7 @@ import (
 	"math"
 	"os"
 	"reflect"
+	"sort"
 )
 
 const BRANCH_NODES = 1
@@ -858,6 +859,8 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 	// also mark all dummy linedefs as excluded from blockmap and BSP tree
 	dummies := make([]bool, len(linedefs))
 
+	realScrollers := findRealScrollers(linedefs, scrollerToProducerMap)
+
 	addLineCount := make([]uint16, len(scrollerGroupList))
 	linedefsToCull := make([]int, 0)
 	for i, scrollerGroup := range scrollerGroupList {
@@ -881,11 +884,11 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 			scrollPower = 1
 		}
 		currPower := uint16(0)
-		for idx, j := range producers {
+		for _, j := range producers {
 			if linedefs[j].Action == 48 {
 				currPower++
-				// Also let's reset tag value (except for the first, of course)
-				if idx != 0 {
+				// Also let's reset tag value (except for the real one, of course)
+				if !realScrollers[j] {
 					linedefs[j].Tag = 0
 					// Only if dryRun == true are dummies recorded here rather
 					// than later, because if dryRun == false some may be
@@ -909,11 +912,11 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 			addLineCount[i] = 0
 			remove := currPower - scrollPower
 			removed := uint16(0)
-			for idx, j := range producers {
+			for _, j := range producers {
 				if removed == remove {
 					break
 				}
-				if idx > 0 && linedefs[j].Action == 48 {
+				if !realScrollers[j] && linedefs[j].Action == 48 {
 					linedefsToCull = append(linedefsToCull, j)
 					removed++
 				}
@@ -935,6 +938,8 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 	}
 	// now dryRun definitely false
 
+	sort.Ints(linedefsToCull)
+
 	// Create new array of linedefs
 	ret := make([]Linedef, len(linedefs))
 
@@ -953,15 +958,16 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 		copy(ret[copyStart-removed:], linedefs[copyStart:len(linedefs)])
 	}
 	ret = ret[:len(linedefs)-removed]
+	dummies = dummies[:len(ret)]
 
 	// Locate all remaining linedefs, add them to dummies. Remember that
 	// some may have changed index, so compute new index
 	for _, scrollerGroup := range scrollerGroupList {
 		producers := scrollerToProducerMap[scrollerGroup]
-		for idx, j := range producers {
+		for _, j := range producers {
 			if linedefs[j].Action == 48 {
-				// If it's the first line, is not dummy
-				if idx != 0 {
+				// Real wall is not dummy
+				if !realScrollers[j] {
 					// Actualize the number or skip altogether, if it is
 					// deleted
 					deleted := false
@@ -1007,6 +1013,38 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 	return ret, dummies
 }
 
+// findRealScrollers identifies which linedefs with action = 48 are actual walls
+// as opposed to dummies
+func findRealScrollers(linedefs []Linedef,
+	scrollerToProducerMap map[ScrollerGroup][]int) map[int]bool {
+	// Any linedef without action = 48 that belongs to the group is itself the
+	// wall which dummies overlap
+	otherWalls := make(map[ScrollerGroup]bool)
+	for _, linedef := range linedefs {
+		if linedef.Action != 48 {
+			otherWalls[ScrollerGroup{
+				StartVertex: linedef.StartVertex,
+				EndVertex:   linedef.EndVertex,
+				FrontSdef:   linedef.FrontSdef,
+			}] = true
+		}
+	}
+	realScrollers := make(map[int]bool)
+	for group, producers := range scrollerToProducerMap {
+		for idx, j := range producers {
+			if linedefs[j].Action == 48 {
+				// the first one is, unless it is something else that is being
+				// remotely scrolled
+				if idx == 0 || !otherWalls[group] {
+					realScrollers[j] = true
+				}
+				break
+			}
+		}
+	}
+	return realScrollers
+}
+
 func addProducer(scrollerGroupList *[]ScrollerGroup, backSdefForGroup *[]uint16,
 	stpMap *map[ScrollerGroup][]int, scrollerGroup ScrollerGroup,
 	linedefIdx int, backsdef uint16) {
-- 
2.43.0


From 66d026d24c2228bf29a0281fe4602ff08989ba4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:42 +0000
Subject: [PATCH 32/59] fix: crash on levels with more linedefs than can be
 referenced, be it due to scroller helper lines or not

---
 level.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/level.go b/level.go
index 2292496..cef8247 100755
--- a/level.go
+++ b/level.go
@@ -30,6 +30,9 @@ import (
 	"sort"
 )
 
+// Linedefs are referenced via 2-byte integers
+const MAX_LINEDEFS = 65535
+
 const BRANCH_NODES = 1
 const BRANCH_REJECT = 2
 const BRANCH_BLOCKMAP = 3
@@ -468,6 +471,11 @@ func levelReferencesAreValid(mapName string, linedefs []Linedef,
 		Log.Error("Level %s has no linedefs, it will not be rebuilt\n", mapName)
 		return false
 	}
+	if cnt > MAX_LINEDEFS {
+		Log.Error("Level %s has too many linedefs (%d) and will not be rebuilt\n",
+			mapName, cnt)
+		return false
+	}
 	for i := 0; i < cnt; i++ {
 		var ends, sides [2]uint16
 		if len(linedefs) > 0 {
@@ -995,6 +1003,11 @@ func RefreshScrollerSpeed(linedefs []Linedef, vertices []Vertex, dryRun bool) ([
 	for i := 0; i < len(addLineCount); i++ {
 		cnt := addLineCount[i]
 		group := scrollerGroupList[i]
+		if len(ret)+int(cnt) > MAX_LINEDEFS {
+			Log.Error("Scroll speed couldn't be set, because it would require adding %d linedefs to the %d already there.\n",
+				cnt, len(ret))
+			continue
+		}
 		for j := uint16(0); j < cnt; j++ {
 			ret = append(ret, Linedef{
 				StartVertex: group.StartVertex,
-- 
2.43.0


From 3aae86a551d06c9d743096073ce5f5313de94dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:28 +0000
Subject: [PATCH 33/59] fix: input file was overwritten when full path of the
 output file couldn't be determined

---
 vigilantbsp.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/vigilantbsp.go b/vigilantbsp.go
index 8f0f49b..ffbeda9 100755
--- a/vigilantbsp.go
+++ b/vigilantbsp.go
@@ -79,9 +79,9 @@ func main() {
 		Log.Error("You must specify an input file.\n")
 		os.Exit(1)
 	}
-	config.InputFileName, _ = filepath.Abs(config.InputFileName)
+	config.InputFileName = absOrFail(config.InputFileName)
 	if config.OutputFileName != "" {
-		config.OutputFileName, _ = filepath.Abs(config.OutputFileName)
+		config.OutputFileName = absOrFail(config.OutputFileName)
 		// Now that we can perform --eject , this check is much warranted as
 		// user might have incentive to try to overcome the limitation (--eject
 		// makes output file required).
@@ -322,6 +322,18 @@ func main() {
 	Log.Printf("Total time: %s\n", time.Since(timeStart))
 }
 
+// absOrFail returns absolute path to the file, terminating program if there is
+// none. Carrying on with an empty name is not safe: without the output file name
+// it is the input file that gets overwritten
+func absOrFail(fileName string) string {
+	res, err := filepath.Abs(fileName)
+	if err != nil {
+		Log.Error("Couldn't determine the full path of %s: %s\n", fileName, err)
+		os.Exit(1)
+	}
+	return res
+}
+
 func GetBounds(vertices []Vertex) LevelBounds {
 	Xmin := int16(32767)
 	Ymin := int16(32767)
-- 
2.43.0


From 7a501cac7b7ae729a856e170e33d0655ff58855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:53 +0000
Subject: [PATCH 34/59] fix: report file was said to be complete when there
 were errors writing it

---
 filecontrol.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/filecontrol.go b/filecontrol.go
index b474bed..fbc8de4 100644
--- a/filecontrol.go
+++ b/filecontrol.go
@@ -38,7 +38,7 @@ type FileControl struct {
 	fin               *os.File
 	fout              *os.File
 	frmb              *os.File
-	freport           *os.File
+	freport           *ReportFile
 	fpin              *os.File
 	inputFileName     string
 	outputFileName    string
@@ -49,6 +49,21 @@ type FileControl struct {
 	pinnedExternalWad *PinnedWad // for RMB option NOPROCESS
 }
 
+// ReportFile remembers whether there was an error writing it, as those who write
+// to it don't check
+type ReportFile struct {
+	f   *os.File
+	err error
+}
+
+func (rf *ReportFile) Write(p []byte) (int, error) {
+	n, err := rf.f.Write(p)
+	if rf.err == nil {
+		rf.err = err
+	}
+	return n, err
+}
+
 func (fc *FileControl) UsingTmp() bool {
 	return fc.tmp
 }
@@ -99,14 +114,13 @@ func (fc *FileControl) CloseRMBOptionsFile() {
 	}
 }
 
-func (fc *FileControl) OpenReportFile() (*os.File, error) {
-	var err error
-	fc.freport, err = os.OpenFile(fc.reportFileName, os.O_CREATE|os.O_RDWR|os.O_TRUNC,
+func (fc *FileControl) OpenReportFile() (*ReportFile, error) {
+	f, err := os.OpenFile(fc.reportFileName, os.O_CREATE|os.O_RDWR|os.O_TRUNC,
 		os.ModeExclusive|os.ModePerm)
 	if err != nil {
-		fc.freport = nil
 		return nil, err
 	}
+	fc.freport = &ReportFile{f: f}
 	return fc.freport, nil
 }
 
@@ -114,13 +128,13 @@ func (fc *FileControl) CloseReportFile(suc bool) bool {
 	if fc.freport == nil {
 		return true
 	}
-	var err error
-	if suc {
-		_, err = fc.freport.Write([]byte("# Report written successfully - no entries lost\n"))
+	if suc && fc.freport.err == nil {
+		fc.freport.Write([]byte("# Report written successfully - no entries lost\n"))
 	} else {
-		_, err = fc.freport.Write([]byte("# Program aborted, report might be missing entries\n"))
+		fc.freport.Write([]byte("# Program aborted, report might be missing entries\n"))
 	}
-	errClose := fc.freport.Close()
+	err := fc.freport.err
+	errClose := fc.freport.f.Close()
 	if err == nil {
 		err = errClose
 	}
-- 
2.43.0


From aa6ea4baed4e91891abf52a624777734ea0c8b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 35/59] fix: report file could overwrite input or output file

---
 filecontrol.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/filecontrol.go b/filecontrol.go
index fbc8de4..67154bc 100644
--- a/filecontrol.go
+++ b/filecontrol.go
@@ -115,6 +115,17 @@ func (fc *FileControl) CloseRMBOptionsFile() {
 }
 
 func (fc *FileControl) OpenReportFile() (*ReportFile, error) {
+	// Name of the report file is derived rather than specified by user, who can
+	// be unaware it might refer to something precious
+	if f1, err := os.Stat(fc.reportFileName); err == nil {
+		for _, name := range []string{fc.inputFileName, fc.outputFileName,
+			fc.rmbFileName} {
+			f2, err := os.Stat(name)
+			if err == nil && os.SameFile(f1, f2) {
+				return nil, fmt.Errorf("it would overwrite %s", name)
+			}
+		}
+	}
 	f, err := os.OpenFile(fc.reportFileName, os.O_CREATE|os.O_RDWR|os.O_TRUNC,
 		os.ModeExclusive|os.ModePerm)
 	if err != nil {
-- 
2.43.0


From 98ab9a41484328de530ce0fdbb71b4ccc0cedd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 36/59] fix: RMB errors about invalid numbers printed function
 address instead of the reason

---
 rmbparse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rmbparse.go b/rmbparse.go
index bfd1f74..ce69a0a 100755
--- a/rmbparse.go
+++ b/rmbparse.go
@@ -135,7 +135,7 @@ func rmbParseNumeric(context *ParseContext, overallIndex int) (int, bool) {
 	num, err := strconv.Atoi(arg)
 	if err != nil {
 		context.LogError("option %s argument #%d is not a valid number: %s\n",
-			string(context.command), overallIndex, err.Error)
+			string(context.command), overallIndex, err.Error())
 		return 0, false
 	}
 	return num, true
@@ -160,7 +160,7 @@ func rmbParseList(context *ParseContext, overallIndex int, strict bool) ([]int,
 		num, err := strconv.Atoi(string(frsWrd))
 		if err != nil {
 			context.LogError("option %s argument #%d is not a valid list: %s\n",
-				string(context.command), overallIndex, err.Error)
+				string(context.command), overallIndex, err.Error())
 			return nil, false
 		}
 		list := []int{num}
-- 
2.43.0


From ccdc731496eaf109c99f6c37c4945916db363071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:50 +0000
Subject: [PATCH 37/59] fix: INVERT without a command after it crashed or
 inverted the previous command

---
 rmbparse.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rmbparse.go b/rmbparse.go
index ce69a0a..8db27d0 100755
--- a/rmbparse.go
+++ b/rmbparse.go
@@ -442,10 +442,18 @@ func ParseINVERT(context *ParseContext, tblIdx int, cmd *RMBCommand) bool {
 	// the cast to ParseContextRecursion is to avoid "loop initialization"
 	// compiler error. What am I really doing is calling parseRMBLine method on
 	// context
+	before := len(context.activeFrame.Commands)
 	if ParseContextRecursion(context).parseRMBLine(context.command, true) {
 		// Hack (bad): need to extract last cmd so that invert flag is applied
 		// to it
 		l := len(context.activeFrame.Commands)
+		if l == before {
+			// Nothing (or just a comment) follows, so there is no command to
+			// invert
+			context.LogError(NOT_INVERTIBLE)
+			context.command = []byte("INVERT")
+			return false
+		}
 		*cmd = context.activeFrame.Commands[l-1]
 		cmd.Invert = true
 		// delete old command as it will be reinserted with the new value
-- 
2.43.0


From 2b82fb0b3c56ae498f7a2ccb95df6d7748df0fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 38/59] fix: negative sector number in GROUP reject option
 crashed

---
 rejectRMB.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rejectRMB.go b/rejectRMB.go
index a9b0820..f897327 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -78,7 +78,7 @@ func (fr *RMBFrame) loadGroupsForFrame(groups []RejGroup) bool {
 		if cmd.Type == RMB_GROUP {
 			grI := fr.Commands[i].Data[0]
 			dupChecker := make(map[int]bool)
-			if grI >= len(groups) {
+			if grI < 0 || grI >= len(groups) {
 				fr.Commands[i].Error("Map doesn't contain sector %d, it only has %d sectors\n",
 					grI, len(groups))
 				continue
@@ -96,7 +96,7 @@ func (fr *RMBFrame) loadGroupsForFrame(groups []RejGroup) bool {
 					fr.Commands[i].Error("You need not explicitly list sector in its own group - every group always includes sector with the same index\n")
 					continue // because each group already includes corresponding sector
 				}
-				if v >= len(groups) {
+				if v < 0 || v >= len(groups) {
 					fr.Commands[i].Error("Map doesn't contain sector %d, it only has %d sectors\n",
 						v, len(groups))
 					continue
-- 
2.43.0


From ee9f2a113d05f241b2f461950012fb60bfefda89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:12 +0000
Subject: [PATCH 39/59] fix: percent sign in name of RMB file garbled messages

---
 rmbunit.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rmbunit.go b/rmbunit.go
index 9b3e786..c61fec0 100755
--- a/rmbunit.go
+++ b/rmbunit.go
@@ -141,13 +141,11 @@ func (l *LoadedRMB) LookupRMBFrameForMapMarker(marker []byte) *RMBFrame {
 }
 
 func (l *RMBCommand) Error(s string, a ...interface{}) {
-	fmtS := fmt.Sprintf("RMB %s%d error: %s", l.getFile(), l.SrcLine, s)
-	Log.Error(fmtS, a...)
+	Log.Error("RMB %s%d error: %s", l.getFile(), l.SrcLine, fmt.Sprintf(s, a...))
 }
 
 func (l *RMBCommand) Info(s string, a ...interface{}) {
-	fmtS := fmt.Sprintf("RMB %s%d message: %s", l.getFile(), l.SrcLine, s)
-	Log.Printf(fmtS, a...)
+	Log.Printf("RMB %s%d message: %s", l.getFile(), l.SrcLine, fmt.Sprintf(s, a...))
 }
 
 // returns filename with a colon appended at the end, or empty string if
-- 
2.43.0


From 297f1578444380e582710c997d876d0879dfac13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 40/59] fix: linedef number above 65535 in LINE reject option
 applied to another line

---
 rejectRMB.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rejectRMB.go b/rejectRMB.go
index f897327..8aa6d5c 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -948,6 +948,15 @@ func (r *RejectInternalSetup) loadLineEffectsForFrame(rmbFrame *RMBFrame) bool {
 	// that makes sense to me. Also, manual didn't say options LEFT, RIGHT and
 	// LINE can be overridden by anything
 	for _, cmd := range rmbFrame.Commands {
+		switch cmd.Type {
+		case RMB_LEFT, RMB_RIGHT, RMB_LINE:
+			// must not wrap around and affect some other line
+			if int(uint16(cmd.Data[0])) != cmd.Data[0] {
+				cmd.Error("specified linedef number out of range: %d\n",
+					cmd.Data[0])
+				continue
+			}
+		}
 		switch cmd.Type {
 		case RMB_LEFT:
 			{
-- 
2.43.0


From e507d8d0c2558d4f53f0936cf60e72ca9798b256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 41/59] fix: RMB file with unsupported map marker was accepted
 despite the error

---
 rmbparse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rmbparse.go b/rmbparse.go
index 8db27d0..bc65e1a 100755
--- a/rmbparse.go
+++ b/rmbparse.go
@@ -753,6 +753,7 @@ func (c *ParseContext) parseRMBLine(line []byte, fromInvert bool) bool {
 				}
 				if len(command) != 3 && !MAP_SEQUEL.Match(command) {
 					c.LogError("unsupported map marker, expected MAP followed by 2 digits immediately, or followed by a space and a lump marker\n")
+					return false
 				}
 				fnd = true
 			}
-- 
2.43.0


From c06842e36463f0b01e221d155dfa860d5c4accbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:21 +0000
Subject: [PATCH 42/59] fix: large value of DISTANCE reject option wrapped
 around

---
 rejectRMB.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rejectRMB.go b/rejectRMB.go
index 8aa6d5c..62bc86d 100755
--- a/rejectRMB.go
+++ b/rejectRMB.go
@@ -20,6 +20,7 @@ package main
 
 import (
 	"io"
+	"math"
 )
 
 // This file applies RMB effects to reject and so hosts code that is used
@@ -226,6 +227,10 @@ func (fr *RMBFrame) GetDISTANCEValue() (bool, uint64) {
 	for i := len(fr.Commands) - 1; i >= 0; i-- {
 		if fr.Commands[i].Type == RMB_DISTANCE {
 			v := uint64(fr.Commands[i].Data[0])
+			if fr.Commands[i].Data[0] > math.MaxUint32 {
+				// no map is that large, and square must not overflow
+				v = math.MaxUint32
+			}
 			// From Zennode: store the square of the distance (avoid floating
 			// point later on)
 			return true, v * v
-- 
2.43.0


From 769dda65da7449f4355ee81253478333d728d551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:01 +0000
Subject: [PATCH 43/59] fix: --cpuprofile and --memprofile crashed when there
 was no argument after them

---
 cmdparser.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/cmdparser.go b/cmdparser.go
index 05c03e5..7b151c0 100755
--- a/cmdparser.go
+++ b/cmdparser.go
@@ -156,19 +156,23 @@ func (c *ProgramConfig) FromCommandLine() bool {
 				if bytes.Equal([]byte(arg), []byte("--cpuprofile")) {
 					// Parameter: write cpu profile to file following this
 					// parameter
-					fileSatisfied = (len(arg) > (argIdx + 1)) &&
+					fileSatisfied = (len(args) > (argIdx + 1)) &&
 						(args[argIdx+1] != "")
-					c.Profile = true
-					c.ProfilePath = args[argIdx+1]
-					skip = true
+					if fileSatisfied {
+						c.Profile = true
+						c.ProfilePath = args[argIdx+1]
+						skip = true
+					}
 				} else if bytes.Equal([]byte(arg), []byte("--memprofile")) {
 					// Parameter: write memory allocations (Go "allocs")
 					// profile to file following this parameter
-					fileSatisfied = (len(arg) > (argIdx + 1)) &&
-						(args[argIdx] != "")
-					c.MemProfile = true
-					c.MemProfilePath = args[argIdx+1]
-					skip = true
+					fileSatisfied = (len(args) > (argIdx + 1)) &&
+						(args[argIdx+1] != "")
+					if fileSatisfied {
+						c.MemProfile = true
+						c.MemProfilePath = args[argIdx+1]
+						skip = true
+					}
 				} else if bytes.Equal([]byte(arg), []byte("--unreversenodes")) {
 					// Parameter: write BSP tree without the traditionally
 					// used reversal, keeping only root node at the last index
-- 
2.43.0


From f959e5e02f2b9637eeaa93107473b20b805aced2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 44/59] fix: empty argument made all following ones ignored,
 including output file name

---
 cmdparser.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmdparser.go b/cmdparser.go
index 7b151c0..09f484a 100755
--- a/cmdparser.go
+++ b/cmdparser.go
@@ -43,13 +43,17 @@ func (c *ProgramConfig) FromCommandLine() bool {
 	hasOutputFile := false
 	skip := false
 	for argIdx, arg := range args {
-		if len(arg) < 1 {
-			break
-		}
 		if skip {
 			skip = false
 			continue
 		}
+		if len(arg) < 1 {
+			if outputModifier {
+				Log.Error("Modifier '-o' was present without a file name following it - aborting.\n")
+				return false
+			}
+			continue
+		}
 
 		if arg[0] != '-' && !outputModifier {
 			files = append(files, arg)
-- 
2.43.0


From 8c2b4358e99daa76b5deb66fe2a5b1a19169d507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:04 +0000
Subject: [PATCH 45/59] fix: -nc without a value crashed

---
 cmdparser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmdparser.go b/cmdparser.go
index 09f484a..99af6d6 100755
--- a/cmdparser.go
+++ b/cmdparser.go
@@ -801,6 +801,10 @@ func (c *ProgramConfig) parseNodesParams(p []byte) {
 		case 'c':
 			{
 				displace := 0
+				if len(p) < 3 {
+					Log.Error("Unknown value for NODES format.\n")
+					return
+				}
 				if bytes.Equal(p[1:3], []byte("=v")) {
 					c.NodeType = NODETYPE_VANILLA
 				} else if bytes.Equal(p[1:3], []byte("=d")) {
-- 
2.43.0


From fd66b1ab49283ca7d140f0f7b4a9fa3a5ee0234a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:05 +0000
Subject: [PATCH 46/59] fix: unknown argument starting with -! was silently
 ignored

---
 cmdparser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmdparser.go b/cmdparser.go
index 99af6d6..d00e9fd 100755
--- a/cmdparser.go
+++ b/cmdparser.go
@@ -372,6 +372,11 @@ func (c *ProgramConfig) FromCommandLine() bool {
 					}
 					c.FilterProhibitsLevels = true
 				}
+			default:
+				{
+					Log.Error("Unrecognised argument '%s' - aborting.\n", arg)
+					return false
+				}
 			}
 		default:
 			{
-- 
2.43.0


From f657f620a96a1578410a78a6c9bb0d2868523a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:07 +0000
Subject: [PATCH 47/59] fix: -r could not be turned on again after -r-

---
 cmdparser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmdparser.go b/cmdparser.go
index d00e9fd..9213b92 100755
--- a/cmdparser.go
+++ b/cmdparser.go
@@ -110,6 +110,8 @@ func (c *ProgramConfig) FromCommandLine() bool {
 				enabled, rest := isEnabled([]byte(arg)[2:])
 				if !enabled {
 					c.Reject = REJECT_DONTTOUCH
+				} else if c.Reject == REJECT_DONTTOUCH {
+					c.Reject = REJECT_NORMAL
 				}
 				if c.Reject != REJECT_DONTTOUCH {
 					c.parseRejectParams(rest)
-- 
2.43.0


From 087200f7a2e1cb26efb2088f8233ea680f6160f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:08 +0000
Subject: [PATCH 48/59] fix: thread counts and blockmap offsets that don't fit
 16 bits wrapped around

---
 cmdparser.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/cmdparser.go b/cmdparser.go
index 9213b92..248c87b 100755
--- a/cmdparser.go
+++ b/cmdparser.go
@@ -591,7 +591,9 @@ func (c *ProgramConfig) parseBlockmapParams(p []byte) {
 				if nos.whichType == ARG_DISABLED {
 					nos.value = 1
 				}
-				if nos.whichType != ARG_ENABLED && int16(nos.value) < 0 {
+				if nos.whichType != ARG_ENABLED && int(int16(nos.value)) != nos.value {
+					Log.Error("Blockmap thread count is too large - ignoring it.\n")
+				} else if nos.whichType != ARG_ENABLED && nos.value < 0 {
 					// negative cannot be returned anyway... yet
 					Log.Error("Negative blockmap thread count is not supported - ignoring it.\n")
 				} else if nos.whichType != ARG_ENABLED {
@@ -645,7 +647,8 @@ func (c *ProgramConfig) parseBlockmapParams(p []byte) {
 						t, v, rest2 := readNumericOnly(rest[1:])
 						rest = rest2
 						if t {
-							if int16(nos.value) >= 0 && int16(v) >= 0 {
+							if int(uint16(nos.value)) == nos.value && int16(nos.value) >= 0 &&
+								int(uint16(v)) == v && int16(v) >= 0 {
 								c.BlockmapOffsetMode = BM_OFFSET_FIXED
 								c.BlockmapXOffset = int16(nos.value)
 								c.BlockmapYOffset = int16(v)
@@ -925,7 +928,9 @@ func (c *ProgramConfig) parseNodesParams(p []byte) {
 				if nos.whichType == ARG_DISABLED {
 					nos.value = 1
 				}
-				if nos.whichType != ARG_ENABLED && int16(nos.value) < 0 {
+				if nos.whichType != ARG_ENABLED && int(int16(nos.value)) != nos.value {
+					Log.Error("BSP tree thread count is too large - ignoring it.\n")
+				} else if nos.whichType != ARG_ENABLED && nos.value < 0 {
 					// negative cannot be returned anyway... yet
 					Log.Error("Negative BSP tree thread count is not supported - ignoring it.\n")
 				} else if nos.whichType != ARG_ENABLED {
-- 
2.43.0


From 2b1faf6f2df7bd053ce14a9ce4c12a2f584c9c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:41 +0000
Subject: [PATCH 49/59] fix: very large number of blockmap threads made offsets
 overflow

---
 blockmapgen.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/blockmapgen.go b/blockmapgen.go
index d2a5e12..f4f4245 100755
--- a/blockmapgen.go
+++ b/blockmapgen.go
@@ -213,6 +213,12 @@ func BlockmapQueen(offsetXMax int16, offsetYMax int16, offsetStep int16,
 	if beeCount < 1 { // just in case something goes wrong
 		beeCount = 1
 	}
+	// more bees than there are offsets would have nothing to do (and their
+	// starting offsets would not fit 16 bits)
+	maxBees := (int(offsetXMax) / int(offsetStep)) * (int(offsetYMax) / int(offsetStep))
+	if int(beeCount) > maxBees && maxBees > 0 {
+		beeCount = int16(maxBees)
+	}
 
 	var ctx context.Context
 	var cancel context.CancelFunc
-- 
2.43.0


From ec1d20feccb260191b8d8d8782e1d147f68d46f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 50/59] fix: sideness cache could change the choice of
 partitions

---
 nodegen.go     |  6 ++---
 picknode.go    |  4 +++
 zensideness.go | 68 ++++++++++++++++++++++----------------------------
 znodegen.go    | 60 +++++++++++++++++++++-----------------------
 4 files changed, 65 insertions(+), 73 deletions(-)

diff --git a/nodegen.go b/nodegen.go
index a2310d3..83aac9d 100755
--- a/nodegen.go
+++ b/nodegen.go
@@ -259,6 +259,7 @@ type NodeSeg struct {
 	sector             uint16
 	secEquiv           uint16 // only initialized if sectorEquivalencies are computed
 	flags              uint8  // flip and flags for internal use go here
+	sidenessRow        int    // row of sidenessCache (values start from 1) that was computed for exactly this seg as partition, or 0
 	sidenessIdx        int    // uses to linearize access to sidenessCache (since the traversal happens through superblocks and not in seg creation order)
 	block              *Superblock
 	StartVertex        *NodeVertex
@@ -864,10 +865,9 @@ func NodesGenerator(input *NodesInput) {
 	}
 
 	if input.cacheSideness {
-		Log.Printf("[nodes] Sideness cache was generated for %d INITIAL aliases (out of %d total aliases) for %d (out of %d) linedefs \n",
+		Log.Printf("[nodes] Sideness cache was generated for %d INITIAL aliases (out of %d total aliases) for %d segs \n",
 			workData.sidenessCache.maxKnownAlias,
-			workData.segAliasObj.maxAlias, workData.sidenessCache.colCount,
-			input.lines.Len())
+			workData.segAliasObj.maxAlias, workData.sidenessCache.colCount)
 	}
 
 	if workData.nodeType == NODETYPE_DEEP {
diff --git a/picknode.go b/picknode.go
index 926a5d7..c09cca7 100755
--- a/picknode.go
+++ b/picknode.go
@@ -2154,6 +2154,10 @@ forblock:
 					// This algorithm caches doLinesIntersect values rather
 					// than computing them face to face so additional vetting
 					// is needed
+					c.lsx = check.psx
+					c.lsy = check.psy
+					c.lex = check.pex
+					c.ley = check.pey
 					if check.alias != part.alias && vetAliasTransfer(c) {
 						check.alias = part.alias
 					}
diff --git a/zensideness.go b/zensideness.go
index eb7de7a..ac40523 100755
--- a/zensideness.go
+++ b/zensideness.go
@@ -36,7 +36,7 @@ import (
 type SidenessCache struct {
 	maxKnownAlias int     // aliases greater than this CAN get generated but are not cached here
 	readOnly      bool    // a flag to catch logical mistakes made by programmer when refactoring (expected value is always true)
-	data          []uint8 // row - partition alias, col - check seg's linedef
+	data          []uint8 // row - partition alias, col - check seg
 	colCount      int
 }
 
@@ -52,8 +52,9 @@ const (
 // partitioner fast(er)
 // All segs must be reachable from rootSeg, and in super as well
 // Memory efficiency - DONE (one cell stores values for 4 keys. One key is
-// a compound <alias,linedef> - implementation-wise, linedef indices are
-// substituted for a reordering of them that improves cache locality)
+// a compound <alias,seg> - implementation-wise, segs are given indices in
+// the order that improves cache locality). Linedef is not enough to identify
+// the checked seg, since result for its other side may be rounded differently
 // TODO advanced memory efficiency - not store certain segs in cache (those
 // which are excluded by superblocks 90% of the time). Need heuristic for this,
 // and putting flag SEG_FLAG_NOCACHE on those segs and not assigning them
@@ -64,9 +65,9 @@ const (
 func (w *NodesWork) buildSidenessCache(rootSeg *NodeSeg, super *Superblock) {
 	start := time.Now()
 	Log.Printf("[nodes] Building cache for sideness\n")
-	lineCount := w.precomputeAliasesForCache(rootSeg, super)
+	segCount := w.precomputeAliasesForCache(rootSeg, super)
 	w.sidenessCache.maxKnownAlias = w.segAliasObj.maxAlias // more aliases can generated later, but cache will not have data for them
-	w.sidenessCache.colCount = int(lineCount)
+	w.sidenessCache.colCount = int(segCount)
 	w.sidenessCache.data = make([]uint8, // 2 bits per value
 		(w.sidenessCache.maxKnownAlias*w.sidenessCache.colCount)>>2+1)
 	setSidenessIdxForAll(super)
@@ -78,22 +79,21 @@ func (w *NodesWork) buildSidenessCache(rootSeg *NodeSeg, super *Superblock) {
 // practical way to represent cache is as array. Cache will store results only
 // for these aliases, and not any that are generated later.
 // Zennode-like partitioner needs this to create cache for doLinesIntersect
-// results for <alias (of partition candidate),linedef (of seg being checked),
-// flip (seg relative to linedef)> key combination
-// Returns number of indexable linedefs (since not every linedef might have
-// a corresponding seg)
+// results for <alias (of partition candidate), seg being checked> key
+// combination
+// Returns number of segs
 func (w *NodesWork) precomputeAliasesForCache(ts *NodeSeg, super *Superblock) int {
 	var previousPart *NodeSeg // keep track of previous partition - test only one seg per partner pair
 	w.segAliasObj.UnvisitAll()
 	var c IntersectionContext
-	lines := make(map[uint16]bool)
+	cntSegs := 0
 	for part := ts; part != nil; part = part.next { // Use each Seg as partition
+		cntSegs++
 		if part.partner != nil && part.partner == previousPart {
 			// Partner segs are kept next to each other, they would result in
 			// same nodeline - so skip second partner
 			continue
 		}
-		lines[part.Linedef] = true
 		if part.alias != 0 {
 			if w.segAliasObj.MarkAndRecall(part.alias) {
 				// More advanced way to skip all colinear segs (which would also
@@ -118,11 +118,7 @@ func (w *NodesWork) precomputeAliasesForCache(ts *NodeSeg, super *Superblock) in
 		c.pdy = c.psy - c.pey
 		w.evalComputeAliasesWorker(super, part, &c)
 	}
-	cntLines := 0
-	for range lines {
-		cntLines++
-	}
-	return cntLines
+	return cntSegs
 }
 
 func (w *NodesWork) evalComputeAliasesWorker(block *Superblock, part *NodeSeg,
@@ -175,33 +171,26 @@ forblock:
 }
 
 // setSidenessIdxForAll tries to make the order in which cache is going to
-// be accessed closer to sequential. The seg creation order, that corresponds
-// to linedefs indices, is not the order of traversal because superblocks are
+// be accessed closer to sequential. The seg creation order is not the order of traversal because superblocks are
 // used, so this works on assumption that the order of traversal in future
 // superblocks would be somewhat similar to that in original superblock (never
 // proven)
 func setSidenessIdxForAll(super *Superblock) {
-	remap := make(map[uint16]int)
 	gen := 0
-	evalSidenessIdx(super, remap, &gen)
+	evalSidenessIdx(super, &gen)
 }
 
-func evalSidenessIdx(block *Superblock, remap map[uint16]int, gen *int) {
+func evalSidenessIdx(block *Superblock, gen *int) {
 	for check := block.segs; check != nil; check = check.nextInSuper {
-		val, ok := remap[check.Linedef]
-		if !ok {
-			val = *gen
-			(*gen)++
-			remap[check.Linedef] = val
-		}
-		check.sidenessIdx = val
+		check.sidenessIdx = *gen
+		(*gen)++
 	}
 	for num := 0; num < 2; num++ {
 		if block.subs[num] == nil {
 			continue
 		}
 
-		evalSidenessIdx(block.subs[num], remap, gen)
+		evalSidenessIdx(block.subs[num], gen)
 	}
 }
 
@@ -246,8 +235,14 @@ func (w *NodesWork) computeAndLockSidenessCache(ts *NodeSeg, super *Superblock)
 			c.pey = part.pey
 			c.pdx = c.psx - c.pex
 			c.pdy = c.psy - c.pey
+			part.sidenessRow = part.alias
 			w.evalComputeSidenessCache(super, part, &c)
 		}
+		// Results must be identical to those without cache, so partitioner has
+		// to assign aliases on its own
+		for part := ts; part != nil; part = part.next {
+			part.alias = 0
+		}
 		w.segAliasObj.UnvisitAll() // so that data to be purged is not copied for multi-tree
 	}
 	w.sidenessCache.readOnly = true
@@ -312,14 +307,13 @@ forblock:
 
 func (w *NodesWork) WhichSideCached(part, check *NodeSeg,
 	c *IntersectionContext) uint8 {
-	if part.alias == 0 || part.alias > w.sidenessCache.maxKnownAlias ||
-		(check.flags&SEG_FLAG_NOCACHE != 0) {
+	if part.sidenessRow == 0 || ((part.flags|check.flags)&SEG_FLAG_NOCACHE != 0) {
 		// not in cache
 		return w.WhichSideInternal(check, c)
 	}
 	negate := part.flags&SEG_FLAG_GLOBAL_FLIP != 0
 
-	cell := (part.alias-1)*w.sidenessCache.colCount + check.sidenessIdx
+	cell := (part.sidenessRow-1)*w.sidenessCache.colCount + check.sidenessIdx
 	mov := (cell & 0x3) << 1
 	cell >>= 2
 	raw := w.sidenessCache.data[cell]
@@ -343,11 +337,10 @@ func flipVal(val uint8) uint8 {
 // computeAndCacheSideness will calculate value for given partition alias and
 // checked seg and store it. Clobbering existing values not allowed
 func (w *NodesWork) computeAndCacheSideness(part, check *NodeSeg, c *IntersectionContext) {
-	if part.alias == 0 || part.alias > w.sidenessCache.maxKnownAlias ||
-		(check.flags&SEG_FLAG_NOCACHE != 0) {
+	if part.sidenessRow == 0 || ((part.flags|check.flags)&SEG_FLAG_NOCACHE != 0) {
 		return
 	}
-	cell := (part.alias-1)*w.sidenessCache.colCount + check.sidenessIdx
+	cell := (part.sidenessRow-1)*w.sidenessCache.colCount + check.sidenessIdx
 	mov := (cell & 0x3) << 1
 	cell >>= 2
 	raw := w.sidenessCache.data[cell]
@@ -368,11 +361,10 @@ func (w *NodesWork) computeAndCacheSideness(part, check *NodeSeg, c *Intersectio
 // and checked seg rather than compute it. Clobbering existing values still not
 // allowed
 func (w *NodesWork) storeSidenessDirectly(part, check *NodeSeg, sideness uint8) {
-	if part.alias == 0 || part.alias > w.sidenessCache.maxKnownAlias ||
-		(check.flags&SEG_FLAG_NOCACHE != 0) {
+	if part.sidenessRow == 0 || ((part.flags|check.flags)&SEG_FLAG_NOCACHE != 0) {
 		return
 	}
-	cell := (part.alias-1)*w.sidenessCache.colCount + check.sidenessIdx
+	cell := (part.sidenessRow-1)*w.sidenessCache.colCount + check.sidenessIdx
 	mov := (cell & 0x3) << 1
 	cell >>= 2
 	raw := w.sidenessCache.data[cell]
diff --git a/znodegen.go b/znodegen.go
index 419f92c..6974ad1 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -122,6 +122,7 @@ type ZExt_NodeSeg struct {
 	sector             uint16
 	secEquiv           uint16
 	flags              uint8
+	sidenessRow        int
 	sidenessIdx        int
 	block              *ZExt_Superblock
 	StartVertex        *ZExt_NodeVertex
@@ -555,10 +556,9 @@ func ZExt_NodesGenerator(input *NodesInput) {
 	}
 
 	if input.cacheSideness {
-		Log.Printf("[nodes] Sideness cache was generated for %d INITIAL aliases (out of %d total aliases) for %d (out of %d) linedefs \n",
+		Log.Printf("[nodes] Sideness cache was generated for %d INITIAL aliases (out of %d total aliases) for %d segs \n",
 			workData.sidenessCache.maxKnownAlias,
-			workData.segAliasObj.maxAlias, workData.sidenessCache.colCount,
-			input.lines.Len())
+			workData.segAliasObj.maxAlias, workData.sidenessCache.colCount)
 	}
 
 	if workData.nodeType == NODETYPE_DEEP {
@@ -3622,6 +3622,10 @@ forblock:
 				}
 				if val == SIDENESS_COLLINEAR {
 
+					c.lsx = check.psx
+					c.lsy = check.psy
+					c.lex = check.pex
+					c.ley = check.pey
 					if check.alias != part.alias && ZExt_vetAliasTransfer(c) {
 						check.alias = part.alias
 					}
@@ -6310,9 +6314,9 @@ func ZExt_IntIsClockwiseTriangle(p1, p2, p3 *ZExt_NodeVertex) bool {
 func (w *ZExt_NodesWork) buildSidenessCache(rootSeg *ZExt_NodeSeg, super *ZExt_Superblock) {
 	start := time.Now()
 	Log.Printf("[nodes] Building cache for sideness\n")
-	lineCount := w.precomputeAliasesForCache(rootSeg, super)
+	segCount := w.precomputeAliasesForCache(rootSeg, super)
 	w.sidenessCache.maxKnownAlias = w.segAliasObj.maxAlias
-	w.sidenessCache.colCount = int(lineCount)
+	w.sidenessCache.colCount = int(segCount)
 	w.sidenessCache.data = make([]uint8,
 		(w.sidenessCache.maxKnownAlias*w.sidenessCache.colCount)>>2+1)
 	ZExt_setSidenessIdxForAll(super)
@@ -6324,13 +6328,13 @@ func (w *ZExt_NodesWork) precomputeAliasesForCache(ts *ZExt_NodeSeg, super *ZExt
 	var previousPart *ZExt_NodeSeg
 	w.segAliasObj.UnvisitAll()
 	var c ZExt_IntersectionContext
-	lines := make(map[uint16]bool)
+	cntSegs := 0
 	for part := ts; part != nil; part = part.next {
+		cntSegs++
 		if part.partner != nil && part.partner == previousPart {
 
 			continue
 		}
-		lines[part.Linedef] = true
 		if part.alias != 0 {
 			if w.segAliasObj.MarkAndRecall(part.alias) {
 
@@ -6350,11 +6354,7 @@ func (w *ZExt_NodesWork) precomputeAliasesForCache(ts *ZExt_NodeSeg, super *ZExt
 		c.pdy = c.psy - c.pey
 		w.evalComputeAliasesWorker(super, part, &c)
 	}
-	cntLines := 0
-	for range lines {
-		cntLines++
-	}
-	return cntLines
+	return cntSegs
 }
 
 func (w *ZExt_NodesWork) evalComputeAliasesWorker(block *ZExt_Superblock, part *ZExt_NodeSeg, c *ZExt_IntersectionContext) {
@@ -6399,27 +6399,21 @@ forblock:
 }
 
 func ZExt_setSidenessIdxForAll(super *ZExt_Superblock) {
-	remap := make(map[uint16]int)
 	gen := 0
-	ZExt_evalSidenessIdx(super, remap, &gen)
+	ZExt_evalSidenessIdx(super, &gen)
 }
 
-func ZExt_evalSidenessIdx(block *ZExt_Superblock, remap map[uint16]int, gen *int) {
+func ZExt_evalSidenessIdx(block *ZExt_Superblock, gen *int) {
 	for check := block.segs; check != nil; check = check.nextInSuper {
-		val, ok := remap[check.Linedef]
-		if !ok {
-			val = *gen
-			(*gen)++
-			remap[check.Linedef] = val
-		}
-		check.sidenessIdx = val
+		check.sidenessIdx = *gen
+		(*gen)++
 	}
 	for num := 0; num < 2; num++ {
 		if block.subs[num] == nil {
 			continue
 		}
 
-		ZExt_evalSidenessIdx(block.subs[num], remap, gen)
+		ZExt_evalSidenessIdx(block.subs[num], gen)
 	}
 }
 
@@ -6457,8 +6451,13 @@ func (w *ZExt_NodesWork) computeAndLockSidenessCache(ts *ZExt_NodeSeg, super *ZE
 			c.pey = part.pey
 			c.pdx = c.psx - c.pex
 			c.pdy = c.psy - c.pey
+			part.sidenessRow = part.alias
 			w.evalComputeSidenessCache(super, part, &c)
 		}
+
+		for part := ts; part != nil; part = part.next {
+			part.alias = 0
+		}
 		w.segAliasObj.UnvisitAll()
 	}
 	w.sidenessCache.readOnly = true
@@ -6511,14 +6510,13 @@ forblock:
 }
 
 func (w *ZExt_NodesWork) WhichSideCached(part, check *ZExt_NodeSeg, c *ZExt_IntersectionContext) uint8 {
-	if part.alias == 0 || part.alias > w.sidenessCache.maxKnownAlias ||
-		(check.flags&SEG_FLAG_NOCACHE != 0) {
+	if part.sidenessRow == 0 || ((part.flags|check.flags)&SEG_FLAG_NOCACHE != 0) {
 
 		return w.WhichSideInternal(check, c)
 	}
 	negate := part.flags&SEG_FLAG_GLOBAL_FLIP != 0
 
-	cell := (part.alias-1)*w.sidenessCache.colCount + check.sidenessIdx
+	cell := (part.sidenessRow-1)*w.sidenessCache.colCount + check.sidenessIdx
 	mov := (cell & 0x3) << 1
 	cell >>= 2
 	raw := w.sidenessCache.data[cell]
@@ -6530,11 +6528,10 @@ func (w *ZExt_NodesWork) WhichSideCached(part, check *ZExt_NodeSeg, c *ZExt_Inte
 }
 
 func (w *ZExt_NodesWork) computeAndCacheSideness(part, check *ZExt_NodeSeg, c *ZExt_IntersectionContext) {
-	if part.alias == 0 || part.alias > w.sidenessCache.maxKnownAlias ||
-		(check.flags&SEG_FLAG_NOCACHE != 0) {
+	if part.sidenessRow == 0 || ((part.flags|check.flags)&SEG_FLAG_NOCACHE != 0) {
 		return
 	}
-	cell := (part.alias-1)*w.sidenessCache.colCount + check.sidenessIdx
+	cell := (part.sidenessRow-1)*w.sidenessCache.colCount + check.sidenessIdx
 	mov := (cell & 0x3) << 1
 	cell >>= 2
 	raw := w.sidenessCache.data[cell]
@@ -6552,11 +6549,10 @@ func (w *ZExt_NodesWork) computeAndCacheSideness(part, check *ZExt_NodeSeg, c *Z
 }
 
 func (w *ZExt_NodesWork) storeSidenessDirectly(part, check *ZExt_NodeSeg, sideness uint8) {
-	if part.alias == 0 || part.alias > w.sidenessCache.maxKnownAlias ||
-		(check.flags&SEG_FLAG_NOCACHE != 0) {
+	if part.sidenessRow == 0 || ((part.flags|check.flags)&SEG_FLAG_NOCACHE != 0) {
 		return
 	}
-	cell := (part.alias-1)*w.sidenessCache.colCount + check.sidenessIdx
+	cell := (part.sidenessRow-1)*w.sidenessCache.colCount + check.sidenessIdx
 	mov := (cell & 0x3) << 1
 	cell >>= 2
 	raw := w.sidenessCache.data[cell]
-- 
2.43.0


From 894a17c597e5ff9d8cf4ed030c18af1d66a98ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:16 +0000
Subject: [PATCH 51/59] fix: vanilla nodes were written with truncated vertex
 numbers when vertices didn't fit

---
 nodegen.go  | 7 +++++++
 znodegen.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/nodegen.go b/nodegen.go
index 83aac9d..c17a52a 100755
--- a/nodegen.go
+++ b/nodegen.go
@@ -856,6 +856,13 @@ func NodesGenerator(input *NodesInput) {
 				workData.totals.numSSectors)
 		}
 		workData.emptyNodesLumps()
+	} else if workData.nodeType == NODETYPE_VANILLA &&
+		len(workData.vertices) > 65536 {
+		if !cloneEarly {
+			Log.Error("Number of vertices is too large (%d) for this format. Lumps NODES, SEGS, SSECTORS will be emptied.\n",
+				len(workData.vertices))
+		}
+		workData.emptyNodesLumps()
 	} else if workData.tooManySegsCantFix(false) {
 		if !cloneEarly {
 			Log.Error("Number of segs is too large (%d) for this format. Lumps NODES, SEGS, SSECTORS will be emptied.\n",
diff --git a/znodegen.go b/znodegen.go
index 6974ad1..7bfe31b 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -547,6 +547,13 @@ func ZExt_NodesGenerator(input *NodesInput) {
 				workData.totals.numSSectors)
 		}
 		workData.emptyNodesLumps()
+	} else if workData.nodeType == NODETYPE_VANILLA &&
+		len(workData.vertices) > 65536 {
+		if !cloneEarly {
+			Log.Error("Number of vertices is too large (%d) for this format. Lumps NODES, SEGS, SSECTORS will be emptied.\n",
+				len(workData.vertices))
+		}
+		workData.emptyNodesLumps()
 	} else if workData.tooManySegsCantFix(false) {
 		if !cloneEarly {
 			Log.Error("Number of segs is too large (%d) for this format. Lumps NODES, SEGS, SSECTORS will be emptied.\n",
-- 
2.43.0


From 417e75cd87de02bade5c787d743133a2bf6a6400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 52/59] fix: crash when the largest subsector's segs crossed
 number 65536

---
 node_outro.go | 5 +++--
 znodegen.go   | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/node_outro.go b/node_outro.go
index 9cd7243..09c9b91 100755
--- a/node_outro.go
+++ b/node_outro.go
@@ -145,8 +145,9 @@ func (w *NodesWork) fitSegsToTarget(maxSegIndex uint16, dryRun bool) (bool, int)
 			w.subsectors[biggestSubsector-1].SegCount
 	}
 
-	pivot := w.subsectors[biggestSubsector].FirstSeg
-	pivot2 := pivot + w.subsectors[biggestSubsector].SegCount
+	// pivot2 may not fit in uint16
+	pivot := int(w.subsectors[biggestSubsector].FirstSeg)
+	pivot2 := pivot + int(w.subsectors[biggestSubsector].SegCount)
 	// Move pivot:pivot2 subslice to the end of w.segs slice
 	w.segs = append(w.segs[:pivot], append(w.segs[pivot2:], w.segs[pivot:pivot2]...)...)
 	for i := biggestSubsector + 1; i < len(w.subsectors); i++ {
diff --git a/znodegen.go b/znodegen.go
index 7bfe31b..bb43267 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -1970,8 +1970,8 @@ func (w *ZExt_NodesWork) fitSegsToTarget(maxSegIndex uint16, dryRun bool) (bool,
 			w.subsectors[biggestSubsector-1].SegCount
 	}
 
-	pivot := w.subsectors[biggestSubsector].FirstSeg
-	pivot2 := pivot + w.subsectors[biggestSubsector].SegCount
+	pivot := int(w.subsectors[biggestSubsector].FirstSeg)
+	pivot2 := pivot + int(w.subsectors[biggestSubsector].SegCount)
 
 	w.segs = append(w.segs[:pivot], append(w.segs[pivot2:], w.segs[pivot:pivot2]...)...)
 	for i := biggestSubsector + 1; i < len(w.subsectors); i++ {
-- 
2.43.0


From af8e615925e77ed396034aed410a6e0b4a3ea264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 53/59] fix: reject took scroller helper lines for walls when
 built on its own

---
 level.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/level.go b/level.go
index cef8247..c8ebc2a 100755
--- a/level.go
+++ b/level.go
@@ -223,8 +223,10 @@ func (l *Level) DoLevel(le []LumpEntry, idx int, rejectsize map[int]uint32,
 				} else {
 					// Otherwise if either only blockmap or only nodes are
 					// being rebuilt, we still need to locate scrollers to mark
-					// them as omitted from either
-					if config.RebuildBlockmap || config.RebuildNodes {
+					// them as omitted from either. Reject must not mistake them
+					// for walls, too
+					if config.RebuildBlockmap || config.RebuildNodes ||
+						config.Reject == REJECT_NORMAL {
 						_, linesToIgnore = RefreshScrollerSpeed(linedefs,
 							vertices, true)
 					}
-- 
2.43.0


From 35c715573f851c1e681b5eab4f09c37497468ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 54/59] fix: two-sided line culled and then recovered could get
 its segs twice

---
 selfref.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/selfref.go b/selfref.go
index 8a057a7..0dea54f 100755
--- a/selfref.go
+++ b/selfref.go
@@ -217,6 +217,15 @@ func (c *Culler) Analyze() {
 	// over subsequent runs because segs are in different order
 	//if config.Deterministic { // reference to global: config
 	sort.Sort(Uint16Slice(c.spewOut))
+	// The perimeter passes twice over a line that is the only link between two
+	// parts of the sector, yet the line must be returned to the caller once
+	unique := c.spewOut[:0]
+	for _, line := range c.spewOut {
+		if len(unique) == 0 || unique[len(unique)-1] != line {
+			unique = append(unique, line)
+		}
+	}
+	c.spewOut = unique
 	// FIXME perimeterSink is currently a map, another probable source of
 	// inconsistency. Redefine it as an array, sort it by sector number
 	//}
-- 
2.43.0


From 68246b8575e77ccd0691a7f8f39433cc10edc558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 55/59] fix: self-referencing areas in enclosed parts of the
 map were culled

---
 selfref.go | 57 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/selfref.go b/selfref.go
index 0dea54f..5a85f81 100755
--- a/selfref.go
+++ b/selfref.go
@@ -693,6 +693,16 @@ func (c *Culler) deepAnalysis(secIdx uint16, allLines, culledLines []uint16,
 	}
 
 	if doingForSegs {
+		// The perimeter can also go around foreign areas enclosed by the
+		// sector. A self-referencing area in there, if connected to the sector,
+		// is not on the perimeter but must be rendered all the same
+		for i, line := range culledLines {
+			if !culledLinesVisibility[i] && !c.writLines.IsDoNotRender(line) &&
+				!c.isWithinSector(secIdx, line, allLines) {
+				c.spewOut = append(c.spewOut, line)
+				culledLinesVisibility[i] = true
+			}
+		}
 		for i := 0; i < len(culledLinesVisibility); i++ {
 			if !culledLinesVisibility[i] && !c.writLines.IsDoNotRender(culledLines[i]) {
 				Log.Verbose(1, "2-sided line %d (sector %d) will not be rendered - is not bordering this sector.",
@@ -703,6 +713,53 @@ func (c *Culler) deepAnalysis(secIdx uint16, allLines, culledLines []uint16,
 	return true
 }
 
+// isWithinSector returns whether the middle of the line is inside the sector,
+// as far as those lines of the sector tell which separate it from something
+// else: the first of these met on the way in some direction must face the line
+// with its side of that sector
+func (c *Culler) isWithinSector(secIdx uint16, line uint16,
+	allLines []uint16) bool {
+	// direction that is not parallel to any line
+	const dx, dy = 0.85065080835203993, 0.52573111211913361
+	x1, y1, x2, y2 := c.absLines.GetAllXY(line)
+	x := float64(x1+x2) / 2
+	y := float64(y1+y2) / 2
+	nearest := math.MaxFloat64
+	within := false
+	for _, other := range allLines {
+		sectors := [2]int{-1, -1}
+		for side := range sectors {
+			sdef := c.absLines.GetSidedefIndex(other, side == 0)
+			if sdef != SIDEDEF_NONE {
+				sectors[side] = int(c.sidedefs[sdef].Sector)
+			}
+		}
+		if sectors[0] == sectors[1] {
+			continue
+		}
+		x1, y1, x2, y2 := c.absLines.GetAllXY(other)
+		// distances of both ends from the ray, signed
+		d1 := dx*(float64(y1)-y) - dy*(float64(x1)-x)
+		d2 := dx*(float64(y2)-y) - dy*(float64(x2)-x)
+		if (d1 > 0) == (d2 > 0) {
+			continue
+		}
+		f := d1 / (d1 - d2)
+		way := dx*(float64(x1)+f*float64(x2-x1)-x) +
+			dy*(float64(y1)+f*float64(y2-y1)-y)
+		if way >= 0 && way < nearest {
+			nearest = way
+			// front side of the linedef is on its right
+			facing := 0
+			if d1 < 0 {
+				facing = 1
+			}
+			within = sectors[facing] == int(secIdx)
+		}
+	}
+	return within
+}
+
 func debugStrVerticesCoords(vs []NodeVertex) string {
 	result := ""
 	for i, v := range vs {
-- 
2.43.0


From 655bbb49aa5022b43f8ae1ff5f73cf551c60f516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:55 +0000
Subject: [PATCH 56/59] fix: --roots tried lines of the wrong kind when all
 fitting ones were collinear with others

---
 multitree_plain.go | 10 ++++++++++
 znodegen.go        |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/multitree_plain.go b/multitree_plain.go
index 72cd3a6..7672387 100755
--- a/multitree_plain.go
+++ b/multitree_plain.go
@@ -133,6 +133,16 @@ func MTPSentinel_MakeBestBSPTree(w *NodesWork, bbox *NodeBounds,
 		// code tree will pick from global config directly the needed things
 		// not a good API, admittedly
 		rootSegCandidates = MTP_ZenRootEnumerate(w, bbox)
+		if len(rootSegCandidates) == 0 {
+			// None of the lines scored is of the kind requested, but there
+			// can be lines of that kind which were not scored because they are
+			// collinear with some line that was
+			rootSegCandidates = MTPSentinel_GetRootSegCandidates(w.allSegs,
+				rootChoiceMethod)
+			if len(rootSegCandidates) > config.Roots {
+				rootSegCandidates = rootSegCandidates[:config.Roots]
+			}
+		}
 	}
 	if len(rootSegCandidates) == 0 {
 		// No linedef is of the kind requested (for example, there are no
diff --git a/znodegen.go b/znodegen.go
index bb43267..d21fd89 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -4295,6 +4295,14 @@ func ZExt_MTPSentinel_MakeBestBSPTree(w *ZExt_NodesWork, bbox *NodeBounds,
 	} else {
 
 		rootSegCandidates = ZExt_MTP_ZenRootEnumerate(w, bbox)
+		if len(rootSegCandidates) == 0 {
+
+			rootSegCandidates = ZExt_MTPSentinel_GetRootSegCandidates(w.allSegs,
+				rootChoiceMethod)
+			if len(rootSegCandidates) > config.Roots {
+				rootSegCandidates = rootSegCandidates[:config.Roots]
+			}
+		}
 	}
 	if len(rootSegCandidates) == 0 {
 
-- 
2.43.0


From 9cdcf731e00dc84a573725c67669a42f576ab365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 57/59] fix: polyobject spot level with a vertex could be
 traced to the wrong sector

The horizontal ray from the spot went through the vertex, so all the lines
that meet there were equally close and the first of them won, even if it
leads away from the sector the spot is in. The sector of the polyobject was
then not protected from splits (or a foreign one was).
---
 universal_interfaces.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/universal_interfaces.go b/universal_interfaces.go
index 8082cf6..1c92bdb 100755
--- a/universal_interfaces.go
+++ b/universal_interfaces.go
@@ -602,7 +602,11 @@ func (o *HexenLinedefs) markPolyobjPoint(thingNum int, x, y int16) {
 	//       intersect it, choosing the one with the closest distance.
 	//       If the point is sitting directly on a (two-sided) line,
 	//       then we mark the sectors on both sides.
-	yInt := int(y)
+	// The ray is cast half a unit above the thing, so that it never runs
+	// through a vertex: of several lines meeting in one, all of them as
+	// close, some may have nothing to do with the sector the thing is in.
+	// (The thing is at least POLY_BOX_SZ away from any line here)
+	yRay := float64(y) + 0.5
 	bestDist := float64(99999999.0) // > maximum possible distance (max = 65536 * sqrt(2))
 	bestMatch := -1
 	for i, _ := range o.linedefs {
@@ -610,10 +614,10 @@ func (o *HexenLinedefs) markPolyobjPoint(thingNum int, x, y int16) {
 		if y1 == y2 {
 			continue
 		}
-		if (yInt > y1 && yInt > y2) || (yInt < y1 && yInt < y2) {
+		if (yRay > float64(y1)) == (yRay > float64(y2)) {
 			continue
 		}
-		xCut := float64(x1) + float64(x2-x1)*float64(yInt-y1)/
+		xCut := float64(x1) + float64(x2-x1)*(yRay-float64(y1))/
 			float64(y2-y1) - float64(x)
 		if math.Abs(xCut) < math.Abs(bestDist) {
 			bestMatch = i
-- 
2.43.0


From 1e007e79615864a4087e434f5ea9e7e6eb1b1371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:23 +0000
Subject: [PATCH 58/59] fix: polyobject room could be cut alongside a
 neighbouring polyobject room

A partition through a vertex of a polyobject's sector is avoided unless it
runs along a side of that sector. For a line between two such sectors sides
of either were accepted, so a partition along a side of one of them that
enters the other passed for harmless.
---
 picknode.go             |  2 +-
 universal_interfaces.go | 30 +++++-------------------------
 znodegen.go             |  2 +-
 3 files changed, 7 insertions(+), 27 deletions(-)

diff --git a/picknode.go b/picknode.go
index c09cca7..6a51042 100755
--- a/picknode.go
+++ b/picknode.go
@@ -1842,7 +1842,7 @@ func (w *NodesWork) PassingTooClose(part, check *NodeSeg, cost *int,
 // PartIsPolyobjSide returns whether part is alongside any side of polyobject
 // sector (which should be convex) that check comes from
 func (w *NodesWork) PartIsPolyobjSide(part, check *NodeSeg) bool {
-	lines := w.lines.GetAllPolyobjLines(check.Linedef)
+	lines := w.lines.GetAllPolyobjLines(check.sector)
 	if lines == nil {
 		return false
 	}
diff --git a/universal_interfaces.go b/universal_interfaces.go
index 1c92bdb..3d58940 100755
--- a/universal_interfaces.go
+++ b/universal_interfaces.go
@@ -107,9 +107,9 @@ type WriteableLines interface {
 	GetVerticesCount() int
 	// MUTATES linedefs of sectors containing polyobjects are "tagged" precious
 	DetectPolyobjects()
-	// Returns all lines from the same polyobject
+	// Returns all lines of the sector, if it contains a polyobject
 	// The caller has responsibility NOT to modify returned slice
-	GetAllPolyobjLines(lidx uint16) []uint16
+	GetAllPolyobjLines(sidx uint16) []uint16
 	// MUTATES adds a new vertex and returns its index
 	AddVertex(X, Y int) int
 	// returns underlying slice used for representing vertices
@@ -170,7 +170,6 @@ type HexenLinedefs struct {
 	sectorHasPolyobj map[uint16]bool
 	preciousLinedefs []bool              // true for linedefs that are part of sector that has a polyobj
 	poSectorLineIdx  map[uint16][]uint16 // sector (with polyobj) idx to list of line related to polyobj
-	poLineToSector   map[uint16][]uint16 // precious linedef idx to list of sectors with polyobj it is part of
 }
 
 // Hexen analogue of DoomSolidLinedefs
@@ -296,7 +295,7 @@ func (o *DoomLinedefs) DetectPolyobjects() {
 	// No-op - no polyobjects in Doom format
 }
 
-func (o *DoomLinedefs) GetAllPolyobjLines(lidx uint16) []uint16 {
+func (o *DoomLinedefs) GetAllPolyobjLines(sidx uint16) []uint16 {
 	return nil
 }
 
@@ -507,7 +506,6 @@ func (o *HexenLinedefs) PruneUnusedVertices() {
 // Possibly needs optimizations for maps heavy on polyobjects -- VigilantDoomer
 func (o *HexenLinedefs) DetectPolyobjects() {
 	o.preciousLinedefs = make([]bool, len(o.linedefs))
-	o.poLineToSector = make(map[uint16][]uint16)
 	o.poSectorLineIdx = make(map[uint16][]uint16)
 
 	// -JL- There's a conflict between Hexen polyobj thing types and Doom thing
@@ -669,12 +667,6 @@ func (o *HexenLinedefs) markPolyobjSector(sector uint16) {
 				o.sidedefs[line.BackSdef].Sector == sector) {
 			o.preciousLinedefs[i] = true
 			lineIdxs = append(lineIdxs, uint16(i))
-			rec := o.poLineToSector[uint16(i)]
-			if rec == nil {
-				rec = make([]uint16, 0)
-			}
-			rec = append(rec, sector)
-			o.poLineToSector[uint16(i)] = rec
 		}
 	}
 	o.poSectorLineIdx[sector] = lineIdxs
@@ -814,19 +806,8 @@ func (o *HexenLinedefs) GetSolidVersion() SolidLines {
 	}
 }
 
-func (o *HexenLinedefs) GetAllPolyobjLines(lidx uint16) []uint16 {
-	rec := o.poLineToSector[lidx]
-	if rec == nil {
-		return nil
-	}
-	ret := o.poSectorLineIdx[rec[0]]
-	if len(rec) > 1 { // bad, shouldn't happen
-		ret = make([]uint16, 0)
-		for i, _ := range rec {
-			ret = append(ret, o.poSectorLineIdx[rec[i]]...)
-		}
-	}
-	return ret
+func (o *HexenLinedefs) GetAllPolyobjLines(sidx uint16) []uint16 {
+	return o.poSectorLineIdx[sidx]
 }
 
 func (o *HexenLinedefs) RearrangeVertices(translate []int) {
@@ -1075,7 +1056,6 @@ func (o *HexenLinedefs) Clone() WriteableLines {
 		sectorHasPolyobj: o.sectorHasPolyobj, // NOTE we are not mutating sectorHasPolyobj anymore after DetectPolyobjs was called?
 		preciousLinedefs: o.preciousLinedefs, // NOTE we are not mutating preciousLinedefs anymore after DetectPolyobjs was called?
 		poSectorLineIdx:  o.poSectorLineIdx,  // NOTE we are not yet mutating this, do we?
-		poLineToSector:   o.poLineToSector,   // NOTE we are not yet mutating this, do we?
 	}
 }
 
diff --git a/znodegen.go b/znodegen.go
index d21fd89..9269ee1 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -3348,7 +3348,7 @@ forblock:
 }
 
 func (w *ZExt_NodesWork) PartIsPolyobjSide(part, check *ZExt_NodeSeg) bool {
-	lines := w.lines.GetAllPolyobjLines(check.Linedef)
+	lines := w.lines.GetAllPolyobjLines(check.sector)
 	if lines == nil {
 		return false
 	}
-- 
2.43.0


From 24f50cad54560d59b051391772be71972f9f4eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:08 +0000
Subject: [PATCH 59/59] fix: precious lines were split freely when partitioning
 a single sector

---
 convexity.go | 4 ++++
 znodegen.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/convexity.go b/convexity.go
index a28846c..0740b3b 100755
--- a/convexity.go
+++ b/convexity.go
@@ -200,6 +200,10 @@ func PickNode_SingleSector(w *NodesWork, ts *NodeSeg, bbox *NodeBounds,
 			if ((val&2 != 0) && (val&64 != 0)) || ((val&4 != 0) && (val&32 != 0)) {
 				// splits are now double as bad as before
 				cost += PICKNODE_FACTOR << 1
+				if check.flags&SEG_FLAG_PRECIOUS != 0 {
+					// don't split it unless all other options are exhausted
+					cost += PICKNODE_FACTOR * PRECIOUS_MULTIPLY
+				}
 				if cost >= bestcost {
 					prune = true // Lee Killough's master speed-up
 					break
diff --git a/znodegen.go b/znodegen.go
index 9269ee1..eb4aa4f 100755
--- a/znodegen.go
+++ b/znodegen.go
@@ -4149,6 +4149,10 @@ func ZExt_PickNode_SingleSector(w *ZExt_NodesWork, ts *ZExt_NodeSeg, bbox *NodeB
 			if ((val&2 != 0) && (val&64 != 0)) || ((val&4 != 0) && (val&32 != 0)) {
 
 				cost += PICKNODE_FACTOR << 1
+				if check.flags&SEG_FLAG_PRECIOUS != 0 {
+
+					cost += PICKNODE_FACTOR * PRECIOUS_MULTIPLY
+				}
 				if cost >= bestcost {
 					prune = true
 					break
-- 
2.43.0

