package mathspec

import (
	"gkr-mimc/common"
	"verifspec/sym"
)

// ChunkRanges are consecutive non empty intervals that cover 0..n-1
//verif:for P14
func ChunkRanges() {
	cores, n := sym.Pos("cores"), sym.Pos("n")
	got := common.IntoChunkRanges(cores, n)
	sym.Holds("there is a chunk", len(got) > 0)
	sym.Holds("the first chunk begins at 0", got[0].Begin == 0)
	sym.Holds("the last chunk ends at n", got[len(got)-1].End == n)
	sym.Holds("the chunks are not empty", sym.ForAll(len(got), func(i int) bool { return got[i].Begin < got[i].End }))
	sym.Holds("a chunk ends where the next one begins", sym.ForAll(len(got)-1, func(i int) bool { return got[i].End == got[i+1].Begin }))
}

// NoChunk covers an empty range
//verif:for P14
func NoChunk() {
	sym.Holds("no chunk", len(common.IntoChunkRanges(sym.Pos("cores"), 0)) == 0)
}
