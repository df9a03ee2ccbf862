package gkrspec

import (
	"gkr-mimc/common"
	"gkr-mimc/gkr"
	"gkr-mimc/hash"
	"verifspec/sym"

	"github.com/consensys/gurvy/bn256/fr"
)

// Challenge is the hash of every value, in order
//verif:for P01 P04 P05 P10 P13
func Challenge() {
	sym.Assume(len(hash.Arks) >= 91)
	n := sym.Nat("n")
	m := sym.Slice[[]fr.Element]("message", n)
	sym.Equal("hash of the message", common.GetChallenge(m), hash.MimcHash(m))
	sym.Equal("the message is unchanged", m, sym.Slice[[]fr.Element]("message", n))
}

func bit(x fr.Element) bool {
	var y fr.Element
	y.Square(&x)
	return sym.Eq(x, y)
}

// InitialPoint: the first evaluation point cannot be known before the statement, in particular it is no constant
//verif:for P05
func InitialPoint() {
	bN, bG := sym.Nat("bN"), sym.Nat("bG")
	qPrime, q := gkr.GetInitialQPrimeAndQ(bN, bG)
	sym.Equal("bN coordinates", len(qPrime), bN)
	sym.Equal("bG coordinates", len(q), bG)
	sym.Holds("not a boolean constant", bN == 0 || !bit(qPrime[0]))
}
