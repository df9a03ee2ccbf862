package hashspec

import (
	"gkr-mimc/hash"
	"verifspec/sym"

	"github.com/consensys/gurvy/bn256/fr"
)

func pow7(x fr.Element) fr.Element {
	r := x
	for i := 0; i < 6; i++ {
		r.Mul(&r, &x)
	}
	return r
}

// mimcBlock is one compression: 91 rounds state ← (state + block + Arks[i])^7, then + old state + block
func mimcBlock(state, block fr.Element) fr.Element {
	s := state
	for i := 0; i < 91; i++ {
		s.Add(&s, &block)
		s.Add(&s, &hash.Arks[i])
		s = pow7(s)
	}
	s.Add(&s, &state)
	s.Add(&s, &block)
	return s
}

//verif:for P08 P09
func SBox() {
	x := sym.Of[fr.Element]("x")
	hash.SBoxInplace(&x)
	sym.Equal("x^7", x, pow7(sym.Of[fr.Element]("x")))
}

//verif:for P04 P05 P08 P09
func MimcUpdate() {
	sym.Assume(len(hash.Arks) >= 91)
	s, b := sym.Of[fr.Element]("s"), sym.Of[fr.Element]("b")
	hash.MimcUpdateInplace(&s, b)
	sym.Equal("MimcUpdateInplace", s, mimcBlock(sym.Of[fr.Element]("s"), b))
}

// every element of the input is absorbed, in order
//verif:for P04 P05 P08 P09 P10 P13
func MimcHash() {
	sym.Assume(len(hash.Arks) >= 91)
	n := sym.Nat("n")
	msg := sym.Slice[[]fr.Element]("msg", n)
	got := hash.MimcHash(msg)
	var want fr.Element
	for i := 0; i < n; i++ {
		want = mimcBlock(want, msg[i])
	}
	sym.Equal("MimcHash", got, want)
	sym.Equal("the message is unchanged", msg, sym.Slice[[]fr.Element]("msg", n))
}

// Constants: once the package is initialised, there is a constant for each of the 91 rounds
//verif:for P08 P09 P21
func Constants() {
	sym.Init("hash")
	sym.Holds("a constant per round", len(hash.Arks) >= hash.MimcRounds && hash.MimcRounds == 91)
}
