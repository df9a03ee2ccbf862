package gatespec

import (
	"gkr-mimc/circuit"
	"gkr-mimc/polynomial"
	"verifspec/sym"

	"github.com/consensys/gurvy/bn256/fr"
)

func at(g circuit.Gate, k uint64, onL, onR bool) fr.Element {
	l, r := sym.Of[fr.Element]("l"), sym.Of[fr.Element]("r")
	dl, dr := sym.Of[fr.Element]("dl"), sym.Of[fr.Element]("dr")
	var x, v fr.Element
	x.SetUint64(k)
	dl.Mul(&dl, &x)
	dr.Mul(&dr, &x)
	if onL {
		l.Add(&l, &dl)
	}
	if onR {
		r.Add(&r, &dr)
	}
	g.Eval(&v, &l, &r)
	return v
}

// difference of the given order of the gate along a line, at k
func difference(g circuit.Gate, order int, k uint64, onL, onR bool) fr.Element {
	if order == 0 {
		return at(g, k, onL, onR)
	}
	a, b := difference(g, order-1, k+1, onL, onR), difference(g, order-1, k, onL, onR)
	a.Sub(&a, &b)
	return a
}

// vanishes checks that the difference of order deg+1 of the gate along a line is zero:
// the gate is a polynomial of degree at most deg on every line in that direction
func vanishes(label string, g circuit.Gate, deg int, onL, onR bool) {
	var zero fr.Element
	sym.Equal(label, difference(g, deg+1, 0, onL, onR), zero)
}

func degrees(g circuit.Gate) {
	sym.Init("polynomial")
	dl, dr, dp := g.Degrees()
	vanishes("degree in the left value", g, dl, true, false)
	vanishes("degree in the right value", g, dr, false, true)
	vanishes("degree in both", g, dp, true, true)
	// one more for the static table or eq, one for the constant coefficient
	sym.Holds("interpolation tables", len(polynomial.GetLagrangePolynomial(dl+2)) == dl+2 &&
		len(polynomial.GetLagrangePolynomial(dr+2)) == dr+2 &&
		len(polynomial.GetLagrangePolynomial(dp+2)) == dp+2)
}

//verif:for P04 P07
func AddGateDegrees() { degrees(circuit.AddGate{}) }

//verif:for P04 P07
func MulGateDegrees() { degrees(circuit.MulGate{}) }

//verif:for P04 P07
func CopyGateDegrees() { degrees(circuit.CopyGate{}) }

//verif:for P04 P07
func CipherGateDegrees() { degrees(circuit.NewCipherGate(sym.Of[fr.Element]("ark"))) }
