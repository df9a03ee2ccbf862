package model

import (
	"gkr-mimc/circuit"
	"gkr-mimc/polynomial"

	"github.com/consensys/gurvy/bn256/fr"
)

// staticTable is the table of the i-th gate (opaque: see circuitspec.StaticTables for its content)
func staticTable(l circuit.Layer, q []fr.Element, i int) polynomial.BookKeepingTable {
	return polynomial.BookKeepingTable{}
}

// StaticTables has one table per gate
func StaticTables(l *circuit.Layer, q []fr.Element) []polynomial.BookKeepingTable {
	r := make([]polynomial.BookKeepingTable, len(l.Gates))
	for i := range r {
		r[i] = staticTable(*l, q, i)
	}
	return r
}
