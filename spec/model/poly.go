// Package model holds specifications that stand for repository functions having an obligation of their own
package model

import (
	"gkr-mimc/polynomial"

	"github.com/consensys/gurvy/bn256/fr"
)

type Table = polynomial.BookKeepingTable

// TableAdd is t = l + r
func TableAdd(t *Table, l, r Table) {
	if len(l.Table) != len(r.Table) {
		panic("size")
	}
	x := make([]fr.Element, len(l.Table))
	for i := range x {
		x[i].Add(&l.Table[i], &r.Table[i])
	}
	t.Table = x
}

// TableSub is t = l - r
func TableSub(t *Table, l, r Table, nCore int) {
	if len(l.Table) != len(r.Table) {
		panic("size")
	}
	x := make([]fr.Element, len(l.Table))
	for i := range x {
		x[i].Sub(&l.Table[i], &r.Table[i])
	}
	t.Table = x
}

// TableMul is t = a l
func TableMul(t *Table, a fr.Element, l Table, nCore int) {
	x := make([]fr.Element, len(l.Table))
	for i := range x {
		x[i].Mul(&l.Table[i], &a)
	}
	t.Table = x
}
