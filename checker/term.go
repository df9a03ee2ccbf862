package main

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"
)

// ---------------------------------------------------------------------------
// Terms. Every value the analysis talks about is a hash-consed term: two terms
// are equal iff they are the same pointer.

type Sort uint8

const (
	SInt Sort = iota
	SField
	SBool
	SArr // function of one integer (or opaque) index
	SRef // address or opaque value
)

type Kind uint8

const (
	KPoly Kind = iota
	KSym
	KBVar
	KApp
	KIdx
	KInd
	KI2F
	KP2
	KDiv
	KSum
	KProd
	KPowF
	KInv
	KTrue
	KFalse
	KEq0
	KGe0
	KAnd
	KOr
	KNot
	KForAll
	KLam
	KIter
	KIte
	KAddr
)

type Factor struct {
	A *Node
	E int
}

type Term struct {
	C *big.Rat
	M []Factor
}

// Sig describes what an array returns when indexed.
type Sig struct {
	Dims int
	Elem Sort
}

type Node struct {
	id    int
	kind  Kind
	sort  Sort
	name  string
	args  []*Node
	terms []Term
	sig   Sig    // arrays
	n     int    // KBVar level, KIter selected component, KSum/KIter number of binders
	bv    uint64 // free bound variables (levels)
	hb    int    // first level not used by a binder inside
	syms  bool   // contains a symbol
	info  *SymInfo
	size  int
}

// SymInfo gives the range known for a symbol: [lo, hi) when hi is not nil.
type SymInfo struct {
	lo, hi *Node // lo inclusive, hi exclusive
	nat    bool
	loop   bool
}

var (
	table  = map[string]*Node{}
	nodes  []*Node
	symCnt int
	// Field modulus of bn256
	modulus, _ = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)
	halfMod    = new(big.Int).Rsh(modulus, 1)
)

type undecided struct{ msg string }

func fail(format string, a ...interface{}) {
	panic(undecided{fmt.Sprintf(format, a...)})
}

var keyBuf []byte
var deadline time.Time

func appendRat(b []byte, r *big.Rat) []byte {
	if r.IsInt() && r.Num().IsInt64() {
		b = append(b, 'i')
		return binary.AppendVarint(b, r.Num().Int64())
	}
	b = append(b, 'r')
	b = append(b, r.RatString()...)
	return append(b, 0)
}

func ratKey(r *big.Rat) string { return r.RatString() }

func intern(n *Node) *Node {
	b := keyBuf[:0]
	b = append(b, byte(n.kind), byte(n.sort), byte(n.n), byte(n.n>>8), byte(n.sig.Dims), byte(n.sig.Elem))
	b = append(b, n.name...)
	b = append(b, 0)
	for _, a := range n.args {
		b = append(b, ';')
		if a != nil {
			b = binary.AppendUvarint(b, uint64(a.id)+1)
		} else {
			b = append(b, 0)
		}
	}
	for _, t := range n.terms {
		b = append(b, '|')
		b = appendRat(b, t.C)
		for _, f := range t.M {
			b = append(b, '*')
			b = binary.AppendUvarint(b, uint64(f.A.id))
			b = binary.AppendVarint(b, int64(f.E))
		}
	}
	keyBuf = b
	if m, ok := table[string(b)]; ok {
		return m
	}
	k := string(b)
	n.id = len(nodes)
	n.size = 1
	add := func(a *Node) {
		if a == nil {
			return
		}
		n.bv |= a.bv
		if a.hb > n.hb {
			n.hb = a.hb
		}
		if a.syms {
			n.syms = true
		}
		n.size += a.size
		if n.size > 1<<30 {
			n.size = 1 << 30
		}
	}
	for _, a := range n.args {
		add(a)
	}
	for _, t := range n.terms {
		for _, f := range t.M {
			add(f.A)
		}
	}
	switch n.kind {
	case KBVar:
		n.bv = 1 << uint(n.n)
	case KSym:
		n.syms = true
	}
	nodes = append(nodes, n)
	table[k] = n
	if len(nodes)%4096 == 0 && (len(nodes) > 12000000 || (!deadline.IsZero() && time.Now().After(deadline))) {
		fail("analysis budget exceeded")
	}
	return n
}

var NTrue, NFalse *Node

func init() {
	NTrue = intern(&Node{kind: KTrue, sort: SBool})
	NFalse = intern(&Node{kind: KFalse, sort: SBool})
	// Bound variables get the first identifiers, in order
	for l := 0; l < 60; l++ {
		for _, s := range []Sort{SInt, SField, SBool, SRef} {
			bvar(l, s, Sig{})
		}
	}
}

func bvar(l int, s Sort, sig Sig) *Node {
	if l >= 60 {
		fail("too many nested binders")
	}
	return intern(&Node{kind: KBVar, sort: s, n: l, sig: sig})
}

func newSym(name string, s Sort, info *SymInfo) *Node {
	symCnt++
	n := intern(&Node{kind: KSym, sort: s, name: fmt.Sprintf("%s'%d", name, symCnt), info: info})
	return n
}

// namedSym returns a global symbol: the same name always denotes the same symbol
func namedSym(name string, s Sort, info *SymInfo) *Node {
	n := intern(&Node{kind: KSym, sort: s, name: name, info: info})
	if n.info == nil {
		n.info = info
	}
	return n
}

func arrSym(name string, sig Sig) *Node {
	return intern(&Node{kind: KSym, sort: SArr, name: name, sig: sig})
}

func newArrSym(name string, sig Sig) *Node {
	symCnt++
	return arrSym(fmt.Sprintf("%s'%d", name, symCnt), sig)
}

func loopSym(name string, hi *Node) *Node {
	return newSym(name, SInt, &SymInfo{lo: IntC(0), hi: hi, nat: true, loop: true})
}

// ---------------------------------------------------------------------------
// Polynomials

func normCoef(s Sort, c *big.Rat) *big.Rat {
	if s != SField {
		return c
	}
	num := new(big.Int).Set(c.Num())
	if c.Denom().Cmp(big.NewInt(1)) != 0 {
		inv := new(big.Int).ModInverse(c.Denom(), modulus)
		num.Mul(num, inv)
	}
	num.Mod(num, modulus)
	if num.Cmp(halfMod) > 0 {
		num.Sub(num, modulus)
	}
	return new(big.Rat).SetInt(num)
}

func factorsKey(m []Factor) string {
	b := facBuf[:0]
	for _, f := range m {
		b = binary.AppendUvarint(b, uint64(f.A.id))
		b = binary.AppendVarint(b, int64(f.E))
	}
	facBuf = b
	return string(b)
}

var facBuf []byte

type polyAcc struct {
	sort Sort
	m    map[string]*Term
}

func newAcc(s Sort) *polyAcc { return &polyAcc{s, map[string]*Term{}} }

func (p *polyAcc) add(c *big.Rat, m []Factor) {
	k := factorsKey(m)
	if t, ok := p.m[k]; ok {
		t.C = new(big.Rat).Add(t.C, c)
		return
	}
	p.m[k] = &Term{C: new(big.Rat).Set(c), M: m}
}

func (p *polyAcc) addNode(c *big.Rat, n *Node) {
	for _, t := range termsOf(n) {
		p.add(new(big.Rat).Mul(c, t.C), t.M)
	}
}

func (p *polyAcc) node() *Node {
	ts := make([]Term, 0, len(p.m))
	for _, t := range p.m {
		c := normCoef(p.sort, t.C)
		if c.Sign() == 0 {
			continue
		}
		ts = append(ts, Term{C: c, M: t.M})
	}
	sort.Slice(ts, func(i, j int) bool { return monoLess(ts[i].M, ts[j].M) })
	if len(ts) > 1 {
		if r := absorb(p.sort, ts); r != nil {
			return r
		}
	}
	if len(ts) == 1 && len(ts[0].M) == 1 && ts[0].M[0].E == 1 && ts[0].C.Cmp(ratOne) == 0 {
		return ts[0].M[0].A
	}
	return intern(&Node{kind: KPoly, sort: p.sort, terms: ts})
}

var ratOne = big.NewRat(1, 1)
var ratZero = new(big.Rat)
var ratNeg = big.NewRat(-1, 1)

func monoLess(a, b []Factor) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].A.id != b[i].A.id {
			return a[i].A.id < b[i].A.id
		}
		if a[i].E != b[i].E {
			return a[i].E < b[i].E
		}
	}
	return len(a) < len(b)
}

func termsOf(n *Node) []Term {
	if n.kind == KPoly {
		return n.terms
	}
	if n.sort != SInt && n.sort != SField {
		fail("not a number: %s", show(n))
	}
	return []Term{{C: ratOne, M: []Factor{{n, 1}}}}
}

func Const(s Sort, c *big.Rat) *Node {
	a := newAcc(s)
	a.add(c, nil)
	return a.node()
}

var intCs, fldCs = map[int64]*Node{}, map[int64]*Node{}

func IntC(i int64) *Node {
	if n, ok := intCs[i]; ok {
		return n
	}
	n := Const(SInt, big.NewRat(i, 1))
	intCs[i] = n
	return n
}

func FldC(i int64) *Node {
	if n, ok := fldCs[i]; ok {
		return n
	}
	n := Const(SField, big.NewRat(i, 1))
	fldCs[i] = n
	return n
}

func constOf(n *Node) (*big.Rat, bool) {
	if n.kind != KPoly {
		return nil, false
	}
	if len(n.terms) == 0 {
		return new(big.Rat), true
	}
	if len(n.terms) == 1 && len(n.terms[0].M) == 0 {
		return n.terms[0].C, true
	}
	return nil, false
}

func isZero(n *Node) bool { c, ok := constOf(n); return ok && c.Sign() == 0 }
func isOne(n *Node) bool  { c, ok := constOf(n); return ok && c.Cmp(ratOne) == 0 }

func checkSame(a, b *Node) {
	if a.sort != b.sort || (a.sort != SInt && a.sort != SField) {
		fail("arithmetic on different sorts: %s and %s", show(a), show(b))
	}
}

func Add(a, b *Node) *Node {
	checkSame(a, b)
	if isZero(a) {
		return b
	}
	if isZero(b) {
		return a
	}
	p := newAcc(a.sort)
	p.addNode(ratOne, a)
	p.addNode(ratOne, b)
	return p.node()
}

func AddAll(s Sort, l ...*Node) *Node {
	p := newAcc(s)
	for _, a := range l {
		p.addNode(ratOne, a)
	}
	return p.node()
}

func Sub(a, b *Node) *Node {
	checkSame(a, b)
	p := newAcc(a.sort)
	p.addNode(ratOne, a)
	p.addNode(ratNeg, b)
	return p.node()
}

func Scale(c *big.Rat, a *Node) *Node {
	p := newAcc(a.sort)
	p.addNode(c, a)
	return p.node()
}

func Neg(a *Node) *Node { return Scale(ratNeg, a) }

func Mul(a, b *Node) *Node {
	checkSame(a, b)
	if c, ok := constOf(a); ok {
		return Scale(c, b)
	}
	if c, ok := constOf(b); ok {
		return Scale(c, a)
	}
	ta, tb := termsOf(a), termsOf(b)
	if len(ta)*len(tb) > 60000 {
		fail("polynomial too large")
	}
	p := newAcc(a.sort)
	for _, x := range ta {
		for _, y := range tb {
			c := new(big.Rat).Mul(x.C, y.C)
			mulMono(p, c, x.M, y.M)
		}
	}
	return p.node()
}

func MulAll(s Sort, l ...*Node) *Node {
	r := Const(s, ratOne)
	for _, x := range l {
		r = Mul(r, x)
	}
	return r
}

func Pow(a *Node, e int) *Node {
	r := Const(a.sort, ratOne)
	for i := 0; i < e; i++ {
		r = Mul(r, a)
	}
	return r
}

// mulMono adds c * x * y to p
func mulMono(p *polyAcc, c *big.Rat, x, y []Factor) {
	m := mergeFactors(x, y)
	hasInd := 0
	for i := range m {
		if m[i].A.kind == KInd {
			hasInd++
		}
	}
	if hasInd == 0 {
		m = mergePowF(m)
		p.add(c, m)
		return
	}
	n := normInd(p.sort, m)
	p.addNode(c, n)
}

func mergeFactors(x, y []Factor) []Factor {
	m := make([]Factor, 0, len(x)+len(y))
	i, j := 0, 0
	for i < len(x) || j < len(y) {
		switch {
		case j >= len(y) || (i < len(x) && x[i].A.id < y[j].A.id):
			m = append(m, x[i])
			i++
		case i >= len(x) || y[j].A.id < x[i].A.id:
			m = append(m, y[j])
			j++
		default:
			e := x[i].E + y[j].E
			if e != 0 {
				if x[i].A.kind == KInd {
					e = 1
				}
				m = append(m, Factor{x[i].A, e})
			}
			i++
			j++
		}
	}
	// Inv(a)*a = 1 is only true when a is not zero, it is not simplified
	return m
}

// mergePowF merges PowF(x,a)*PowF(x,b) and PowF(x,a)*x
func mergePowF(m []Factor) []Factor {
	has := false
	for _, f := range m {
		if f.A.kind == KPowF {
			has = true
		}
	}
	if !has {
		return m
	}
	base := map[int]*Node{}
	exp := map[int]*Node{}
	var order []int
	var rest []Factor
	for _, f := range m {
		if f.A.kind == KPowF {
			b := f.A.args[0]
			e := Mul(IntC(int64(f.E)), f.A.args[1])
			if exp[b.id] == nil {
				base[b.id], exp[b.id] = b, e
				order = append(order, b.id)
			} else {
				exp[b.id] = Add(exp[b.id], e)
			}
		}
	}
	for _, f := range m {
		if f.A.kind == KPowF {
			continue
		}
		if e, ok := exp[f.A.id]; ok {
			exp[f.A.id] = Add(e, IntC(int64(f.E)))
			continue
		}
		rest = append(rest, f)
	}
	sort.Ints(order)
	for _, id := range order {
		n := mkPowF(base[id], exp[id])
		if isOne(n) {
			continue
		}
		ts := termsOf(n)
		if len(ts) != 1 {
			// base^const with a compound base: give up merging
			rest = append(rest, Factor{intern(&Node{kind: KPowF, sort: SField, args: []*Node{base[id], exp[id]}}), 1})
			continue
		}
		rest = append(rest, ts[0].M...)
	}
	sort.Slice(rest, func(i, j int) bool { return rest[i].A.id < rest[j].A.id })
	return rest
}

func mkPowF(b, e *Node) *Node {
	if c, ok := constOf(e); ok && c.IsInt() && c.Sign() >= 0 && c.Num().Int64() < 64 {
		return Pow(b, int(c.Num().Int64()))
	}
	if isZero(b) {
		return Ind(mkEq0(e), b.sort)
	}
	if isOne(b) {
		return b
	}
	return intern(&Node{kind: KPowF, sort: SField, args: []*Node{b, e}})
}

// monoNode builds the term of a monomial
func monoNode(s Sort, m []Factor) *Node {
	p := newAcc(s)
	p.add(ratOne, m)
	return p.node()
}

func factorNode(s Sort, f Factor) *Node { return monoNode(s, []Factor{f}) }

// normInd normalises a product containing indicators
func normInd(s Sort, m []Factor) *Node {
	var inds []*Node // conditions
	var rest []Factor
	for _, f := range m {
		if f.A.kind == KInd {
			inds = append(inds, f.A.args[0])
		} else {
			rest = append(rest, f)
		}
	}
	// Equalities: substitute the solved atom in everything else
	for i, c := range inds {
		if c.kind != KEq0 {
			continue
		}
		a, val := solveEq(c.args[0])
		if a == nil {
			continue
		}
		touched := false
		for j, d := range inds {
			if j != i && contains(d, a) {
				touched = true
			}
		}
		for _, f := range rest {
			if contains(f.A, a) {
				touched = true
			}
		}
		if !touched {
			continue
		}
		sub := map[*Node]*Node{a: val}
		r := Ind(c, s)
		ind := termsOf(r)
		acc := Const(s, ratOne)
		for j, d := range inds {
			if j != i {
				acc = Mul(acc, Ind(Subst(d, sub), s))
			}
		}
		for _, f := range rest {
			acc = Mul(acc, Subst(factorNode(s, f), sub))
		}
		_ = ind
		return Mul(r, acc)
	}
	// Implications between inequalities
	for i, c := range inds {
		if renaming > 0 {
			break
		}
		for j, d := range inds {
			if i == j {
				continue
			}
			if c.kind == KGe0 && d.kind == KGe0 {
				if nonneg(Sub(d.args[0], c.args[0])) {
					// c implies d
					return normIndWithout(s, inds, rest, j)
				}
				if i < j && nonneg(Sub(IntC(-1), Add(c.args[0], d.args[0]))) {
					return Const(s, new(big.Rat))
				}
				if i < j && isZero(Add(c.args[0], d.args[0])) {
					l := withoutIdx(withoutIdx(inds, j), i)
					return mulInds(s, append(l, mkEq0(c.args[0])), rest)
				}
			}
			if c.kind == KEq0 && d.kind == KGe0 && c.args[0].sort == SInt {
				if nonneg(Sub(d.args[0], c.args[0])) || nonneg(Add(d.args[0], c.args[0])) {
					return normIndWithout(s, inds, rest, j)
				}
				if nonneg(Sub(IntC(-1), Add(c.args[0], d.args[0]))) || nonneg(Sub(IntC(-1), Sub(d.args[0], c.args[0]))) {
					return Const(s, new(big.Rat))
				}
			}
			if c.kind == KEq0 && d.kind == KEq0 && c.args[0].sort == SInt && d.args[0].sort == SInt && i < j {
				df := Sub(c.args[0], d.args[0])
				sm := Add(c.args[0], d.args[0])
				if strictNonzero(df) || strictNonzero(sm) {
					return Const(s, new(big.Rat))
				}
			}
		}
	}
	p := newAcc(s)
	p.add(ratOne, mergePowF(m))
	return p.node()
}

func strictNonzero(p *Node) bool {
	one := IntC(1)
	if nonneg(Sub(p, one)) || nonneg(Sub(Neg(p), one)) {
		return true
	}
	if notMultiple(p) {
		return true
	}
	// the same after dividing by powers of two, when the quotient is an integer
	for _, t := range termsOf(p) {
		if len(t.M) == 0 {
			return false
		}
	}
	if q := divP2(p); q != nil && q != p {
		return nonneg(Sub(q, one)) || nonneg(Sub(Neg(q), one))
	}
	return false
}

// notMultiple shows that p = A K + B with 0 < |B| < K, for one of the atoms K of p
func notMultiple(p *Node) bool {
	if notMultipleDepth > 0 {
		return false
	}
	notMultipleDepth++
	defer func() { notMultipleDepth-- }()
	ts := termsOf(p)
	if len(ts) > 8 {
		return false
	}
	tried := map[*Node]bool{}
	for _, t := range ts {
		for _, f := range t.M {
			k := f.A
			if tried[k] || f.E != 1 || len(t.M) < 2 {
				continue
			}
			tried[k] = true
			acc := newAcc(SInt)
			whole := true
			for _, u := range ts {
				has := false
				for _, g := range u.M {
					if g.A == k && g.E >= 1 {
						has = true
					} else if g.E < 0 {
						whole = false
					}
				}
				if !u.C.IsInt() {
					whole = false
				}
				if !has {
					acc.add(u.C, u.M)
				}
			}
			if !whole {
				continue
			}
			b := acc.node()
			if c, ok := constOf(b); ok && c.Sign() == 0 {
				continue
			}
			one := IntC(1)
			if nonneg(Sub(b, one)) && nonneg(Sub(Sub(k, b), one)) || nonneg(Sub(Neg(b), one)) && nonneg(Sub(Add(k, b), one)) {
				return true
			}
		}
	}
	return false
}

var notMultipleDepth int

func withoutIdx(l []*Node, i int) []*Node {
	r := append([]*Node{}, l[:i]...)
	return append(r, l[i+1:]...)
}

func normIndWithout(s Sort, inds []*Node, rest []Factor, j int) *Node {
	return mulInds(s, withoutIdx(inds, j), rest)
}

func mulInds(s Sort, inds []*Node, rest []Factor) *Node {
	r := Const(s, ratOne)
	for _, d := range inds {
		r = Mul(r, Ind(d, s))
	}
	return Mul(r, monoNode(s, rest))
}

// atomRank orders the atoms when one of them has to be chosen
func atomRank(a *Node) (int, int) {
	switch a.kind {
	case KBVar:
		return 3, a.n
	case KSym:
		if a.info != nil && a.info.loop {
			return 2, a.id
		}
		return 1, a.id
	}
	return 0, a.id
}

func rankLess(a, b *Node) bool {
	r1, i1 := atomRank(a)
	r2, i2 := atomRank(b)
	if r1 != r2 {
		return r1 < r2
	}
	return i1 < i2
}

// linearAtom returns the coefficient of atom a in p if p is linear in a, with a constant coefficient,
// and a does not occur elsewhere
func linearAtom(p *Node, a *Node) (*big.Rat, *Node, bool) {
	var c *big.Rat
	acc := newAcc(p.sort)
	for _, t := range termsOf(p) {
		if len(t.M) == 1 && t.M[0].A == a && t.M[0].E == 1 {
			c = t.C
			continue
		}
		for _, f := range t.M {
			if contains(f.A, a) {
				return nil, nil, false
			}
		}
		acc.add(t.C, t.M)
	}
	if c == nil {
		return nil, nil, false
	}
	return c, acc.node(), true
}

// solveFor returns the value of the atom a when p=0: a occurs linearly, with a coefficient that is a
// constant times powers of two; integral tells that the value certainly is an integer
func solveFor(p *Node, a *Node) (val *Node, integral, ok bool) {
	var c *big.Rat
	var cm []Factor
	acc := newAcc(p.sort)
	for _, t := range termsOf(p) {
		mine := false
		for _, f := range t.M {
			if f.A == a {
				mine = true
			}
		}
		if mine {
			if c != nil {
				return nil, false, false
			}
			c = t.C
			for _, f := range t.M {
				switch {
				case f.A == a && f.E == 1:
				case f.A.kind == KP2 && !contains(f.A, a) && p.sort == SInt:
					cm = append(cm, Factor{f.A, -f.E})
				default:
					return nil, false, false
				}
			}
			continue
		}
		for _, f := range t.M {
			if contains(f.A, a) {
				return nil, false, false
			}
		}
		acc.add(t.C, t.M)
	}
	if c == nil {
		return nil, false, false
	}
	inv := new(big.Rat).Neg(new(big.Rat).Inv(c))
	if p.sort == SField {
		inv = normCoef(SField, inv)
	}
	val = Scale(inv, acc.node())
	if len(cm) > 0 {
		val = Mul(val, monoNode(p.sort, cm))
	}
	integral = true
	if p.sort == SInt {
		for _, t := range termsOf(val) {
			if !integralMono(t.C, t.M) {
				integral = false
			}
		}
	}
	return val, integral, true
}

// solveEq picks the atom with the highest rank that p=0 determines
func solveEq(p *Node) (*Node, *Node) {
	var best, bestVal *Node
	for _, t := range termsOf(p) {
		for _, f := range t.M {
			a := f.A
			if f.E != 1 || a.kind == KInd || a.kind == KP2 || (best != nil && rankLess(a, best)) {
				continue
			}
			if v, integral, ok := solveFor(p, a); ok && integral {
				best, bestVal = a, v
			}
		}
	}
	return best, bestVal
}

// ---------------------------------------------------------------------------
// Booleans

func Ind(b *Node, s Sort) *Node {
	switch b.kind {
	case KTrue:
		return Const(s, ratOne)
	case KFalse:
		return Const(s, new(big.Rat))
	case KNot:
		return Sub(Const(s, ratOne), Ind(b.args[0], s))
	case KAnd:
		r := Const(s, ratOne)
		for _, a := range b.args {
			r = Mul(r, Ind(a, s))
		}
		return r
	case KOr:
		r := Const(s, ratOne)
		for _, a := range b.args {
			r = Mul(r, Sub(Const(s, ratOne), Ind(a, s)))
		}
		return Sub(Const(s, ratOne), r)
	}
	if v, ok := factTruth(b); ok {
		if v {
			return Const(s, ratOne)
		}
		return Const(s, new(big.Rat))
	}
	return intern(&Node{kind: KInd, sort: s, args: []*Node{b}})
}

func Not(b *Node) *Node {
	switch b.kind {
	case KTrue:
		return NFalse
	case KFalse:
		return NTrue
	case KNot:
		return b.args[0]
	case KAnd:
		l := make([]*Node, len(b.args))
		for i := range l {
			l[i] = Not(b.args[i])
		}
		return Or(l...)
	case KOr:
		l := make([]*Node, len(b.args))
		for i := range l {
			l[i] = Not(b.args[i])
		}
		return And(l...)
	}
	return intern(&Node{kind: KNot, sort: SBool, args: []*Node{b}})
}

func nary(k Kind, unit, zero *Node, l []*Node) *Node {
	set := map[int]*Node{}
	var walk func(x *Node) bool
	walk = func(x *Node) bool {
		if x == zero {
			return false
		}
		if x == unit {
			return true
		}
		if x.kind == k {
			for _, a := range x.args {
				if !walk(a) {
					return false
				}
			}
			return true
		}
		if v, ok := factTruth(x); ok {
			if v {
				return walk(NTrue)
			}
			return walk(NFalse)
		}
		set[x.id] = x
		return true
	}
	for _, x := range l {
		if !walk(x) {
			return zero
		}
	}
	for _, x := range set {
		if set[Not(x).id] != nil {
			return zero
		}
	}
	r := make([]*Node, 0, len(set))
	for _, x := range set {
		r = append(r, x)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	// absorption: in an And, an Or containing one of the conjuncts is true (and dually);
	// an Or member that is the negation of a conjunct is removed
	dual := KOr
	if k == KOr {
		dual = KAnd
	}
	for i, x := range r {
		if x.kind != dual {
			continue
		}
		var keep []*Node
		absorbed := false
		for _, y := range x.args {
			if set[y.id] != nil {
				absorbed = true
			}
			if set[Not(y).id] == nil {
				keep = append(keep, y)
			}
		}
		if absorbed {
			return nary(k, unit, zero, withoutIdx(r, i))
		}
		if len(keep) != len(x.args) {
			l := withoutIdx(r, i)
			if dual == KOr {
				l = append(l, Or(keep...))
			} else {
				l = append(l, And(keep...))
			}
			return nary(k, unit, zero, l)
		}
	}
	switch len(r) {
	case 0:
		return unit
	case 1:
		return r[0]
	}
	return intern(&Node{kind: k, sort: SBool, args: r})
}

func And(l ...*Node) *Node { return nary(KAnd, NTrue, NFalse, l) }
func Or(l ...*Node) *Node  { return nary(KOr, NFalse, NTrue, l) }

func primitive(p *Node) *Node {
	// scales an int polynomial so that its coefficients are coprime integers
	if p.sort == SField {
		return p
	}
	den := big.NewInt(1)
	for _, t := range termsOf(p) {
		g := new(big.Int).GCD(nil, nil, den, t.C.Denom())
		den.Mul(den, new(big.Int).Div(t.C.Denom(), g))
	}
	p = Scale(new(big.Rat).SetInt(den), p)
	return p
}

func contentGcd(p *Node, withConst bool) *big.Int {
	g := big.NewInt(0)
	for _, t := range termsOf(p) {
		if len(t.M) == 0 && !withConst {
			continue
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(t.C.Num()))
	}
	return g
}

func leading(p *Node) (Term, bool) {
	var best *Term
	var bestA *Node
	for i := range termsOf(p) {
		t := termsOf(p)[i]
		if len(t.M) == 0 {
			continue
		}
		a := t.M[0].A
		for _, f := range t.M {
			if rankLess(a, f.A) {
				a = f.A
			}
		}
		if best == nil || rankLess(bestA, a) || (bestA == a && monoLess(best.M, t.M)) {
			tt := t
			best, bestA = &tt, a
		}
	}
	if best == nil {
		return Term{}, false
	}
	return *best, true
}

func clearP2(p *Node) *Node {
	// multiplies by powers of two so that no 2^x has a negative exponent in every term
	if p.sort != SInt {
		return p
	}
	min := map[*Node]int{}
	var order []*Node
	ts := termsOf(p)
	for _, t := range ts {
		for _, f := range t.M {
			if f.A.kind == KP2 {
				if _, ok := min[f.A]; !ok {
					order = append(order, f.A)
				}
				min[f.A] = 1 << 30
			}
		}
	}
	if len(order) == 0 {
		return p
	}
	for _, a := range order {
		for _, t := range ts {
			e := 0
			for _, f := range t.M {
				if f.A == a {
					e = f.E
				}
			}
			if e < min[a] {
				min[a] = e
			}
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	var m []Factor
	for _, a := range order {
		if min[a] != 0 {
			m = append(m, Factor{a, -min[a]})
		}
	}
	if len(m) == 0 {
		return p
	}
	acc := newAcc(SInt)
	for _, t := range ts {
		acc.add(t.C, mergeFactors(t.M, m))
	}
	return acc.node()
}

// oneInd decides a condition on a + b·{cond}
func oneInd(p *Node, f func(*big.Rat) bool) *Node {
	ts := termsOf(p)
	if len(ts) > 2 {
		return nil
	}
	var b *Node
	lo, hi := new(big.Rat), new(big.Rat)
	for _, t := range ts {
		switch {
		case len(t.M) == 0:
			lo.Add(lo, t.C)
			hi.Add(hi, t.C)
		case len(t.M) == 1 && t.M[0].A.kind == KInd && t.M[0].E == 1 && b == nil:
			b = t.M[0].A.args[0]
			hi.Add(hi, t.C)
		default:
			return nil
		}
	}
	if b == nil {
		return nil
	}
	x, y := f(hi), f(lo)
	switch {
	case x && y:
		return NTrue
	case x:
		return b
	case y:
		return Not(b)
	}
	return NFalse
}

const permName, unpermName = "perm:", "unperm:"

// singleAtom tells that n is an application
func singleAtom(n *Node) (*Node, bool) {
	if n.kind == KApp {
		return n, strings.HasPrefix(n.name, permName) || strings.HasPrefix(n.name, unpermName)
	}
	if n.kind == KPoly && len(n.terms) == 1 && len(n.terms[0].M) == 1 && n.terms[0].M[0].E == 1 && n.terms[0].C.Cmp(ratOne) == 0 {
		return singleAtom(n.terms[0].M[0].A)
	}
	return nil, false
}

// permTerm finds perm(x) with coefficient 1 or -1 in p
func permTerm(p *Node, prefixes ...string) (atom *Node, c *big.Rat) {
	for _, t := range termsOf(p) {
		if len(t.M) == 1 && t.M[0].E == 1 && t.M[0].A.kind == KApp && (t.C.Cmp(ratOne) == 0 || t.C.Cmp(ratNeg) == 0) {
			for _, x := range prefixes {
				if strings.HasPrefix(t.M[0].A.name, x) {
					return t.M[0].A, t.C
				}
			}
		}
	}
	return nil, nil
}

func mkEq0(p *Node) *Node {
	if p.sort == SInt {
		if a, c := permTerm(p, unpermName); a != nil {
			// unperm(x) = constant
			if r, ok := constOf(Sub(p, Scale(c, a))); ok {
				r = new(big.Rat).Neg(new(big.Rat).Mul(r, c))
				return mkEq0(Sub(a.args[0], App(strings.TrimPrefix(a.name, "un"), SInt, Const(SInt, r), a.args[1])))
			}
		}
		if a, c := permTerm(p, permName); a != nil {
			// perm(x) = rest
			rest := Sub(a, p)
			if c.Sign() < 0 {
				rest = Add(a, p)
			}
			if _, fixed := constOf(a.args[0]); !fixed && !contains(rest, a) {
				return mkEq0(Sub(a.args[0], App("un"+a.name, SInt, rest, a.args[1])))
			}
		}
	}
	if c, ok := constOf(p); ok {
		if c.Sign() == 0 {
			return NTrue
		}
		return NFalse
	}
	if r := oneInd(p, func(c *big.Rat) bool { return c.Sign() == 0 }); r != nil {
		return r
	}
	if p.sort == SInt {
		p = primitive(clearP2(p))
		if renaming == 0 && !hasBV(p) && strictNonzero(p) {
			return NFalse
		}
		if renaming == 0 && !hasBV(p) && len(facts.list) > 0 && nonneg(p) && nonneg(Neg(p)) {
			return NTrue
		}
		g := contentGcd(p, false)
		if g.Sign() > 0 && g.Cmp(big.NewInt(1)) != 0 {
			for _, t := range termsOf(p) {
				if len(t.M) == 0 && new(big.Int).Mod(t.C.Num(), g).Sign() != 0 && allIntegral(p) {
					return NFalse
				}
			}
			gg := contentGcd(p, true)
			p = Scale(new(big.Rat).SetFrac(big.NewInt(1), gg), p)
		}
		if lt, ok := leading(p); ok && lt.C.Sign() < 0 {
			p = Neg(p)
		}
		// 2^a = 2^b
		if ts := termsOf(p); len(ts) == 2 && ts[0].C.Sign() != ts[1].C.Sign() && (len(ts[0].M) > 0 || len(ts[1].M) > 0) {
			a, ok1 := exponentOf2(ts[0])
			b, ok2 := exponentOf2(ts[1])
			if ok1 && ok2 {
				return mkEq0(Sub(a, b))
			}
		}
	} else {
		lt, _ := leading(p)
		p = Scale(normCoef(SField, new(big.Rat).Inv(lt.C)), p)
	}
	n := intern(&Node{kind: KEq0, sort: SBool, args: []*Node{p}})
	if v, ok := factTruth(n); ok {
		if v {
			return NTrue
		}
		return NFalse
	}
	return n
}

// exponentOf2 is e when the term is 2^e or -2^e
func exponentOf2(t Term) (*Node, bool) {
	e := IntC(0)
	for _, f := range t.M {
		if f.A.kind != KP2 {
			return nil, false
		}
		e = Add(e, Scale(big.NewRat(int64(f.E), 1), f.A.args[0]))
	}
	for i, x := range []*big.Int{t.C.Num(), t.C.Denom()} {
		y := new(big.Int).Abs(x)
		if y.Sign() == 0 || uint(y.BitLen()-1) != y.TrailingZeroBits() {
			return nil, false
		}
		e = Add(e, IntC(int64(1-2*i)*int64(y.BitLen()-1)))
	}
	return e, true
}

func allIntegral(p *Node) bool {
	for _, t := range termsOf(p) {
		if !t.C.IsInt() {
			return false
		}
		for _, f := range t.M {
			if f.E < 0 {
				return false
			}
		}
	}
	return true
}

func mkGe0raw(p *Node) *Node {
	if c, ok := constOf(p); ok {
		if c.Sign() >= 0 {
			return NTrue
		}
		return NFalse
	}
	if hasBV(p) {
		// closing a binder: p was normalised with what was known about its variables
		return intern(&Node{kind: KGe0, sort: SBool, args: []*Node{p}})
	}
	p = primitive(clearP2(p))
	if q := divP2(p); q != nil {
		p = q
	}
	g := contentGcd(p, false)
	if g.Sign() > 0 && g.Cmp(big.NewInt(1)) != 0 && allIntegral(p) {
		// floor the constant
		acc := newAcc(SInt)
		for _, t := range termsOf(p) {
			q := new(big.Rat).Quo(t.C, new(big.Rat).SetInt(g))
			if len(t.M) == 0 {
				q = new(big.Rat).SetInt(new(big.Int).Div(t.C.Num(), g)) // Euclidean = floor for g>0
			}
			acc.add(q, t.M)
		}
		p = acc.node()
	}
	return intern(&Node{kind: KGe0, sort: SBool, args: []*Node{p}})
}

// divP2 divides p by the power of two that multiplies its leading atom, when the quotients of the other
// terms certainly are integers; the constant is rounded down
func divP2(p *Node) *Node {
	lt, ok := leading(p)
	if !ok {
		return nil
	}
	has := false
	e := IntC(0)
	var cm []Factor
	rest := 0
	for _, f := range lt.M {
		if f.A.kind == KP2 {
			has = true
			e = Add(e, Scale(big.NewRat(int64(f.E), 1), f.A.args[0]))
			cm = append(cm, Factor{f.A, -f.E})
		} else {
			rest++
		}
	}
	if !has || rest == 0 || !lt.C.IsInt() {
		return nil
	}
	// c 2^e, c the power of two dividing the coefficient
	c := new(big.Int).SetInt64(1)
	c.Lsh(c, new(big.Int).Abs(lt.C.Num()).TrailingZeroBits())
	inv := new(big.Rat).SetFrac(big.NewInt(1), c)
	acc := newAcc(SInt)
	for _, t := range termsOf(p) {
		if len(t.M) == 0 {
			x, y := new(big.Rat).Neg(new(big.Rat).SetInt(c)), new(big.Rat).SetInt(c)
			// x <= constant < y
			if !nonneg(e) || t.C.Cmp(x) < 0 || t.C.Cmp(y) >= 0 {
				return nil
			}
			if t.C.Sign() < 0 {
				acc.add(ratNeg, nil)
			}
			continue
		}
		m := mergeFactors(t.M, cm)
		k := new(big.Rat).Mul(t.C, inv)
		if !integralMono(k, m) {
			return nil
		}
		acc.add(k, m)
	}
	return acc.node()
}

func hasBV(n *Node) bool { return n.bv != 0 }

// mkGe0 returns p >= 0. The canonical atom has a negative leading coefficient; x>=1 for
// a natural x is written not(x=0)
func mkGe0(p *Node) *Node {
	if p.sort != SInt {
		fail("order on non integers")
	}
	if c, ok := constOf(p); ok {
		if c.Sign() >= 0 {
			return NTrue
		}
		return NFalse
	}
	if r := oneInd(p, func(c *big.Rat) bool { return c.Sign() >= 0 }); r != nil {
		return r
	}
	if a, c := permTerm(p, permName, unpermName); a != nil {
		if rest := Sub(p, a); c.Sign() > 0 && isZero(rest) {
			return mkGe0(a.args[0])
		}
		if rest := Add(p, a); c.Sign() < 0 && isZero(Sub(Add(rest, IntC(1)), a.args[1])) {
			return mkGe0(Sub(Sub(a.args[1], IntC(1)), a.args[0]))
		}
	}
	if hasBV(p) {
		return mkGe0raw(p)
	}
	if nonneg(p) {
		return NTrue
	}
	np := Sub(IntC(-1), p) // p<0  <=>  -p-1 >= 0
	if nonneg(np) {
		return NFalse
	}
	// p >= 0 with p+1>=0 known: p != -1
	if nonneg(Add(p, IntC(1))) {
		return Not(mkEq0(Add(p, IntC(1))))
	}
	// -p >= 0 known, then p >= 0 iff p = 0
	if nonneg(Neg(p)) {
		return mkEq0(p)
	}
	if r := sameInBoth(p); r != nil {
		return r
	}
	n := mkGe0raw(p)
	if n.kind != KGe0 {
		return n
	}
	neg := false
	// Of p>=0 and -p-1>=0 the canonical atom is the one with a negative constant
	if constTerm(n.args[0]).Sign() >= 0 {
		n = mkGe0raw(Sub(IntC(-1), n.args[0]))
		neg = true
	}
	if v, ok := factTruth(n); ok {
		n = NFalse
		if v {
			n = NTrue
		}
	}
	if neg {
		if n.kind == KTrue || n.kind == KFalse {
			return Not(n)
		}
		return intern(&Node{kind: KNot, sort: SBool, args: []*Node{n}})
	}
	return n
}

// sameInBoth simplifies p >= 0 for a p that depends on one condition, when one of its two forms will do
// for both cases
func sameInBoth(p *Node) *Node {
	var c *Node
	for _, t := range termsOf(p) {
		for _, f := range t.M {
			if f.A.kind == KInd {
				if c != nil && c != f.A {
					return nil
				}
				c = f.A
			}
		}
	}
	if c == nil {
		return nil
	}
	q, a, ok := coefPoly(p, c)
	if !ok {
		return nil
	}
	b := Add(a, q)
	cond := c.args[0]
	for _, x := range []struct{ when, y, z *Node }{{cond, a, b}, {Not(cond), b, a}} {
		same := false
		withFacts([]*Node{x.when}, func() { same = mkGe0(x.y) == mkGe0(x.z) })
		if same {
			return mkGe0(x.y)
		}
	}
	return nil
}

func constTerm(p *Node) *big.Rat {
	for _, t := range termsOf(p) {
		if len(t.M) == 0 {
			return t.C
		}
	}
	return new(big.Rat)
}

func Le(a, b *Node) *Node { return mkGe0(Sub(b, a)) }
func Lt(a, b *Node) *Node { return mkGe0(Sub(Sub(b, a), IntC(1))) }

func mkEq(a, b *Node) *Node {
	if a == b {
		return NTrue
	}
	// (the position of an array may stand for the key of a map)
	if (a.sort == SInt || a.sort == SField) && a.sort == b.sort {
		return mkEq0(Sub(a, b))
	}
	if a.sort == SBool {
		return Or(And(a, b), And(Not(a), Not(b)))
	}
	if isText(a) && isText(b) {
		if n := textEq(a, b); n != nil {
			return n
		}
	}
	x, y := a, b
	if y.id < x.id {
		x, y = y, x
	}
	n := intern(&Node{kind: KApp, sort: SBool, name: "==", args: []*Node{x, y}})
	if v, ok := factTruth(n); ok {
		if v {
			return NTrue
		}
		return NFalse
	}
	return n
}

// Ite selects between two terms of the same sort
func Ite(c, a, b *Node) *Node {
	if c == NTrue || a == b {
		return a
	}
	if c == NFalse {
		return b
	}
	switch a.sort {
	case SInt, SField:
		if a.sort == SInt {
			if r := positivePart(c, a, b); r != nil {
				return r
			}
		}
		i := Ind(c, a.sort)
		return Add(b, Mul(i, Sub(a, b)))
	case SBool:
		return Or(And(c, a), And(Not(c), b))
	case SArr:
		x := openIdx()
		return mkLam(x, Ite(c, Apply(a, x), Apply(b, x)))
	}
	if c.kind == KNot {
		return Ite(c.args[0], b, a)
	}
	if b.kind == KIte && b.args[0] == c {
		b = b.args[2]
	}
	if a.kind == KIte && a.args[0] == c {
		a = a.args[1]
	}
	if a == b {
		return a
	}
	// an undefined value is never read
	if a.kind == KApp && a.name == "undef" {
		return b
	}
	if b.kind == KApp && b.name == "undef" {
		return a
	}
	return intern(&Node{kind: KIte, sort: a.sort, args: []*Node{c, a, b}, sig: a.sig})
}

// ---------------------------------------------------------------------------
// Other constructors

// hasAll: the alternatives of y are among those of x
func hasAll(x, y *Node) bool {
	l := []*Node{y}
	if y.kind == KOr {
		l = y.args
	}
	for _, a := range l {
		if indexOf(x.args, a) < 0 {
			return false
		}
	}
	return true
}

// positivePart: a choice between two integers made by comparing them is b + {q>0}·q, and of q and -q
// always the same is taken
func positivePart(c, a, b *Node) *Node {
	if c.kind == KNot {
		c, a, b = c.args[0], b, a
	}
	if c.kind != KGe0 || c.args[0].sort != SInt {
		return nil
	}
	p, d := c.args[0], Sub(a, b)
	for _, q := range []*Node{p, Add(p, IntC(1))} {
		for _, s := range []*Node{q, Neg(q)} {
			if d != s {
				continue
			}
			if t, ok := leading(q); ok && t.C.Sign() < 0 {
				q, b, d = Neg(q), a, Neg(d)
			}
			return Add(b, Mul(Ind(Lt(IntC(0), q), SInt), d))
		}
	}
	return nil
}

func App(name string, s Sort, args ...*Node) *Node {
	if strings.HasPrefix(name, permName) || strings.HasPrefix(name, unpermName) {
		// an arbitrary permutation of the integers that permutes 0..args[1]-1
		if x, ok := singleAtom(args[0]); ok && x.kind == KApp && x.args[1] == args[1] && (x.name == "un"+name || "un"+x.name == name) {
			return x.args[0]
		}
	}
	return intern(&Node{kind: KApp, sort: s, name: name, args: args})
}

func AppArr(name string, sig Sig, args ...*Node) *Node {
	return intern(&Node{kind: KApp, sort: SArr, name: name, args: args, sig: sig})
}

func resSort(sig Sig) (Sort, Sig) {
	if sig.Dims > 1 {
		return SArr, Sig{sig.Dims - 1, sig.Elem}
	}
	return sig.Elem, Sig{}
}

// Apply reads array a at index i
func Apply(a, i *Node) *Node {
	if a.sort != SArr {
		fail("indexing a non array %s", show(a))
	}
	switch a.kind {
	case KLam:
		return instantiate(a, i)
	case KIte:
		return Ite(a.args[0], Apply(a.args[1], i), Apply(a.args[2], i))
	}
	s, sg := resSort(a.sig)
	return intern(&Node{kind: KIdx, sort: s, args: []*Node{a, i}, sig: sg})
}

func ApplyAll(a *Node, idx ...*Node) *Node {
	for _, i := range idx {
		a = Apply(a, i)
	}
	return a
}

var openCnt int

func openIdx() *Node {
	return newSym("x", SInt, &SymInfo{lo: IntC(0), nat: true, loop: true})
}

func openLike(s Sort, sig Sig) *Node {
	switch s {
	case SInt:
		return openIdx()
	case SArr:
		return newArrSym("a", sig)
	}
	return newSym("o", s, nil)
}

// mkLam abstracts symbol x in body
func mkLam(x, body *Node) *Node {
	// eta
	if body.kind == KIdx && body.args[1] == x && !contains(body.args[0], x) {
		return body.args[0]
	}
	sig := Sig{1, body.sort}
	if body.sort == SArr {
		sig = Sig{body.sig.Dims + 1, body.sig.Elem}
	}
	l := body.hb
	b := Subst(body, map[*Node]*Node{x: bvar(l, x.sort, Sig{})})
	for b.hb > l { // normalisation raised the height
		l = b.hb
		b = Subst(body, map[*Node]*Node{x: bvar(l, x.sort, Sig{})})
	}
	return intern(&Node{kind: KLam, sort: SArr, n: l, args: []*Node{b, bvar(l, x.sort, Sig{})}, sig: sig}).withBinder(1<<uint(l), l+1)
}

// withBinder records that the node binds the given levels
func (n *Node) withBinder(mask uint64, hb int) *Node {
	n.bv &^= mask
	if hb > n.hb {
		n.hb = hb
	}
	return n
}

func instantiate(l, i *Node) *Node {
	bv := l.args[1]
	if l.args[0] == bv {
		return i
	}
	if l.args[0].bv&(1<<uint(l.n)) == 0 {
		return l.args[0]
	}
	return Subst(l.args[0], map[*Node]*Node{bv: i})
}

func constLam(body *Node) *Node {
	return mkLam(openIdx(), body)
}

func Addr(obj string, args ...*Node) *Node {
	return intern(&Node{kind: KAddr, sort: SRef, name: obj, args: args})
}

func mkInv(p *Node) *Node {
	if c, ok := constOf(p); ok {
		if c.Sign() == 0 {
			return p
		}
		return Const(SField, new(big.Rat).Inv(c))
	}
	// Inv is multiplicative: distribute on monomials
	ts := termsOf(p)
	if len(ts) == 1 && (len(ts[0].M) > 1 || ts[0].C.Cmp(ratOne) != 0) {
		r := Const(SField, new(big.Rat).Inv(ts[0].C))
		for _, f := range ts[0].M {
			r = Mul(r, Pow(mkInv(f.A), f.E))
		}
		return r
	}
	if p.kind == KInv {
		return p.args[0]
	}
	return intern(&Node{kind: KInv, sort: SField, args: []*Node{p}})
}

// I2F is the image of an integer in the field
func I2F(p *Node) *Node {
	acc := newAcc(SField)
	for _, t := range termsOf(p) {
		m := Const(SField, t.C)
		for _, f := range t.M {
			var a *Node
			switch f.A.kind {
			case KInd:
				a = Ind(f.A.args[0], SField)
			default:
				a = intern(&Node{kind: KI2F, sort: SField, args: []*Node{f.A}})
			}
			if f.E < 0 {
				a = mkInv(a)
				m = Mul(m, Pow(a, -f.E))
			} else {
				m = Mul(m, Pow(a, f.E))
			}
		}
		acc.addNode(ratOne, m)
	}
	return acc.node()
}

// P2 is 2^p
func P2(p *Node) *Node {
	acc := Const(SInt, ratOne)
	for _, t := range termsOf(p) {
		if !t.C.IsInt() {
			return intern(&Node{kind: KApp, sort: SInt, name: "pow2", args: []*Node{p}})
		}
		c := int(t.C.Num().Int64())
		if len(t.M) == 0 {
			r := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(absInt(c))))
			if c < 0 {
				r.Inv(r)
			}
			acc = Scale(r, acc)
			continue
		}
		if len(t.M) == 1 && t.M[0].A.kind == KInd {
			f := new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), uint(absInt(c))))
			if c < 0 {
				f.Inv(f)
			}
			f.Sub(f, ratOne)
			acc = Mul(acc, Add(Const(SInt, ratOne), Scale(f, t.M[0].A)))
			continue
		}
		a := intern(&Node{kind: KP2, sort: SInt, args: []*Node{monoNode(SInt, t.M)}})
		acc = Mul(acc, monoNode(SInt, []Factor{{a, c}}))
	}
	return acc
}

func absInt(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

// mkDiv is the floor division of a by b>0 (a is assumed not negative: Go truncates)
func mkDiv(a, b *Node) *Node {
	if isOne(b) {
		return a
	}
	tb := termsOf(b)
	if len(tb) == 1 {
		inv := new(big.Rat).Inv(tb[0].C)
		// split a into terms exactly divisible by b and a remainder in [0,b)
		quo, rem := newAcc(SInt), newAcc(SInt)
		var negM []Factor
		for _, f := range tb[0].M {
			negM = append(negM, Factor{f.A, -f.E})
		}
		for _, t := range termsOf(a) {
			m := mergeFactors(t.M, negM)
			c := new(big.Rat).Mul(t.C, inv)
			if integralMono(c, m) {
				quo.add(c, m)
			} else {
				rem.add(t.C, t.M)
			}
		}
		r := rem.node()
		if isZero(r) {
			return quo.node()
		}
		if nonneg(r) && nonneg(Sub(Sub(b, r), IntC(1))) {
			return quo.node()
		}
		if nonneg(Sub(IntC(-1), r)) && nonneg(Add(b, r)) {
			return Sub(quo.node(), IntC(1))
		}
		if q := quo.node(); !isZero(q) {
			return Add(q, mkDiv(r, b))
		}
	}
	if c, ok := constOf(a); ok && c.Sign() >= 0 {
		if d, ok := constOf(b); ok && d.Sign() > 0 && c.IsInt() && d.IsInt() {
			return Const(SInt, new(big.Rat).SetInt(new(big.Int).Div(c.Num(), d.Num())))
		}
	}
	return intern(&Node{kind: KDiv, sort: SInt, args: []*Node{a, b}})
}

// integralMono tells whether c*m is certainly an integer
func integralMono(c *big.Rat, m []Factor) bool {
	// collect the powers of two
	e := IntC(0)
	for _, f := range m {
		if f.A.kind == KP2 {
			e = Add(e, Scale(big.NewRat(int64(f.E), 1), f.A.args[0]))
		} else if f.E < 0 {
			return false
		}
	}
	if c.IsInt() {
		if isZero(e) {
			return true
		}
		num := new(big.Int).Abs(c.Num())
		tz := int64(0)
		if num.Sign() != 0 {
			tz = int64(num.TrailingZeroBits())
		}
		return nonneg(Add(e, IntC(tz)))
	}
	d := c.Denom()
	if new(big.Int).And(d, new(big.Int).Sub(d, big.NewInt(1))).Sign() != 0 {
		return false
	}
	return nonneg(Sub(e, IntC(int64(d.BitLen()-1))))
}

func mkMod(a, b *Node) *Node { return Sub(a, Mul(b, mkDiv(a, b))) }

// ---------------------------------------------------------------------------
// Traversal

var containsMemo = map[[2]int]bool{}

func contains(n, a *Node) bool {
	if n == a {
		return true
	}
	if n.id < a.id && a.kind != KBVar {
		return false
	}
	if a.kind == KBVar && n.bv&(1<<uint(a.n)) == 0 {
		return false
	}
	if a.kind == KSym && !n.syms {
		return false
	}
	k := [2]int{n.id, a.id}
	if v, ok := containsMemo[k]; ok {
		return v
	}
	r := false
	for _, x := range n.args {
		if x != nil && contains(x, a) {
			r = true
			break
		}
	}
	if !r {
	outer:
		for _, t := range n.terms {
			for _, f := range t.M {
				if contains(f.A, a) {
					r = true
					break outer
				}
			}
		}
	}
	containsMemo[k] = r
	return r
}

func containsAny(n *Node, l []*Node) bool {
	for _, a := range l {
		if contains(n, a) {
			return true
		}
	}
	return false
}

// walkNodes visits every node once
func walkNodes(n *Node, f func(*Node) bool) {
	seen := map[*Node]bool{}
	var w func(*Node)
	w = func(x *Node) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		for _, a := range x.args {
			w(a)
		}
		for _, t := range x.terms {
			for _, ff := range t.M {
				w(ff.A)
			}
		}
	}
	w(n)
}

// Subst replaces atoms and renormalises
func Subst(n *Node, m map[*Node]*Node) *Node {
	for _, v := range m {
		if v.kind != KBVar {
			return (&substituter{m: m, memo: map[*Node]*Node{}}).do(n)
		}
	}
	// closing a binder loses information: nothing can be simplified further
	renaming++
	defer func() { renaming-- }()
	return (&substituter{m: m, memo: map[*Node]*Node{}}).do(n)
}

// rename replaces bound variables by symbols
func rename(n *Node, m map[*Node]*Node) *Node {
	renaming++
	defer func() { renaming-- }()
	return (&substituter{m: m, memo: map[*Node]*Node{}}).do(n)
}

// renaming is positive while variables are only renamed
var renaming int

// Rebuild renormalises under the current facts
func Rebuild(n *Node) *Node {
	return (&substituter{m: nil, memo: map[*Node]*Node{}, all: true}).do(n)
}

type substituter struct {
	m    map[*Node]*Node
	memo map[*Node]*Node
	all  bool
	fn   func(*Node) *Node // rewriting applied to rebuilt nodes
}

func (s *substituter) touches(n *Node) bool {
	if s.all {
		return true
	}
	for a := range s.m {
		if contains(n, a) {
			return true
		}
	}
	return false
}

func (s *substituter) do(n *Node) *Node {
	if n == nil {
		return nil
	}
	if r, ok := s.m[n]; ok {
		return r
	}
	if r, ok := s.memo[n]; ok {
		return r
	}
	if !s.touches(n) {
		return n
	}
	if n.kind == KForAll && s.m == nil && s.fn == nil && renaming == 0 {
		if v, ok := factTruth(n); ok {
			if v {
				return NTrue
			}
			return NFalse
		}
	}
	r := s.rebuild(n)
	if s.fn != nil {
		r = s.fn(r)
	}
	s.memo[n] = r
	return r
}

func (s *substituter) list(l []*Node) []*Node {
	r := make([]*Node, len(l))
	for i := range l {
		r[i] = s.do(l[i])
	}
	return r
}

func (s *substituter) rebuild(n *Node) *Node {
	switch n.kind {
	case KSym, KBVar, KTrue, KFalse:
		return n
	case KPoly:
		acc := newAcc(n.sort)
		for _, t := range n.terms {
			m := Const(n.sort, ratOne)
			keep := []Factor{}
			for _, f := range t.M {
				if !s.touches(f.A) {
					keep = append(keep, f)
				}
			}
			m = monoNode(n.sort, keep)
			if len(keep) == 0 {
				m = Const(n.sort, ratOne)
			}
			for _, f := range t.M {
				if !s.touches(f.A) {
					continue
				}
				a := s.do(f.A)
				if f.E < 0 {
					m = Mul(m, negPow(a, f.E))
				} else {
					m = Mul(m, Pow(a, f.E))
				}
			}
			acc.addNode(t.C, m)
		}
		return acc.node()
	case KApp:
		return rebuildApp(n, s.list(n.args))
	case KIdx:
		return Apply(s.do(n.args[0]), s.do(n.args[1]))
	case KInd:
		return Ind(s.do(n.args[0]), n.sort)
	case KI2F:
		return I2F(s.do(n.args[0]))
	case KP2:
		return P2(s.do(n.args[0]))
	case KDiv:
		return mkDiv(s.do(n.args[0]), s.do(n.args[1]))
	case KPowF:
		return mkPowF(s.do(n.args[0]), s.do(n.args[1]))
	case KInv:
		return mkInv(s.do(n.args[0]))
	case KEq0:
		return mkEq0(s.do(n.args[0]))
	case KGe0:
		return mkGe0(s.do(n.args[0]))
	case KAnd:
		return And(s.list(n.args)...)
	case KOr:
		return Or(s.list(n.args)...)
	case KNot:
		return Not(s.do(n.args[0]))
	case KIte:
		return Ite(s.do(n.args[0]), s.do(n.args[1]), s.do(n.args[2]))
	case KAddr:
		return Addr(n.name, s.list(n.args)...)
	case KLam:
		x := openLike(n.args[1].sort, n.args[1].sig)
		return mkLam(x, s.under(n.args[0], map[*Node]*Node{n.args[1]: x}))
	case KSum, KProd:
		bs, body := openSum(n)
		if renaming > 0 {
			for i := range bs {
				if hi := s.do(bs[i].info.hi); hi != bs[i].info.hi {
					nb := loopSym("k", hi)
					sub := map[*Node]*Node{bs[i]: nb}
					for j := i + 1; j < len(bs); j++ {
						if contains(bs[j].info.hi, bs[i]) {
							nj := loopSym("k", Subst(bs[j].info.hi, sub))
							sub[bs[j]] = nj
							bs[j] = nj
						}
					}
					body = Subst(body, sub)
					bs[i] = nb
				}
			}
			return canonBinders(n.kind, n.sort, bs, s.do(body))
		}
		// substitute in ranges and body
		for i := range bs {
			hi := s.do(bs[i].info.hi)
			if hi != bs[i].info.hi {
				nb := loopSym("k", hi)
				sub := map[*Node]*Node{bs[i]: nb}
				for j := i + 1; j < len(bs); j++ {
					h := Subst(bs[j].info.hi, sub)
					if h != bs[j].info.hi {
						nj := loopSym("k", h)
						body = Subst(body, map[*Node]*Node{bs[j]: nj})
						// later ranges may mention bs[j]
						for l := j + 1; l < len(bs); l++ {
							bs[l].info.hi = Subst(bs[l].info.hi, map[*Node]*Node{bs[j]: nj})
						}
						bs[j] = nj
					}
				}
				body = Subst(body, sub)
				bs[i] = nb
			}
		}
		body = s.do(body)
		r := body
		for i := len(bs) - 1; i >= 0; i-- {
			if n.kind == KSum {
				r = mkSum(bs[i], r)
			} else {
				r = mkProd(bs[i], r)
			}
		}
		return r
	case KForAll:
		k, body := openForAll(n)
		hi := s.do(k.info.hi)
		if hi != k.info.hi {
			nk := loopSym("k", hi)
			body = Subst(body, map[*Node]*Node{k: nk})
			k = nk
		}
		return mkForAll(k, s.do(body))
	case KIter:
		it := openIter(n)
		it.n = s.do(it.n)
		nk := it.k
		if it.n != n.args[0] {
			nk = loopSym("k", it.n)
		}
		for i := range it.init {
			it.init[i] = s.do(it.init[i])
		}
		for i := range it.step {
			if nk != it.k {
				it.step[i] = Subst(it.step[i], map[*Node]*Node{it.k: nk})
			}
			it.step[i] = s.do(it.step[i])
		}
		it.k = nk
		return it.close()
	}
	fail("substitution in %s", show(n))
	return nil
}

// under substitutes bound variables by symbols and then applies s
func (s *substituter) under(body *Node, open map[*Node]*Node) *Node {
	b := rename(body, open)
	return s.do(b)
}

func negPow(a *Node, e int) *Node {
	if c, ok := constOf(a); ok && c.Sign() != 0 {
		r := new(big.Rat).Inv(c)
		return Pow(Const(a.sort, r), -e)
	}
	ts := termsOf(a)
	if len(ts) == 1 {
		r := Const(a.sort, new(big.Rat).Inv(ts[0].C))
		r = Pow(r, -e)
		for _, f := range ts[0].M {
			if f.A.kind != KP2 && !(f.E < 0) {
				fail("negative power of %s", show(a))
			}
			r = Mul(r, monoNode(a.sort, []Factor{{f.A, f.E * e}}))
		}
		return r
	}
	fail("negative power of %s", show(a))
	return nil
}

// ---------------------------------------------------------------------------
// Printing

func show(n *Node) string { return showD(n, 12) }

func showD(n *Node, d int) string {
	if n == nil {
		return "_"
	}
	if d == 0 {
		return "…"
	}
	sl := func(l []*Node) string {
		var s []string
		for _, a := range l {
			s = append(s, showD(a, d-1))
		}
		return strings.Join(s, ", ")
	}
	switch n.kind {
	case KPoly:
		if len(n.terms) == 0 {
			return "0"
		}
		var s []string
		for i, t := range n.terms {
			if i > 24 {
				s = append(s, "…")
				break
			}
			var fs []string
			if t.C.Cmp(ratOne) != 0 || len(t.M) == 0 {
				fs = append(fs, t.C.RatString())
			}
			for _, f := range t.M {
				x := showD(f.A, d-1)
				if f.E != 1 {
					x = fmt.Sprintf("%s^%d", x, f.E)
				}
				fs = append(fs, x)
			}
			s = append(s, strings.Join(fs, "·"))
		}
		return "(" + strings.Join(s, " + ") + ")"
	case KSym:
		return n.name
	case KBVar:
		return fmt.Sprintf("b%d", n.n)
	case KApp:
		return n.name + "(" + sl(n.args) + ")"
	case KIdx:
		return showD(n.args[0], d-1) + "[" + showD(n.args[1], d-1) + "]"
	case KInd:
		return "{" + showD(n.args[0], d-1) + "}"
	case KI2F:
		return "fr(" + showD(n.args[0], d-1) + ")"
	case KP2:
		return "2^(" + showD(n.args[0], d-1) + ")"
	case KDiv:
		return "(" + showD(n.args[0], d-1) + " div " + showD(n.args[1], d-1) + ")"
	case KSum, KProd:
		bs := ""
		for i := 0; i < n.n; i++ {
			bs += fmt.Sprintf("%s<%s ", showD(n.args[1+2*i], d-1), showD(n.args[2+2*i], d-1))
		}
		o := "Σ"
		if n.kind == KProd {
			o = "Π"
		}
		return o + "_{" + bs + "} " + showD(n.args[0], d-1)
	case KPowF:
		return "pow(" + sl(n.args) + ")"
	case KInv:
		return "inv(" + sl(n.args) + ")"
	case KTrue:
		return "true"
	case KFalse:
		return "false"
	case KEq0:
		return showD(n.args[0], d-1) + "=0"
	case KGe0:
		return showD(n.args[0], d-1) + ">=0"
	case KAnd:
		return "and(" + sl(n.args) + ")"
	case KOr:
		return "or(" + sl(n.args) + ")"
	case KNot:
		return "!" + showD(n.args[0], d-1)
	case KForAll:
		return "∀" + showD(n.args[1], d-1) + "<" + showD(n.args[2], d-1) + ". " + showD(n.args[0], d-1)
	case KLam:
		return "λ" + showD(n.args[1], d-1) + ". " + showD(n.args[0], d-1)
	case KIter:
		return fmt.Sprintf("iter#%d(%s)", n.n, sl(n.args))
	case KIte:
		return "ite(" + sl(n.args) + ")"
	case KAddr:
		return "&" + n.name + "(" + sl(n.args) + ")"
	}
	return fmt.Sprintf("?%d", n.kind)
}

// innermost reports up to n innermost places where two terms of the same shape differ (for diagnostics)
func innermost(a, b *Node, n int, out *[]string) {
	if a == b || len(*out) >= n {
		return
	}
	add := func() { *out = append(*out, clip(show(a), 700)+"  <>  "+clip(show(b), 700)) }
	if a.kind != b.kind || a.name != b.name || len(a.args) != len(b.args) || len(a.terms) != len(b.terms) {
		add()
		return
	}
	before := len(*out)
	for i := range a.args {
		innermost(a.args[i], b.args[i], n, out)
	}
	for i := range a.terms {
		if len(a.terms[i].M) != len(b.terms[i].M) || a.terms[i].C.Cmp(b.terms[i].C) != 0 {
			add()
			return
		}
		for j := range a.terms[i].M {
			innermost(a.terms[i].M[j].A, b.terms[i].M[j].A, n, out)
		}
	}
	if len(*out) == before {
		add()
	}
}
