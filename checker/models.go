package main

import "go/types"

// ---------------------------------------------------------------------------
// Specifications of functions that have an obligation of their own

// chunkB(nCore, N, k) is the k-th bound of the partition of [0, N) computed by common.IntoChunkRanges,
// chunkN(nCore, N) the number of chunks: bounds are non decreasing from 0 to N (mathspec.Chunks)
func chunkB(nCore, n, k *Node) *Node {
	return rebuildApp(&Node{kind: KApp, sort: SInt, name: "chunkB"}, []*Node{nCore, n, k})
}
func chunkN(nCore, n *Node) *Node { return App("chunkN", SInt, nCore, n) }

func init() {
	natApps["chunkN"] = true
	natApps["chunkB"] = true
	appRules["chunkB"] = func(a []*Node) *Node {
		if isZero(a[2]) {
			return IntC(0)
		}
		if a[2] == chunkN(a[0], a[1]) {
			return a[1]
		}
		return nil
	}
	models["common.IntoChunkRanges"] = func(in *Interp, st *State, sig *types.Signature, args []Val) []Val {
		nCore, n := args[0].node(), args[1].node()
		if !nonneg(Sub(nCore, IntC(1))) || !nonneg(n) {
			in.fail("IntoChunkRanges(%s, %s): the arguments may not be positive", show(nCore), show(n))
		}
		t := sig.Results().At(0).Type()
		et := t.Underlying().(*types.Slice).Elem()
		v := sliceVal(t, in.newObject("chunks", et, true).addr(), IntC(0), chunkN(nCore, n), chunkN(nCore, n))
		k := openIdx()
		o := in.obj(v.l[0])
		ls := leaves(et)
		for _, l := range ls {
			var b *Node
			switch l.path {
			case ".Begin":
				b = chunkB(nCore, n, k)
			case ".End":
				b = chunkB(nCore, n, Add(k, IntC(1)))
			default:
				in.fail("unexpected field %s of ChunkRange", l.path)
			}
			st.cells[o.id+"|"+l.path] = mkLam(k, b)
		}
		return []Val{v}
	}
}

func isMonotone(a *Node) bool { return a.kind == KApp && a.name == "chunkB" }

// monoSame tells whether a and b are values of the same non decreasing function
func monoSame(a, b *Node) bool {
	return isMonotone(a) && isMonotone(b) && a.args[0] == b.args[0] && a.args[1] == b.args[1]
}

// telescope recognises sums over a partition: with B monotone and R independent of k,
// the sum of R(B(k+1)) - R(B(k)) is R(B(n)) - R(B(0))
func telescope(k, body *Node) *Node {
	n := k.info.hi
	// atoms B(k+1)
	var next []*Node
	walkNodes(body, func(x *Node) bool {
		if isMonotone(x) && x.args[2] == Add(k, IntC(1)) && !containsAny(x.args[0], []*Node{k}) && !contains(x.args[1], k) {
			for _, y := range next {
				if y == x {
					return true
				}
			}
			next = append(next, x)
		}
		return true
	})
	for _, b := range next {
		at := func(j *Node) *Node { return chunkB(b.args[0], b.args[1], j) }
		bk := at(k)
		ts := termsOf(body)
		terms := map[*Node]int{}
		for i, t := range ts {
			terms[Scale(t.C, monoNode(body.sort, t.M))] = i
		}
		gone := make([]bool, len(ts))
		var total *Node
		for i, t := range ts {
			x := Scale(t.C, monoNode(body.sort, t.M))
			if gone[i] || !contains(x, b) || contains(x, bk) {
				continue
			}
			mark := newSym("B", SInt, &SymInfo{nat: true})
			r := Subst(x, map[*Node]*Node{b: mark})
			if contains(r, k) {
				continue
			}
			y := Neg(Subst(r, map[*Node]*Node{mark: bk}))
			j, ok := terms[y]
			if !ok || gone[j] {
				continue
			}
			gone[i], gone[j] = true, true
			d := Sub(Subst(r, map[*Node]*Node{mark: at(n)}), Subst(r, map[*Node]*Node{mark: at(IntC(0))}))
			if total == nil {
				total = d
			} else {
				total = Add(total, d)
			}
		}
		if total == nil {
			continue
		}
		rest := Const(body.sort, ratZero)
		for i, t := range ts {
			if !gone[i] {
				rest = Add(rest, Scale(t.C, monoNode(body.sort, t.M)))
			}
		}
		return Add(total, mkSum(k, rest))
	}
	return nil
}
