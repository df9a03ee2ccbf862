package hashspec

import (
	"gkr-mimc/hash"
	"verifspec/sym"

	"github.com/consensys/gurvy/bn256/fr"
)

// Circular permutation
//verif:for P09
func Rotate() {
	n := sym.Pos("n")
	x := sym.Slice[[]fr.Element]("x", n)
	hash.InPlaceCircularPermutation(x)
	y := sym.Slice[[]fr.Element]("x", n)
	want := make([]fr.Element, n)
	for i := range want {
		if i+1 < n {
			want[i] = y[i+1]
		} else {
			want[i] = y[0]
		}
	}
	sym.Equal("[b, c, ..., a]", x, want)
}

// Round key addition
//verif:for P09
func AddKeys() {
	n := sym.Nat("n")
	x, k := sym.Slice[[]fr.Element]("x", n), sym.Slice[[]fr.Element]("k", n)
	ark := sym.Of[fr.Element]("ark")
	hash.AddArkAndKeysInplace(x, k, ark)
	want := sym.Slice[[]fr.Element]("x", n)
	for i := range want {
		want[i].Add(&want[i], &k[i])
		want[i].Add(&want[i], &ark)
	}
	sym.Equal("x + k + ark", x, want)
	sym.Equal("the keys are unchanged", k, sym.Slice[[]fr.Element]("k", n))
}

// Full and partial substitution layers
//verif:for P09
func Rounds() {
	n := sym.Pos("n")
	x, y := sym.Slice[[]fr.Element]("x", n), sym.Slice[[]fr.Element]("x", n)
	hash.FullRoundInPlace(x)
	hash.PartialRoundInplace(y)
	full, partial := sym.Slice[[]fr.Element]("x", n), sym.Slice[[]fr.Element]("x", n)
	for i := range full {
		full[i] = pow7(full[i])
	}
	partial[0] = pow7(partial[0])
	sym.Equal("full", x, full)
	sym.Equal("partial", y, partial)
}

// Linear layer
//verif:for P09
func Matrix() {
	k, n := sym.Nat("k"), sym.Nat("n")
	m := sym.Slice2[[][]fr.Element]("m", k, n)
	v := sym.Slice[[]fr.Element]("v", n)
	want := make([]fr.Element, k)
	for i := range want {
		want[i] = sym.Sum(n, func(j int) fr.Element {
			x := m[i][j]
			x.Mul(&x, &v[j])
			return x
		})
	}
	sym.Equal("m v", hash.MatrixMultiplication(m, v), want)
	sym.Equal("the vector is unchanged", v, sym.Slice[[]fr.Element]("v", n))
}

func words(msg []fr.Element, from, t int) []fr.Element {
	block := make([]fr.Element, t)
	for j := range block {
		if from+j < len(msg) {
			block[j] = msg[from+j]
		}
	}
	return block
}

func hashed(n, t int, update func(state, block []fr.Element)) fr.Element {
	msg := sym.Slice[[]fr.Element]("msg", n)
	state := make([]fr.Element, t)
	for i := 0; i < n; i += t {
		update(state, words(msg, i, t))
	}
	return state[0]
}

// gmimcWord is a word of the state after a block is absorbed (see GMimcUpdate)
func gmimcWord(g hash.GMimcHasher, state, block []fr.Element, i int) fr.Element { return state[i] }

func gmimcUpdate(g *hash.GMimcHasher, state, block []fr.Element) {
	old := append([]fr.Element{}, state...)
	for i := range state {
		state[i] = gmimcWord(*g, old, block, i)
	}
}

// The message is cut into blocks of t words, the last one padded with zeroes, all absorbed in order
//verif:for P09 P10
//verif:opaque hashspec.gmimcWord
//verif:use hash.GMimcHasher.UpdateInplace=hashspec.gmimcUpdate
func GMimcHash() {
	sym.Init("hash")
	n := sym.Nat("n")
	msg := sym.Slice[[]fr.Element]("msg", n)
	sym.Equal("t = 2", hash.GMimcT2.Hash(msg), hashed(n, 2, hash.GMimcT2.UpdateInplace))
	sym.Equal("t = 4", hash.GMimcT4.Hash(msg), hashed(n, 4, hash.GMimcT4.UpdateInplace))
	sym.Equal("t = 8", hash.GMimcT8.Hash(msg), hashed(n, 8, hash.GMimcT8.UpdateInplace))
	sym.Equal("the message is unchanged", msg, sym.Slice[[]fr.Element]("msg", n))
}

func block(name string, t int) []fr.Element { return sym.Slice[[]fr.Element](name, t) }

// absorbed is the key and constant addition of a round
func keyed(x, key []fr.Element, ark fr.Element) []fr.Element {
	y := make([]fr.Element, len(x))
	for i := range y {
		y[i].Add(&x[i], &key[i])
		y[i].Add(&y[i], &ark)
	}
	return y
}

// fed adds the previous state and the block to every word
func fed(x, old, key []fr.Element) []fr.Element {
	y := make([]fr.Element, len(x))
	for i := range y {
		y[i].Add(&x[i], &old[i])
		y[i].Add(&y[i], &key[i])
	}
	return y
}

func gmimc(g *hash.GMimcHasher, t int) {
	state, key := block("state", t), block("block", t)
	g.UpdateInplace(state, key)
	x := block("state", t)
	for i := 0; i < 91; i++ {
		y := keyed(x, key, hash.Arks[i])
		y[0] = pow7(y[0])
		for j := range x {
			if j+1 < t {
				x[j] = y[j+1]
			} else {
				x[j] = y[0]
			}
		}
	}
	sym.Equal("state", state, fed(x, block("state", t), block("block", t)))
	sym.Equal("the block is unchanged", key, block("block", t))
}

// 91 rounds, each with its constant and the whole block, feed forward in every word
//verif:for P09 P10 P21
func GMimcUpdate() {
	sym.Init("hash")
	sym.Holds("a constant per round", len(hash.Arks) >= 91)
	gmimc(&hash.GMimcT2, 2)
	gmimc(&hash.GMimcT4, 4)
	gmimc(&hash.GMimcT8, 8)
}

// poseidonWord is a word of the state after a block is absorbed (see PoseidonUpdate)
func poseidonWord(p hash.PoseidonHasher, state, block []fr.Element, i int) fr.Element { return state[i] }

func poseidonUpdate(p *hash.PoseidonHasher, state, block []fr.Element) {
	old := append([]fr.Element{}, state...)
	for i := range state {
		state[i] = poseidonWord(*p, old, block, i)
	}
}

// As for GMimc
//verif:for P09 P13 P10
//verif:opaque hashspec.poseidonWord hash.GenerateMDSMatrix
//verif:use hash.PoseidonHasher.Update=hashspec.poseidonUpdate
func PoseidonHash() {
	sym.Init("hash")
	n := sym.Nat("n")
	msg := sym.Slice[[]fr.Element]("msg", n)
	sym.Equal("t = 2", hash.PoseidonT2.Hash(msg), hashed(n, 2, hash.PoseidonT2.Update))
	sym.Equal("t = 4", hash.PoseidonT4.Hash(msg), hashed(n, 4, hash.PoseidonT4.Update))
	sym.Equal("t = 8", hash.PoseidonT8.Hash(msg), hashed(n, 8, hash.PoseidonT8.Update))
	sym.Equal("the message is unchanged", msg, sym.Slice[[]fr.Element]("msg", n))
}

func sbox(x fr.Element) fr.Element { return pow7(x) }

func sboxInplace(x *fr.Element) { *x = sbox(*x) }

func entry(t, i, j int) fr.Element { return fr.Element{} }

func mds(t int) [][]fr.Element {
	m := make([][]fr.Element, t)
	for i := range m {
		m[i] = make([]fr.Element, t)
		for j := range m[i] {
			m[i][j] = entry(t, i, j)
		}
	}
	return m
}

func mixed(x []fr.Element, m [][]fr.Element) []fr.Element {
	z := make([]fr.Element, len(m))
	for i := range z {
		z[i] = sym.Sum(len(x), func(j int) fr.Element {
			v := m[i][j]
			v.Mul(&v, &x[j])
			return v
		})
	}
	return z
}

func poseidon(p *hash.PoseidonHasher, t, full, partial int) {
	state, key := block("state", t), block("block", t)
	p.Update(state, key)
	x := block("state", t)
	m := mds(t)
	for i := 0; i < full; i++ {
		y := keyed(x, key, hash.Arks[i])
		for j := range y {
			y[j] = sbox(y[j])
		}
		x = mixed(y, m)
	}
	for i := full; i < full+partial; i++ {
		y := keyed(x, key, hash.Arks[i])
		y[0] = sbox(y[0])
		x = mixed(y, m)
	}
	for i := full + partial; i < full+partial+full; i++ {
		y := keyed(x, key, hash.Arks[i])
		for j := range y {
			y[j] = sbox(y[j])
		}
		x = mixed(y, m)
	}
	sym.Equal("state", state, fed(x, block("state", t), block("block", t)))
	sym.Equal("the block is unchanged", key, block("block", t))
}

// 8 full rounds, the partial rounds, 8 full rounds, each with its constant and the whole block; feed forward in
// every word
//verif:for P09 P10 P21
//verif:opaque hashspec.sbox hashspec.entry
//verif:use hash.SBoxInplace=hashspec.sboxInplace hash.GenerateMDSMatrix=hashspec.mds
func PoseidonUpdate() {
	sym.Init("hash")
	poseidon(&hash.PoseidonT2, 2, 8, 82)
	poseidon(&hash.PoseidonT4, 4, 8, 83)
	poseidon(&hash.PoseidonT8, 8, 8, 84)
	sym.Holds("a constant per round", len(hash.Arks) >= 100)
}
