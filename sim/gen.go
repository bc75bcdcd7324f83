package main

import "strconv"

// Generators of keys, values and configurations. Swarm style: every run picks its own alphabet, lengths and mix.

type keyGen struct {
	rng   *Rng
	alpha []byte
	style int
	pool  [][]byte
	base  []byte
	maxL  int
	vsty  int
	vals  [][]byte
	arity int
}

var alphabets = [][]byte{
	{0x00, 0x01},
	{0x00, 0x10, 0x01, 0x11},
	{0x00, 0xff},
	{0x00, 0x0f, 0xf0, 0xff},
	{'a', 'b'},
	{'a', 'b', 'c', 0x00},
	{0x7f, 0x80, 0x00},
	{0x00},
	{0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08},
}

func newKeyGen(rng *Rng, arity int) *keyGen {
	g := &keyGen{rng: rng, arity: arity}
	g.alpha = alphabets[rng.N(len(alphabets))]
	g.style = rng.W(30, 15, 10, 8, 6, 6, 5, 3)
	g.maxL = rng.Pick(1, 2, 3, 4, 6, 9)
	g.vsty = rng.N(6)
	g.base = g.word(rng.Range(0, 40))
	if rng.P(1, 150) { // path fragments of thousands of elements
		g.style = 2
		g.base = g.word(rng.Pick(254, 510, 1022, 2047, 2100, 4095, 4200, 8200))
	}
	n := rng.Pick(2, 3, 4, 6, 8, 12, 20, 40)
	if g.style == 3 && rng.P(1, 3) { // wide nodes
		n = rng.Pick(60, 150, 400)
	}
	for i := 0; i < n; i++ {
		g.pool = append(g.pool, g.fresh())
	}
	if rng.P(1, 3) {
		g.pool = append(g.pool, []byte{})
	}
	for i := 0; i < 4; i++ {
		g.vals = append(g.vals, g.freshVal(g.pool[0]))
	}
	return g
}

func (g *keyGen) word(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = g.alpha[g.rng.N(len(g.alpha))]
	}
	return b
}

func (g *keyGen) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(g.rng.U64())
	}
	return b
}

func (g *keyGen) fresh() []byte {
	rng := g.rng
	switch g.style {
	case 0: // short words over a small alphabet
		return g.word(rng.Range(0, g.maxL))
	case 1: // extend or cut an existing key
		if len(g.pool) > 0 {
			k := g.pool[rng.N(len(g.pool))]
			switch rng.N(4) {
			case 0:
				return append([]byte{}, k[:rng.N(len(k)+1)]...)
			case 1:
				return cat(k, g.word(1))
			case 2:
				return cat(k, g.word(rng.Range(1, 5)))
			default:
				c := append([]byte{}, k...)
				if len(c) > 0 {
					c[rng.N(len(c))] ^= 1 << rng.N(8)
				}
				return c
			}
		}
		return g.word(rng.Range(1, 6))
	case 2: // fixed size, common base
		b := append(append([]byte{}, g.base...), g.bytes(2)...)
		return b
	case 3: // dense node: all the children of one parent
		return append(append([]byte{}, g.base[:len(g.base)/8]...), byte(rng.N(256)))
	case 4: // long keys around the hash size
		return g.word(rng.Pick(9, 10, 15, 16, 17, 18, 19, 20, 21, 22, 31, 32, 33, 34, 35, 63, 64, 65, 66))
	case 5: // random
		return g.bytes(rng.Range(0, 12))
	case 6: // hash like
		return g.bytes(32)
	default: // very long
		return g.word(rng.Pick(100, 254, 255, 256, 257, 300))
	}
}

// load is a bulk of most of the pool
func (g *keyGen) load() (l []Hex) {
	for _, k := range g.pool {
		if g.rng.P(7, 8) {
			l = append(l, k, g.val(k))
		}
	}
	return
}

// key picks mostly from the pool
func (g *keyGen) key() []byte {
	if g.rng.P(1, 8) {
		k := g.fresh()
		if len(g.pool) < 300 {
			g.pool = append(g.pool, k)
		}
		return k
	}
	k := g.pool[g.rng.N(len(g.pool))]
	if g.rng.P(1, 20) && len(k) > 0 {
		return append([]byte{}, k[:g.rng.N(len(k))]...)
	}
	return append([]byte{}, k...)
}

func (g *keyGen) freshVal(key []byte) []byte {
	rng := g.rng
	switch g.vsty {
	case 0:
		return cat(g.word(rng.Range(0, 3)), []byte{byte(1 + rng.N(255))})
	case 1: // around the interesting sizes
		n := rng.Pick(1, 2, 18, 19, 20, 21, 22, 31, 32, 33, 34, 63, 64, 65, 100)
		return g.bytes(n)
	case 2:
		if rng.P(1, 2) && len(key) > 0 {
			return append([]byte{}, key...)
		}
		return g.bytes(rng.Range(1, 40))
	case 3: // trailing zeros
		return cat(g.bytes(rng.Range(1, 6)), make([]byte, rng.N(4)))
	case 4:
		if rng.P(1, 3) && len(key) > 0 {
			return refUnpack(key, g.arity)
		}
		return g.word(rng.Range(1, 70))
	default:
		return g.bytes(rng.Pick(1, 5, 30, 40, 200, 1000))
	}
}

func (g *keyGen) val(key []byte) []byte {
	if g.rng.P(1, 4) && len(g.vals) > 0 {
		return append([]byte{}, g.vals[g.rng.N(len(g.vals))]...)
	}
	v := g.freshVal(key)
	if len(v) == 0 {
		v = []byte{1}
	}
	return v
}

func genModelCfg(rng *Rng, c map[string]int) {
	c["arity"] = rng.Pick(256, 256, 16, 16, 2)
	c["hash"] = rng.Pick(20, 32)
	if rng.P(1, 2) {
		c["thr"] = rng.Pick(1, 2, 5, 19, 20, 21, 31, 32, 33, 64, 1000)
	}
	if rng.P(1, 2) {
		c["opt"] = 1
	}
}

// comb: n keys which make a path of about n nodes: the prefixes of the base and, with narrow arities, keys which branch
// off between them
func comb(base []byte, n, arity int) (ret []Hex) {
	for i := range base {
		flips := []byte(nil)
		switch arity {
		case 2:
			flips = []byte{0x80, 0x40, 0x20, 0x10, 0x08, 0x04, 0x02, 0x01}
		case 16:
			flips = []byte{0x10, 0x01}
		}
		for _, f := range flips {
			if len(ret)/2 >= n {
				return
			}
			k := cat(base[:i+1], nil)
			k[i] ^= f
			ret = append(ret, k, Hex{f})
		}
		if len(ret)/2 >= n {
			return
		}
		ret = append(ret, Hex(cat(base[:i+1], nil)), Hex{byte(i + 1), 1})
	}
	return
}

// combBase picks the base and the number of keys
func combBase(rng *Rng, g *keyGen) (Hex, int) {
	n := rng.Pick(20, 60, 254, 255, 256, 257, 300)
	l := n
	switch g.arity {
	case 2:
		l = n/9 + 1
	case 16:
		l = n/3 + 1
	}
	base := g.word(l)
	for i := 0; i < 3; i++ {
		g.pool = append(g.pool, base[:rng.N(l)+1])
	}
	g.pool = append(g.pool, base, base)
	return Hex(base), n
}

// many is a long list of pairs as a function of its parameters. With del some of the pairs of the list without it are
// deletions
func many(seed []byte, n int, del bool) (ks, vs []string) {
	h := hashStr(0x6d616e79, string(seed))
	style := h % 4
	for i := 0; i < n; i++ {
		x := mix64(h + uint64(i)*0x9e3779b97f4a7c15)
		b := []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24), byte(x >> 32), byte(x >> 40), byte(x >> 48)}
		var k []byte
		switch style {
		case 0: // two bytes
			k = b[:2]
		case 1: // like a hash
			k = refHash(b, 32)
		case 2: // numbers, some are prefixes of others
			k = []byte(strconv.Itoa(i))
		default: // one, two or three bytes over few letters
			k = []byte{b[0] % 8, b[1], b[2]}[:1+x>>60%3]
		}
		v := refHash(b, 20)[:1+b[3]%20]
		if b[4]%8 == 0 {
			v = refHash(b[1:], 32)
			v = append(v, v[:b[5]%32]...)
		}
		if del && b[6]%3 > 0 {
			v = nil
		}
		ks, vs = append(ks, string(k)), append(vs, string(v))
	}
	return
}
