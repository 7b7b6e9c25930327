// P11: key exchange agrees with an independent implementation for every class
// of shares and refuses invalid ones.
package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"fmt"
	"math/big"
	"sync"

	"github.com/fido-alliance/dhkx"
	fdoshared "github.com/fido-alliance/iot-fdo-conformance-tools/core/shared"

	"verif/mc/fdo"
	"verif/mc/hx"
)

type ec struct {
	name   string
	c      elliptic.Curve
	n, rnd int
}

var ecs = []ec{{"ECDH256", elliptic.P256(), 32, 16}, {"ECDH384", elliptic.P384(), 48, 48}}

func (e ec) share(d *big.Int, rnd []byte) []byte {
	x, y := e.c.ScalarBaseMult(d.Bytes())
	return e.block(x, y, rnd)
}

func (e ec) block(x, y *big.Int, rnd []byte) []byte {
	return fdo.ECKexBlock(x.FillBytes(make([]byte, e.n)), y.FillBytes(make([]byte, e.n)), rnd)
}

// params is the state of a side that holds scalar d.
func (e ec) params(d *big.Int, rnd []byte) fdoshared.KeXParams {
	return fdoshared.KeXParams{Private: d.Bytes(), XAKeyExchange: e.share(d, rnd), KexSuit: fdoshared.KexSuiteName(e.name)}
}

// secret is what both sides must derive: x(abG) || device random || owner random.
func (e ec) secret(x, y, d *big.Int, devRnd, ownRnd []byte) []byte {
	sx, _ := e.c.ScalarMult(x, y, d.Bytes())
	return append(append(sx.FillBytes(make([]byte, e.n)), devRnd...), ownRnd...)
}

func derive(x *hx.X, k fdoshared.KeXParams, share []byte, dev bool, priv any, what string) (*fdoshared.SessionKeyInfo, error) {
	var s *fdoshared.SessionKeyInfo
	var err error
	in := append([]byte{}, share...)
	own := append([]byte{}, k.XAKeyExchange...)
	if p, fr := hx.Guard(func() { s, err = fdoshared.DeriveSessionKey(k, share, dev, priv) }); p != nil {
		x.Fail("derive-panic:"+fr, "%s: deriving from %s panics: %v", k.KexSuit, what, p)
	}
	if !bytes.Equal(in, share) || !bytes.Equal(own, k.XAKeyExchange) {
		x.Fail("clobbered:"+string(k.KexSuit), "%s: deriving changes a share", k.KexSuit)
	}
	x.Run().Transitions.Add(1)
	return s, err
}

func expect(x *hx.X, k fdoshared.KeXParams, share []byte, dev bool, priv any, sh, ctx []byte, what string) {
	s, err := derive(x, k, share, dev, priv, what)
	if err != nil {
		x.Fail("refused:"+string(k.KexSuit), "%s device=%v: valid share refused (%s): %v", k.KexSuit, dev, what, err)
	}
	if !bytes.Equal(s.ShSe, sh) || !bytes.Equal(s.ContextRand, ctx) {
		x.Fail("disagree:"+string(k.KexSuit), "%s device=%v: %s: secret %x context %x, reference %x %x", k.KexSuit, dev, what, s.ShSe, s.ContextRand, sh, ctx)
	}
}

func refuse(x *hx.X, k fdoshared.KeXParams, share []byte, dev bool, priv any, key, what string) {
	if _, err := derive(x, k, share, dev, priv, what); err == nil {
		x.Fail("accepted:"+string(k.KexSuit)+":"+key, "%s device=%v: %s is accepted: %x", k.KexSuit, dev, what, share)
	}
}

func gen(x *hx.X, suite string, pub *fdoshared.FdoPublicKey) (*fdoshared.KeXParams, error) {
	var k *fdoshared.KeXParams
	var err error
	if p, fr := hx.Guard(func() { k, err = fdoshared.GenerateXABKeyExchange(fdoshared.KexSuiteName(suite), pub) }); p != nil {
		x.Fail("generate-panic:"+fr, "%s: generating a share panics: %v", suite, p)
	}
	return k, err
}

// shortScalars finds scalars whose point has z leading zero bytes in x or y.
func shortScalars(e ec, z, coord int) *big.Int {
	k := fmt.Sprint(e.name, z, coord)
	v, _ := searched.LoadOrStore(k, sync.OnceValue(func() *big.Int { return search(e, z, coord) }))
	return v.(func() *big.Int)()
}

var searched sync.Map

func search(e ec, z, coord int) *big.Int {
	px, py := e.c.ScalarBaseMult([]byte{1})
	gx, gy := px, py
	for i := int64(1); i < 1<<20; i++ {
		v := []*big.Int{px, py}[coord]
		if v.BitLen() <= 8*(e.n-z) {
			return big.NewInt(i)
		}
		px, py = e.c.Add(px, py, gx, gy)
	}
	return nil
}

func pubOf(k *fdo.Key) *fdoshared.FdoPublicKey {
	return &fdoshared.FdoPublicKey{PkType: fdoshared.FdoPkType(k.PkType), PkEnc: fdoshared.X509, PkBody: append([]byte{}, k.SPKI...)}
}

func main() {
	hx.Main("P11", "all suites x roles x share classes (short and edge coordinates, short secrets, small exponents) against an independent derivation; every bit flip, truncation and extension of a share, wrong prefixes, points off the curve, on another curve, out of range, degenerate values, undecryptable and wrong-length blocks", func(r *hx.Run) {
		maxZ := 1
		if r.Thorough {
			maxZ = 2
		}
		r.Explore(&hx.Space{Name: "ec-agree", Body: func(x *hx.X) {
			e := ecs[x.Choose("curve", 2)]
			z := maxZ
			if e.n == 32 {
				z = 2
			}
			n := e.c.Params().N
			rnd := new(big.Int).SetBytes(fdo.RandBytes(e.n))
			rnd.Mod(rnd, n)
			one := big.NewInt(1)
			short := map[string]*big.Int{}
			for c := 0; c < 2; c++ {
				for i := 1; i <= z; i++ {
					short[fmt.Sprint(c, i)] = shortScalars(e, i, c)
				}
			}
			scal := map[string]*big.Int{"1": one, "2": big.NewInt(2), "n-1": new(big.Int).Sub(n, one), "n-2": new(big.Int).Sub(n, big.NewInt(2)), "random": rnd,
				"short scalar": new(big.Int).Rsh(rnd, 17)}
			for k, v := range short {
				if v != nil {
					scal["short coordinate "+k] = v
				}
			}
			names := []string{"1", "2", "n-1", "n-2", "random", "short scalar", "short coordinate 01", "short coordinate 02", "short coordinate 11", "short coordinate 12"}
			an := names[x.Choose("a", len(names))]
			bn := names[x.Choose("b", len(names)+4)%len(names)]
			a, b := scal[an], scal[bn]
			bi := x.Choose("secret", 3)
			if a == nil || b == nil {
				x.Prune("class not searched")
			}
			if bi > 0 { // make the secret short whatever a is
				s := short[fmt.Sprint(0, bi)]
				if s == nil {
					x.Prune("class not searched")
				}
				b = new(big.Int).Mul(s, new(big.Int).ModInverse(a, n))
				b.Mod(b, n)
				bn = "short secret " + fmt.Sprint(bi)
			}
			x.State(fmt.Sprint(e.name, an, bn))
			ra, rb := fdo.RandBytes(e.rnd), fdo.RandBytes(e.rnd)
			bx, by := e.c.ScalarBaseMult(b.Bytes())
			want := e.secret(bx, by, a, rb, ra) // a is the owner, b the device
			what := fmt.Sprintf("owner scalar %s, device scalar %s", an, bn)
			expect(x, e.params(a, ra), e.share(b, rb), false, nil, want, nil, what)
			expect(x, e.params(b, rb), e.share(a, ra), true, nil, want, nil, what)
			x.Outcome("agree:" + e.name)
		}})
		r.Explore(&hx.Space{Name: "generate", Body: func(x *hx.X) {
			suite := fdo.KexSuites[x.Choose("suite", len(fdo.KexSuites))]
			alg := fdo.RS256
			if x.Choose("owner", 2) == 1 {
				alg = fdo.RS384
			}
			ok := fdo.PoolKey(alg, "owner")
			rounds := 4
			if suite == "ECDH256" || suite == "ECDH384" {
				rounds = 400 // a short coordinate appears once in 128 shares
			}
			if r.Thorough {
				rounds *= 5
			}
			seen := map[string]bool{}
			for i := 0; i < rounds; i++ {
				own, err := gen(x, suite, nil)
				if err != nil {
					x.Fail("generate:"+suite, "%s: generating the owner share failed: %v", suite, err)
				}
				dev, err := gen(x, suite, pubOf(ok))
				if err != nil {
					x.Fail("generate:"+suite, "%s: generating the device share failed: %v", suite, err)
				}
				if seen[string(own.XAKeyExchange)] || seen[string(dev.XAKeyExchange)] || bytes.Equal(own.XAKeyExchange, dev.XAKeyExchange) {
					x.Fail("repeat:"+suite, "%s: a share repeats", suite)
				}
				seen[string(own.XAKeyExchange)], seen[string(dev.XAKeyExchange)] = true, true
				ds, err1 := derive(x, *dev, own.XAKeyExchange, true, nil, "own share")
				os, err2 := derive(x, *own, dev.XAKeyExchange, false, ok.Priv, "own share")
				if err1 != nil || err2 != nil {
					x.Fail("own-refused:"+suite, "%s: generated shares are refused: %v %v", suite, err1, err2)
				}
				if !bytes.Equal(ds.ShSe, os.ShSe) || !bytes.Equal(ds.ContextRand, os.ContextRand) || len(ds.ShSe) < 32 {
					x.Fail("own-disagree:"+suite, "%s: the two ends derive different keys", suite)
				}
				// the reference device against the system as owner
				ref, err := fdo.NewKex(suite, ok.Priv.Public())
				if err != nil {
					panic(err)
				}
				k, err := ref.Finish(own.XAKeyExchange)
				if err != nil {
					x.Fail("bad-share:"+suite, "%s: reference refuses the owner share: %v", suite, err)
				}
				expect(x, *own, ref.Public, false, ok.Priv, k.ShSe, k.Ctx, "reference device")
				// the reference as owner against the system as device
				switch suite {
				case "ASYMKEX2048", "ASYMKEX3072":
					pt, err := rsa.DecryptOAEP(sha256.New(), rand.Reader, ok.Priv.(*rsa.PrivateKey), dev.XAKeyExchange, nil)
					if err != nil {
						x.Fail("bad-share:"+suite, "%s: device share does not decrypt: %v", suite, err)
					}
					expect(x, *dev, own.XAKeyExchange, true, nil, pt, own.XAKeyExchange, "reference owner")
					if n := map[string]int{"ASYMKEX2048": 32, "ASYMKEX3072": 96}[suite]; len(pt) != n || len(own.XAKeyExchange) != n {
						x.Fail("bad-share:"+suite, "%s: randoms of %d and %d bytes", suite, len(pt), len(own.XAKeyExchange))
					}
				default:
					ref2, _ := fdo.NewKex(suite, nil)
					k2, err := ref2.Finish(dev.XAKeyExchange)
					if err != nil {
						x.Fail("bad-share:"+suite, "%s: reference refuses the device share: %v", suite, err)
					}
					sh := k2.ShSe
					if e := suite[0]; e == 'E' { // the reference plays the owner: randoms swap
						n := len(sh)
						rl := map[string]int{"ECDH256": 16, "ECDH384": 48}[suite]
						sw := append([]byte{}, sh[:n-2*rl]...)
						sw = append(sw, sh[n-rl:]...)
						sw = append(sw, sh[n-2*rl:n-rl]...)
						sh = sw
					}
					expect(x, *dev, ref2.Public, true, nil, sh, k2.Ctx, "reference owner")
				}
				x.State(fmt.Sprint(suite, alg, i))
			}
		}})
		r.Explore(&hx.Space{Name: "ec-invalid", Body: func(x *hx.X) {
			e := ecs[x.Choose("curve", 2)]
			dev := x.Choose("role", 2) == 1
			kind := x.Choose("kind", 6)
			mk := func(s string) *big.Int { h := sha256.Sum256([]byte(s)); return new(big.Int).SetBytes(h[:30]) }
			me, peer := mk("me"), mk("peer")
			rm, rp := bytes.Repeat([]byte{0x11}, e.rnd), bytes.Repeat([]byte{0x22}, e.rnd)
			k := e.params(me, rm)
			good := e.share(peer, rp)
			no := func(b []byte, key, what string) { x.State(e.name + what); refuse(x, k, b, dev, nil, key, what) }
			yes := func(px, py *big.Int, b, rnd []byte, what string) {
				o, d := rm, rnd
				if dev {
					o, d = rnd, rm
				}
				expect(x, k, b, dev, nil, e.secret(px, py, me, d, o), nil, what)
			}
			p := e.c.Params().P
			px, py := e.c.ScalarBaseMult(peer.Bytes())
			switch kind {
			case 0:
				for i := range good {
					no(good[:i], "cut", fmt.Sprintf("share cut to %d", i))
					no(append(append([]byte{}, good...), make([]byte, i+1)...), "longer", fmt.Sprintf("share with %d more bytes", i+1))
				}
				no(nil, "cut", "no share")
			case 1: // every bit
				for i := range good {
					for b := 0; b < 8; b++ {
						m := append([]byte{}, good...)
						m[i] ^= 1 << b
						if i >= len(good)-e.rnd {
							yes(px, py, m, m[len(m)-e.rnd:], "share with another random")
							continue
						}
						no(m, "bit", fmt.Sprintf("share with bit %d.%d flipped", i, b))
					}
				}
			case 2: // length prefixes
				for _, at := range []int{0, 2 + e.n, 4 + 2*e.n} {
					for _, v := range []int{0, 1, e.n - 1, e.n + 1, 16, 32, 48, 66, 255, 256, 65535} {
						m := append([]byte{}, good...)
						m[at], m[at+1] = byte(v>>8), byte(v)
						if bytes.Equal(m, good) {
							continue
						}
						no(m, "prefix", fmt.Sprintf("share with length %d at %d", v, at))
					}
				}
				// short coordinates sent short
				no(fdo.ECKexBlock(px.FillBytes(make([]byte, e.n))[1:], py.FillBytes(make([]byte, e.n)), rp), "short", "share with a 1 byte shorter x")
			case 3: // points
				zero := big.NewInt(0)
				no(e.block(zero, zero, rp), "point", "the zero point")
				no(e.block(px, zero, rp), "point", "y = 0")
				no(e.block(zero, py, rp), "point", "x = 0")
				no(e.block(py, px, rp), "point", "swapped coordinates")
				no(e.block(px, new(big.Int).Add(py, big.NewInt(1)), rp), "point", "y + 1")
				max := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(8*e.n)), big.NewInt(1))
				no(e.block(max, max, rp), "point", "all ones")
				no(e.block(p, p, rp), "point", "the field prime")
				yes(px, new(big.Int).Sub(p, py), e.block(px, new(big.Int).Sub(p, py), rp), rp, "the negated point")
				// small x and its out of range twin
				found := 0
				for i := int64(0); i < 60; i++ {
					sx := big.NewInt(i)
					y2 := new(big.Int).Exp(sx, big.NewInt(3), p)
					y2.Sub(y2, new(big.Int).Mul(sx, big.NewInt(3)))
					y2.Add(y2, e.c.Params().B)
					y2.Mod(y2, p)
					sy := new(big.Int).ModSqrt(y2, p)
					if sy == nil {
						no(e.block(sx, big.NewInt(i+1), rp), "point", fmt.Sprintf("small point off the curve %d", i))
						continue
					}
					found++
					yes(sx, sy, e.block(sx, sy, rp), rp, fmt.Sprintf("point with x=%d", i))
					no(e.block(new(big.Int).Add(sx, p), sy, rp), "range", fmt.Sprintf("point with x=p+%d", i))
				}
				if found == 0 {
					x.Fail("search", "no small points")
				}
			case 4: // other curves' shares
				for _, c := range []elliptic.Curve{elliptic.P224(), elliptic.P256(), elliptic.P384(), elliptic.P521()} {
					if c == e.c {
						continue
					}
					d, _ := ecdsa.GenerateKey(c, rand.Reader)
					n := (c.Params().BitSize + 7) / 8
					b := fdo.ECKexBlock(d.X.FillBytes(make([]byte, n)), d.Y.FillBytes(make([]byte, n)), rp)
					no(b, "other-curve", "share of "+c.Params().Name)
					if n <= e.n {
						no(e.block(d.X, d.Y, rp), "other-curve", "widened point of "+c.Params().Name)
					}
				}
				no(elliptic.Marshal(e.c, px, py), "form", "uncompressed SEC1 point")
				no(elliptic.MarshalCompressed(e.c, px, py), "form", "compressed SEC1 point")
			case 5: // small-order twist style points: walk x, wrong y
				for i := int64(1); i < 200; i++ {
					no(e.block(big.NewInt(i), big.NewInt(i*i+7), rp), "point", fmt.Sprintf("arbitrary point %d", i))
				}
			}
			x.Outcome("refused:" + e.name)
		}})
		r.Explore(&hx.Space{Name: "dh", Body: func(x *hx.X) {
			suite := []string{"DHKEXid14", "DHKEXid15"}[x.Choose("suite", 2)]
			dev := x.Choose("role", 2) == 1
			kind := x.Choose("kind", 3)
			p := fdo.DHPrime(suite)
			w := (p.BitLen() + 7) / 8
			g := map[string]dhkx.GroupID{"DHKEXid14": dhkx.DHKX_ID14, "DHKEXid15": dhkx.DHKX_ID15}[suite]
			par := func(a *big.Int) fdoshared.KeXParams {
				y := new(big.Int).Exp(big.NewInt(2), a, p)
				h := fdoshared.NewDHKexPrivateKey(a.Bytes(), y.Bytes(), g)
				return fdoshared.KeXParams{Private: h.MarshalCbor(), XAKeyExchange: y.FillBytes(make([]byte, w)), KexSuit: fdoshared.KexSuiteName(suite)}
			}
			yes := func(k fdoshared.KeXParams, a, y *big.Int, share []byte, what string) {
				x.State(fmt.Sprint(suite, dev, what))
				expect(x, k, share, dev, nil, new(big.Int).Exp(y, a, p).FillBytes(make([]byte, w)), nil, what)
			}
			switch kind {
			case 0: // every width of the secret: 2^(ab)
				for a := int64(1); a <= 20; a++ {
					k := par(big.NewInt(a))
					for b := int64(1); b <= 150; b += 3 {
						y := new(big.Int).Exp(big.NewInt(2), big.NewInt(b), p)
						yes(k, big.NewInt(a), y, y.FillBytes(make([]byte, w)), fmt.Sprintf("exponents %d and %d", a, b))
					}
				}
			case 1:
				a := new(big.Int).SetBytes(bytes.Repeat([]byte{0x5a}, w-1))
				k := par(a)
				for _, v := range []struct {
					n string
					v *big.Int
				}{{"0", big.NewInt(0)}, {"1", big.NewInt(1)}, {"p-1", new(big.Int).Sub(p, big.NewInt(1))}, {"p", p}, {"p+1", new(big.Int).Add(p, big.NewInt(1))}, {"p+2", new(big.Int).Add(p, big.NewInt(2))},
					{"all ones", new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(8*w)), big.NewInt(1))}, {"2p", new(big.Int).Lsh(p, 1)}, {"2p+2", new(big.Int).Add(new(big.Int).Lsh(p, 1), big.NewInt(2))}} {
					x.State(fmt.Sprint(suite, dev, v.n))
					refuse(x, k, v.v.Bytes(), dev, nil, "degenerate", "public value "+v.n)
					if v.v.BitLen() <= 8*w {
						refuse(x, k, v.v.FillBytes(make([]byte, w)), dev, nil, "degenerate", "padded public value "+v.n)
					}
				}
				refuse(x, k, nil, dev, nil, "degenerate", "no share")
				for _, v := range []*big.Int{big.NewInt(2), big.NewInt(3), new(big.Int).Sub(p, big.NewInt(2)), new(big.Int).Sub(p, big.NewInt(3))} {
					yes(k, a, v, v.FillBytes(make([]byte, w)), "edge public value "+v.String()[:1])
				}
				for _, l := range []int{w + 1, 2 * w, 1000, 65535} {
					refuse(x, k, bytes.Repeat([]byte{0x77}, l), dev, nil, "longer", fmt.Sprintf("share of %d bytes", l))
				}
			case 2: // any other value is another valid share
				a := new(big.Int).SetBytes(bytes.Repeat([]byte{0x33}, 64))
				k := par(a)
				y := new(big.Int).Exp(big.NewInt(2), big.NewInt(987654321), p)
				step := 8
				if r.Thorough {
					step = 1
				}
				for i := 0; i < 8*w; i += step {
					v := new(big.Int).SetBit(new(big.Int).Set(y), i, y.Bit(i)^1)
					if v.Cmp(p) < 0 {
						yes(k, a, v, v.FillBytes(make([]byte, w)), fmt.Sprintf("share with bit %d flipped", i))
					}
				}
			}
			x.Outcome("dh:" + suite)
		}})
		r.Explore(&hx.Space{Name: "asym", Body: func(x *hx.X) {
			suite := []string{"ASYMKEX2048", "ASYMKEX3072"}[x.Choose("suite", 2)]
			n := map[string]int{"ASYMKEX2048": 32, "ASYMKEX3072": 96}[suite]
			alg := []int{fdo.RS256, fdo.RS384}[x.Choose("owner", 2)]
			kind := x.Choose("kind", 4)
			ok := fdo.PoolKey(alg, "owner")
			rp := ok.Priv.Public().(*rsa.PublicKey)
			enc := func(b []byte) []byte {
				c, err := rsa.EncryptOAEP(sha256.New(), rand.Reader, rp, b, nil)
				if err != nil {
					panic(err)
				}
				return c
			}
			own, err := gen(x, suite, nil)
			if err != nil {
				x.Fail("generate:"+suite, "%v", err)
			}
			secret := bytes.Repeat([]byte{0x41}, n)
			good := enc(secret)
			switch kind {
			case 0:
				expect(x, *own, good, false, ok.Priv, secret, own.XAKeyExchange, "reference device")
				zs := append([]byte{0, 0}, secret[2:]...)
				expect(x, *own, enc(zs), false, ok.Priv, zs, own.XAKeyExchange, "secret beginning with zeros")
				for i := range good {
					for b := 0; b < 8; b += 3 {
						m := append([]byte{}, good...)
						m[i] ^= 1 << b
						x.State(fmt.Sprint(suite, alg, i, b))
						refuse(x, *own, m, false, ok.Priv, "bit", "changed block")
					}
				}
			case 1:
				for i := range good {
					refuse(x, *own, good[:i], false, ok.Priv, "cut", "cut block")
				}
				for _, l := range []int{1, 100, 1000} {
					refuse(x, *own, append(append([]byte{}, good...), make([]byte, l)...), false, ok.Priv, "longer", "longer block")
				}
				refuse(x, *own, make([]byte, len(good)), false, ok.Priv, "constant", "zero block")
				refuse(x, *own, bytes.Repeat([]byte{0xff}, len(good)), false, ok.Priv, "constant", "all ones block")
				refuse(x, *own, secret, false, ok.Priv, "plain", "unencrypted secret")
				for _, o := range []*fdo.Key{fdo.PoolKey(alg, "other"), fdo.PoolKey(fdo.RS256, "third"), fdo.PoolKey(fdo.RS384, "third")} {
					c, _ := rsa.EncryptOAEP(sha256.New(), rand.Reader, o.Priv.Public().(*rsa.PublicKey), secret, nil)
					refuse(x, *own, c, false, ok.Priv, "other-key", "block for another key")
				}
				c, _ := rsa.EncryptPKCS1v15(rand.Reader, rp, secret)
				refuse(x, *own, c, false, ok.Priv, "pkcs1", "PKCS1 v1.5 block")
				c, _ = rsa.EncryptOAEP(sha256.New(), rand.Reader, rp, secret, []byte("label"))
				refuse(x, *own, c, false, ok.Priv, "label", "block with a label")
			case 2: // any other secret length
				for l := 0; l <= 126; l++ {
					x.State(fmt.Sprint(suite, alg, "len", l))
					if l != n {
						refuse(x, *own, enc(make([]byte, l)), false, ok.Priv, "length", fmt.Sprintf("secret of %d bytes", l))
						dev, err := gen(x, suite, pubOf(ok))
						if err != nil {
							x.Fail("generate:"+suite, "%v", err)
						}
						refuse(x, *dev, make([]byte, l), true, nil, "length", fmt.Sprintf("owner random of %d bytes", l))
					}
				}
			case 3: // keys of other kinds
				for _, a := range []int{fdo.ES256, fdo.ES384} {
					refuse(x, *own, good, false, fdo.PoolKey(a, "owner").Priv, "ec-key", "block with an EC owner key")
					if k, err := gen(x, suite, pubOf(fdo.PoolKey(a, "owner"))); err == nil {
						x.Fail("generate-ec:"+suite, "%s: a share for an EC owner: %x", suite, k.XAKeyExchange)
					}
				}
				for _, pk := range []any{nil, 1, []byte{1}} {
					refuse(x, *own, good, false, pk, "no-key", "block without a key")
				}
				for _, b := range []any{nil, 1, "x", []byte{}, []byte{0x30, 0}, []any{}} {
					p := pubOf(ok)
					p.PkBody = b
					if _, err := gen(x, suite, p); err == nil {
						x.Fail("generate-badkey:"+suite, "%s: a share for a key body %T", suite, b)
					}
				}
			}
			x.Outcome("asym:" + suite)
		}})
		r.Explore(&hx.Space{Name: "unknown", Body: func(x *hx.X) {
			names := []string{"", "ECDH", "ecdh256", "ECDH521", "DHKEXid1", "DHKEXid16", "ASYMKEX", "ASYMKEX4096", "ECDH256 ", "\x00"}
			n := names[x.Choose("name", len(names))]
			x.State(n)
			if _, err := gen(x, n, nil); err == nil {
				x.Fail("unknown", "share for suite %q", n)
			}
			for _, s := range fdo.KexSuites {
				k, err := gen(x, s, nil)
				if err != nil {
					x.Fail("generate:"+s, "%v", err)
				}
				k.KexSuit = fdoshared.KexSuiteName(n)
				refuse(x, *k, k.XAKeyExchange, false, nil, "unknown", "share of an unknown suite")
				refuse(x, *k, k.XAKeyExchange, true, nil, "unknown", "share of an unknown suite")
			}
		}})
	})
}
