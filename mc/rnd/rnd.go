// Package rnd makes the small random choices of the code under test choice
// points: every bounded crypto/rand.Int call of a goroutine under Choose is
// answered by its explorer.  RSA keys it generates come from a pool.  It needs the overlay made by gen.sh.
package rnd

import (
	"crypto/rand"
	"crypto/rsa"
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"verif/mc/hx"
)

var (
	by   sync.Map // goroutine id -> func(max int64) (int64, bool)
	keys sync.Map // goroutine id -> *int: RSA keys it was given
	mu   sync.Mutex
	pool = map[int][]*rsa.PrivateKey{}
)

// poolSize is how many different RSA keys of a size one run is given.
const poolSize = 12

// key supplies RSA keys of a run from a pool: no two of the first poolSize are
// the same.
func key(bits int) *rsa.PrivateKey {
	g := gid()
	n, ok := keys.Load(g)
	if !ok {
		return nil
	}
	i := *n.(*int)
	*n.(*int)++
	mu.Lock()
	defer mu.Unlock()
	l := pool[bits]
	if i < len(l) {
		return l[i]
	}
	if len(l) < poolSize {
		keys.Delete(g)
		k, err := rsa.GenerateKey(rand.Reader, bits)
		keys.Store(g, n)
		if err != nil {
			return nil
		}
		pool[bits] = append(l, k)
		return k
	}
	return l[i%poolSize]
}

func gid() int64 {
	var b [64]byte
	s := strings.Fields(string(b[:runtime.Stack(b[:], false)]))
	n, _ := strconv.ParseInt(s[1], 10, 64)
	return n
}

func init() {
	rsa.VerifKey = key
	rand.VerifInt = func(max int64) (int64, bool) {
		if f, ok := by.Load(gid()); ok {
			return f.(func(int64) (int64, bool))(max)
		}
		return 0, false
	}
}

// Few picks the values tried for a choice among max: all of a small range, the
// ends, middle and quarters of a large one.
func Few(max int64, small int64) []int64 {
	if max <= small {
		o := make([]int64, max)
		for i := range o {
			o[i] = int64(i)
		}
		return o
	}
	o := []int64{0, max / 4, max/2 - 1, max / 2, max - 1}
	return o
}

// Script answers the choices made by f on this goroutine through x.Choose, up
// to depth choices (later ones take the first value); it returns them.
func Script(x *hx.X, small int64, depth int, f func()) (picked []string) {
	return With(func(max int64) (int64, bool) {
		if max > 1<<31 {
			return 0, false
		}
		vs := Few(max, small)
		v := vs[0]
		if len(picked) < depth && len(vs) > 1 {
			v = vs[x.Choose(fmt.Sprintf("random<%d", max), len(vs))]
		} else if len(picked) >= 4*depth+64 {
			return 0, false // a retry loop that needs another value
		}
		picked = append(picked, fmt.Sprintf("%d/%d", v, max))
		return v, true
	}, f, &picked)
}

// With runs f with this goroutine's choices answered by pick.
func With(pick func(max int64) (int64, bool), f func(), picked *[]string) []string {
	g := gid()
	by.Store(g, pick)
	defer by.Delete(g)
	keys.Store(g, new(int))
	defer keys.Delete(g)
	f()
	if picked == nil {
		return nil
	}
	return *picked
}
