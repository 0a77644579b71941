package main

import (
	"errors"
	"fmt"
	"hash/fnv"
	"strconv"

	"github.com/IfanTsai/metis/database"
	"github.com/IfanTsai/metis/datastruct"
	"pgregory.net/rapid"

	"verifharness/fw"
)

// ---- C22: the hash table against a map

// hashType hashes the strings made by keyName in a chosen way.
type hashType struct{ kind int }

var hashKinds = []string{"fnv", "identity", "constant", "mod 3", "negative", "high bits only", "multiples of 8", "minimum"}

func keyName(n int) string { return "k" + strconv.Itoa(n) }

func keyNum(a any) int64 {
	s, _ := a.(string)
	if len(s) < 2 || s[0] != 'k' {
		return int64(len(s))
	}
	n, err := strconv.ParseInt(s[1:], 10, 64)
	if err != nil {
		return int64(len(s))
	}
	return n
}

func (h hashType) Hash(a any) int64 {
	n := keyNum(a)
	switch h.kind {
	case 0:
		f := fnv.New64a()
		fmt.Fprint(f, a)
		return int64(f.Sum64())
	case 1:
		return n
	case 2:
		return 7
	case 3:
		return n % 3
	case 4:
		return -n
	case 5:
		return n << 40
	case 6:
		return n * 8
	default:
		return -1 << 63
	}
}

func (h hashType) Equal(a, b any) bool { return a == b }

func dictTypeOf(kind int) datastruct.DictType {
	if kind < 0 || kind >= len(hashKinds) {
		return &database.DictType{}
	}
	return hashType{kind}
}

func genHashKind(t *rapid.T) int {
	return fw.Pick(t, "hash", []int{-1, -1, 0, 1, 1, 2, 3, 4, 5, 6, 7})
}

// slow: all entries are in few chains, so that large tables take quadratic time.
func slowHash(kind int) bool { return kind == 2 || kind == 3 || kind == 5 || kind == 7 }

type DOp struct {
	K    string
	A    int `json:",omitempty"`
	N    int `json:",omitempty"`
	Iter int `json:",omitempty"`
}

type DictCase struct {
	Hash int
	Seed int64
	Ops  []DOp
}

func (c *DictCase) Steps() int { return len(c.Ops) }
func (c *DictCase) Without(i, j int) any {
	return &DictCase{c.Hash, c.Seed, without(c.Ops, i, j)}
}

func genDict(t *rapid.T, tier int) any {
	c := &DictCase{Hash: genHashKind(t), Seed: int64(fw.Uni(t, "seed", 1<<16))}
	span := fw.Pick(t, "span", []int{4, 12, 40, 200, 2000})
	maxFill := fw.Pick(t, "fill", []int{3, 9, 40, 300, 3000})
	if tier == 1 && fw.Chance(t, "big", 1, 8) {
		span, maxFill = 40000, 20000
	}
	if slowHash(c.Hash) {
		maxFill, span = min(maxFill, 120), min(span, 200)
	}
	iters := fw.Chance(t, "iters", 3, 4)
	n := 60
	if tier == 1 {
		n = 250
	}
	c.Ops = fw.Seq(t, "ops", 1, n, func(t *rapid.T) DOp {
		key := fw.Uni(t, "key", span)
		hi := 22
		if !iters {
			hi = 14
		}
		switch k := fw.Uni(t, "op", hi); k {
		case 0, 1, 2:
			return DOp{K: "set", A: key}
		case 3, 4:
			return DOp{K: "del", A: key}
		case 5:
			return DOp{K: "find", A: key}
		case 6:
			return DOp{K: "get", A: key}
		case 7:
			return DOp{K: "rand", N: fw.Pick(t, "times", []int{1, 1, 3, 50})}
		case 8, 9:
			return DOp{K: "fill", A: key, N: fw.Rng(t, "n", 1, maxFill)}
		case 10:
			return DOp{K: "drain", A: key, N: fw.Rng(t, "n", 1, maxFill)}
		case 11:
			return DOp{K: "findmany", A: key, N: fw.Rng(t, "n", 1, maxFill)}
		case 12:
			return DOp{K: "drain", A: 0, N: span}
		case 13:
			return DOp{K: "cover"}
		case 14, 15:
			return DOp{K: "iter", N: fw.Uni(t, "steps", 5)}
		case 16, 17, 18:
			return DOp{K: "next", Iter: fw.Uni(t, "it", 3), N: fw.Pick(t, "steps", []int{1, 2, 5, 30, 100000})}
		case 19, 20:
			return DOp{K: "delcur", Iter: fw.Uni(t, "it", 3), N: fw.Pick(t, "steps", []int{1, 1, 3, 20, 500})}
		default:
			return DOp{K: "release", Iter: fw.Uni(t, "it", 3)}
		}
	})
	return c
}

type modelIter struct {
	it       *datastruct.DictIterator
	started  bool
	done     bool
	must     map[int]bool // present since the start and not returned yet
	returned map[int]bool // returned and present since
	cur      int
	curLive  bool
}

type dictRun struct {
	d     *datastruct.Dict
	m     map[int]int
	iters []*modelIter
	next  int
	e     *fw.Env
}

func (r *dictRun) running(except *modelIter) bool {
	for _, x := range r.iters {
		if x != except && x.started && !x.done {
			return true
		}
	}
	return false
}

func (r *dictRun) set(k int) error {
	r.next++
	_, had := r.m[k]
	if isNew := r.d.Set(keyName(k), r.next); isNew == had {
		return fw.Viol("Set(%s) reports new=%v, but the key was present: %v", keyName(k), isNew, had)
	}
	r.m[k] = r.next
	return nil
}

func (r *dictRun) del(k int) error {
	_, had := r.m[k]
	err := r.d.Delete(keyName(k))
	if had && err != nil {
		return fw.Viol("Delete(%s) of a present key failed: %v", keyName(k), err)
	}
	if !had {
		if err == nil {
			return fw.Viol("Delete(%s) of an absent key succeeded", keyName(k))
		}
		if !errors.Is(err, datastruct.ErrKeyNotFound) && !errors.Is(err, datastruct.ErrNotInitialized) {
			return fw.Viol("Delete(%s) of an absent key failed with %v", keyName(k), err)
		}
	}
	delete(r.m, k)
	for _, x := range r.iters {
		delete(x.must, k)
		delete(x.returned, k)
		if x.curLive && x.cur == k {
			x.curLive = false
		}
	}
	return nil
}

func (r *dictRun) find(k int) error {
	v, had := r.m[k]
	en := r.d.Find(keyName(k))
	if (en != nil) != had {
		return fw.Viol("Find(%s) returns an entry: %v, but the key is present: %v", keyName(k), en != nil, had)
	}
	if had && (en.Key != keyName(k) || en.Value != v) {
		return fw.Viol("Find(%s) returns %v=%v, want value %d", keyName(k), en.Key, en.Value, v)
	}
	return nil
}

func (r *dictRun) get(k int) error {
	v, had := r.m[k]
	got := r.d.Get(keyName(k))
	if (had && got != v) || (!had && got != nil) {
		return fw.Viol("Get(%s) returns %v, want %v (present %v)", keyName(k), got, v, had)
	}
	return nil
}

func (r *dictRun) random() (int, error) {
	en := r.d.GetRandomKey()
	if en == nil {
		if len(r.m) > 0 {
			return 0, fw.Viol("GetRandomKey returns nothing from %d entries", len(r.m))
		}
		return -1, nil
	}
	k := int(keyNum(en.Key))
	v, ok := r.m[k]
	if !ok || en.Key != keyName(k) || en.Value != v {
		return 0, fw.Viol("GetRandomKey returns %v=%v, which is not an entry (%v %v)", en.Key, en.Value, v, ok)
	}
	return k, nil
}

// cover: with up to 130 entries, every one of them is returned sooner or later. Each has a probability of 4/(n+1)^2 at least when a
// bucket that is not empty and an entry of it are drawn, so that these many draws miss one with probability below n*e^-60.
func (r *dictRun) cover() error {
	if len(r.m) == 0 || len(r.m) > 130 {
		return nil
	}
	seen := map[int]bool{}
	limit := 15 * (len(r.m) + 1) * (len(r.m) + 1)
	for i := 0; i < limit && len(seen) < len(r.m); i++ {
		k, err := r.random()
		if err != nil {
			return err
		}
		seen[k] = true
	}
	if len(seen) < len(r.m) {
		return fw.Viol("GetRandomKey returned only %d of %d entries in %d calls", len(seen), len(r.m), limit)
	}
	r.e.Label("random keys cover all entries")
	return nil
}

func (r *dictRun) step(x *modelIter) error {
	if x.done {
		return nil
	}
	if !x.started {
		x.started = true
		x.must, x.returned = map[int]bool{}, map[int]bool{}
		for k := range r.m {
			x.must[k] = true
		}
	}
	en := x.it.Next()
	x.curLive = false
	if en == nil {
		x.done = true
		if len(x.must) > 0 {
			for k := range x.must {
				return fw.Viol("an iteration ended without returning %s (and %d more of %d), which was present from its start to its end", keyName(k), len(x.must)-1, len(r.m))
			}
		}
		return nil
	}
	k := int(keyNum(en.Key))
	v, ok := r.m[k]
	if !ok || en.Key != keyName(k) {
		return fw.Viol("an iteration returned %v, which is not in the table", en.Key)
	}
	if en.Value != v {
		return fw.Viol("an iteration returned %v=%v, the value is %d", en.Key, en.Value, v)
	}
	if x.returned[k] {
		return fw.Viol("an iteration returned %v twice", en.Key)
	}
	x.returned[k] = true
	delete(x.must, k)
	x.cur, x.curLive = k, true
	return nil
}

func (r *dictRun) iter(i int) *modelIter {
	if len(r.iters) == 0 {
		return nil
	}
	return r.iters[i%len(r.iters)]
}

func (r *dictRun) checkAll() error {
	it := datastruct.NewDictIterator(r.d)
	x := &modelIter{it: it}
	for !x.done {
		if err := r.step(x); err != nil {
			return err
		}
	}
	it.Release()
	if len(x.returned) != len(r.m) {
		return fw.Viol("a complete iteration returned %d of %d entries", len(x.returned), len(r.m))
	}
	for k := range r.m {
		if err := r.find(k); err != nil {
			return err
		}
	}
	return nil
}

func (r *dictRun) run(ops []DOp) error {
	resized := 0
	for i, o := range ops {
		before := len(r.m)
		if err := r.one(o); err != nil {
			var v *fw.Violation
			if errors.As(err, &v) {
				v.Msg = fmt.Sprintf("step %d (%s %d %d): %s", i, o.K, o.A, o.N, v.Msg)
			}
			return err
		}
		if n := r.d.Size(); n != int64(len(r.m)) {
			return fw.Viol("after step %d (%s): Size is %d with %d entries", i, o.K, n, len(r.m))
		}
		if len(r.m) > 2*before && before > 0 {
			resized++
		}
	}
	for _, x := range r.iters {
		for !x.done && x.started {
			if err := r.step(x); err != nil {
				return err
			}
		}
		x.it.Release()
	}
	r.iters = nil
	return r.checkAll()
}

func (r *dictRun) one(o DOp) error {
	switch o.K {
	case "set":
		return r.set(o.A)
	case "fill":
		for k := o.A; k < o.A+o.N; k++ {
			if err := r.set(k); err != nil {
				return err
			}
		}
	case "del", "drain":
		if r.running(nil) {
			return nil // only the current entry may be deleted while an iteration runs
		}
		for k := o.A; k < o.A+max(o.N, 1); k++ {
			if err := r.del(k); err != nil {
				return err
			}
		}
	case "find":
		return r.find(o.A)
	case "get":
		return r.get(o.A)
	case "findmany":
		for k := o.A; k < o.A+o.N; k++ {
			if err := r.find(k); err != nil {
				return err
			}
		}
	case "rand":
		for i := 0; i < o.N; i++ {
			if _, err := r.random(); err != nil {
				return err
			}
		}
	case "cover":
		return r.cover()
	case "iter":
		x := &modelIter{it: datastruct.NewDictIterator(r.d)}
		r.iters = append(r.iters, x)
		for i := 0; i < o.N && !x.done; i++ {
			if err := r.step(x); err != nil {
				return err
			}
		}
	case "next":
		if x := r.iter(o.Iter); x != nil {
			for i := 0; i < o.N && !x.done; i++ {
				if err := r.step(x); err != nil {
					return err
				}
			}
			r.e.Label("iteration continued")
		}
	case "delcur":
		x := r.iter(o.Iter)
		if x == nil || r.running(x) {
			return nil
		}
		for i := 0; i < o.N && !x.done; i++ {
			if x.curLive {
				if err := r.del(x.cur); err != nil {
					return err
				}
				r.e.Label("current entry deleted")
			}
			if err := r.step(x); err != nil {
				return err
			}
		}
	case "release":
		if x := r.iter(o.Iter); x != nil {
			x.it.Release()
			for i := range r.iters {
				if r.iters[i] == x {
					r.iters = append(r.iters[:i:i], r.iters[i+1:]...)
					break
				}
			}
			if !x.started {
				r.e.Label("released before the first step")
			}
		}
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C22", InProc: true, Gen: genDict, New: func() any { return &DictCase{} },
		CaseTimeout: 20e9, QuickS: 18, ThoroughS: 300,
		Rule: "random sequences of up to 60 (thorough: 250) operations (set, delete, find, get, random key, bulk fill and drain, iterators opened, advanced, deleting their current entry, released) over 4 to 40000 keys with nine hash functions, also colliding, negative and constant ones; every result compared with a map; non-trivial: at least 4 kinds of operation, a fill or three sets, and a delete or an iterator",
		Run: func(e *fw.Env, c any) error {
			h := c.(*DictCase)
			kinds := map[string]int{}
			for _, o := range h.Ops {
				kinds[o.K]++
			}
			if len(kinds) >= 4 && (kinds["fill"] > 0 || kinds["set"] > 2) && kinds["del"]+kinds["drain"]+kinds["iter"] > 0 {
				e.NonTrivial()
			}
			for k, n := range kinds {
				e.LabelN(k, n)
			}
			seedRand(h.Seed)
			r := &dictRun{d: datastruct.NewDict(dictTypeOf(h.Hash)), m: map[int]int{}, e: e}
			return r.run(h.Ops)
		},
	})
}
