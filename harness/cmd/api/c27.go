package main

import (
	"fmt"
	"maps"
	"slices"

	"github.com/IfanTsai/metis/database"
	"github.com/IfanTsai/metis/datastruct"
	"pgregory.net/rapid"

	"verifharness/fw"
)

// ---- C27: database copies

// BOp works on key A of database D. Value types: 0 string, 1 list, 2 hash, 3 set, 4 sorted set.
type BOp struct {
	D    int `json:",omitempty"`
	K    string
	A    int   `json:",omitempty"`
	T    int   `json:",omitempty"`
	F, N int   `json:",omitempty"` // first element and number of elements
	S    Score `json:",omitempty"`
}

type CopyCase struct {
	Seed int64
	ID   int
	Ops  []BOp
}

func (c *CopyCase) Steps() int { return len(c.Ops) }
func (c *CopyCase) Without(i, j int) any {
	return &CopyCase{c.Seed, c.ID, without(c.Ops, i, j)}
}

var typeNames = []string{"string", "list", "hash", "set", "zset"}

type modelVal struct {
	typ  int
	str  string
	list []string
	hash map[int]string
	set  map[int]bool
	z    map[string]float64
}

func (v *modelVal) clone() *modelVal {
	return &modelVal{v.typ, v.str, slices.Clone(v.list), maps.Clone(v.hash), maps.Clone(v.set), maps.Clone(v.z)}
}

type modelDB struct {
	keys   map[int]*modelVal
	expire map[int]int64
}

func (m *modelDB) clone() *modelDB {
	n := &modelDB{map[int]*modelVal{}, maps.Clone(m.expire)}
	for k, v := range m.keys {
		n.keys[k] = v.clone()
	}
	return n
}

type dbPair struct {
	db *database.Databse
	m  *modelDB
}

// change adds N elements from F to the value (or removes them).
func (p *dbPair) change(o BOp, n *int) {
	key := keyName(o.A)
	v := p.m.keys[o.A]
	if v == nil {
		v = &modelVal{typ: o.T, hash: map[int]string{}, set: map[int]bool{}, z: map[string]float64{}}
		p.m.keys[o.A] = v
		var x any
		switch o.T {
		case 0:
			x = ""
		case 1:
			x = datastruct.NewQuicklist()
		case 2:
			x = datastruct.NewDict(&database.DictType{})
		case 3:
			x = datastruct.NewSet(&database.DictType{})
		default:
			x = datastruct.NewZset(&database.DictType{})
		}
		p.db.Dict.Set(key, x)
	}
	x := p.db.Dict.Get(key)
	for i := o.F; i < o.F+max(1, o.N); i++ {
		*n++
		s := fmt.Sprintf("v%d", *n)
		switch v.typ {
		case 0:
			p.db.Dict.Set(key, s)
			v.str = s
		case 1:
			q := x.(*datastruct.Quicklist)
			switch {
			case o.K == "shrink" && len(v.list) > 0:
				at := o.F % len(v.list)
				q.Remove(at)
				v.list = slices.Delete(v.list, at, at+1)
			case o.F%3 == 0:
				q.PushFront(s)
				v.list = slices.Insert(v.list, 0, s)
			case o.F%3 == 1:
				at := i % (len(v.list) + 1)
				q.Insert(at, s)
				v.list = slices.Insert(v.list, at, s)
			default:
				q.PushBack(s)
				v.list = append(v.list, s)
			}
		case 2:
			h := x.(*datastruct.Dict)
			if o.K == "shrink" {
				_ = h.Delete(keyName(i))
				delete(v.hash, i)
			} else {
				h.Set(keyName(i), s)
				v.hash[i] = s
			}
		case 3:
			st := x.(*datastruct.Set)
			if o.K == "shrink" {
				_ = st.Delete(keyName(i))
				delete(v.set, i)
			} else {
				st.Add(keyName(i))
				v.set[i] = true
			}
		default:
			z := x.(*datastruct.Zset)
			if o.K == "shrink" {
				z.Delete(memberName(i))
				delete(v.z, memberName(i))
			} else {
				z.Add(fillScore(o.F%4, i, float64(o.S)), memberName(i))
				v.z[memberName(i)] = fillScore(o.F%4, i, float64(o.S))
			}
		}
	}
}

func (p *dbPair) one(o BOp, n *int) {
	key := keyName(o.A)
	switch o.K {
	case "grow", "shrink":
		p.change(o, n)
	case "del":
		for i := o.A; i < o.A+max(1, o.N); i++ {
			_ = p.db.Dict.Delete(keyName(i))
			_ = p.db.Expire.Delete(keyName(i))
			delete(p.m.keys, i)
			delete(p.m.expire, i)
		}
	case "many": // string keys
		for i := o.A; i < o.A+o.N; i++ {
			if v := p.m.keys[i]; v == nil || v.typ == 0 {
				p.change(BOp{K: "grow", A: i}, n)
			}
		}
	case "expire":
		for i := o.A; i < o.A+max(1, o.N); i++ {
			if p.m.keys[i] != nil {
				*n++
				p.db.Expire.Set(keyName(i), int64(*n))
				p.m.expire[i] = int64(*n)
			}
		}
	case "persist":
		_ = p.db.Expire.Delete(key)
		delete(p.m.expire, o.A)
	case "touch": // lookups move a resize forward
		for i := 0; i < o.N; i++ {
			_ = p.db.Dict.Find(keyName(o.A))
			_ = p.db.Expire.Find(keyName(o.A))
			if h, ok := p.db.Dict.Get(key).(*datastruct.Dict); ok {
				_ = h.Find("x")
			}
		}
	}
}

func (p *dbPair) equal(id int) error {
	if p.db.ID != id {
		return fw.Viol("the database id is %d, want %d", p.db.ID, id)
	}
	if p.db.Dict.Size() != int64(len(p.m.keys)) || p.db.Expire.Size() != int64(len(p.m.expire)) {
		return fw.Viol("%d keys with %d deadlines, want %d with %d", p.db.Dict.Size(), p.db.Expire.Size(), len(p.m.keys), len(p.m.expire))
	}
	seen := 0
	it := datastruct.NewDictIterator(p.db.Dict)
	for en := it.Next(); en != nil; en = it.Next() {
		seen++
		k := int(keyNum(en.Key))
		v := p.m.keys[k]
		if v == nil || en.Key != keyName(k) {
			it.Release()
			return fw.Viol("unexpected key %v", en.Key)
		}
		if err := valueEqual(en.Value, v); err != nil {
			it.Release()
			return wrapViol(err, fmt.Sprintf("%s %v: ", typeNames[v.typ], en.Key))
		}
	}
	it.Release()
	if seen != len(p.m.keys) {
		return fw.Viol("%d keys listed, want %d", seen, len(p.m.keys))
	}
	for k := range p.m.keys {
		if p.db.Dict.Find(keyName(k)) == nil {
			return fw.Viol("key %s is not found", keyName(k))
		}
	}
	for k, want := range p.m.expire {
		if got := p.db.Expire.Get(keyName(k)); got != want {
			return fw.Viol("deadline of %s is %v, want %d", keyName(k), got, want)
		}
	}
	return nil
}

func valueEqual(x any, v *modelVal) error {
	switch v.typ {
	case 0:
		if x != v.str {
			return fw.Viol("value %v, want %q", x, v.str)
		}
	case 1:
		q, ok := x.(*datastruct.Quicklist)
		if !ok {
			return fw.Viol("value is a %T", x)
		}
		if q.Len() != len(v.list) {
			return fw.Viol("Len is %d, want %d", q.Len(), len(v.list))
		}
		it := datastruct.NewQuicklistIterator(q)
		for i, w := range v.list {
			if got := it.Next(); got != w {
				return fw.Viol("element %d of %d is %v, want %q", i, len(v.list), got, w)
			}
		}
		for _, i := range []int{0, len(v.list) / 3, len(v.list) / 2, len(v.list) - 1} {
			if i >= 0 && i < len(v.list) && q.Get(i) != v.list[i] {
				return fw.Viol("Get(%d) of %d is %v, want %q", i, len(v.list), q.Get(i), v.list[i])
			}
		}
	case 2:
		h, ok := x.(*datastruct.Dict)
		if !ok {
			return fw.Viol("value is a %T", x)
		}
		if h.Size() != int64(len(v.hash)) {
			return fw.Viol("Size is %d, want %d", h.Size(), len(v.hash))
		}
		for f, w := range v.hash {
			if got := h.Get(keyName(f)); got != w {
				return fw.Viol("field %s is %v, want %q", keyName(f), got, w)
			}
		}
	case 3:
		s, ok := x.(*datastruct.Set)
		if !ok {
			return fw.Viol("value is a %T", x)
		}
		if err := setEqual(s, v.set); err != nil {
			return err
		}
		return setContains(s, v.set)
	default:
		z, ok := x.(*datastruct.Zset)
		if !ok {
			return fw.Viol("value is a %T", x)
		}
		r := &zsetRun{z: z}
		for m, s := range v.z {
			r.q = append(r.q, pair{s, m})
		}
		slices.SortFunc(r.q, cmpPair)
		return r.all()
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C27", InProc: true, New: func() any { return &CopyCase{} },
		CaseTimeout: 20e9, QuickS: 18, ThoroughS: 300,
		Rule: "random histories of up to 60 (thorough: 200) operations on a database and its copies (values of all types created, grown, shrunk, deleted, deadlines set and removed, bulk keys, lookups that move a resize forward); a copy is made at any point, also of a copy, and every database is compared with its own model after the history and right after most copies; non-trivial: a copy of at least two keys, followed by a change",
		Gen: func(t *rapid.T, tier int) any {
			c := &CopyCase{Seed: int64(fw.Uni(t, "seed", 1<<16)), ID: fw.Uni(t, "id", 20)}
			n := 60
			if tier == 1 {
				n = 200
			}
			fill := fw.Pick(t, "fill", []int{1, 5, 40, 600})
			dbs := 1
			c.Ops = fw.Seq(t, "ops", 3, n, func(t *rapid.T) BOp {
				o := BOp{D: fw.Uni(t, "db", dbs), A: fw.Uni(t, "key", 8)}
				switch k := fw.Uni(t, "op", 16); {
				case k < 6:
					o.K, o.T, o.F, o.N = "grow", fw.Uni(t, "type", 5), fw.Uni(t, "f", 2*fill), fw.Rng(t, "n", 1, fill)
					o.S = Score(fw.Rng(t, "score", -3, 3))
				case k < 9:
					o.K, o.F, o.N = "shrink", fw.Uni(t, "f", 2*fill), fw.Rng(t, "n", 1, fill)
				case k == 9:
					o.K, o.N = "del", fw.Pick(t, "n", []int{1, 1, 1, 4})
				case k == 10:
					o.K, o.N = "many", fw.Rng(t, "n", 1, 3*fill)
					o.A = 8 + fw.Uni(t, "key", 100)
				case k == 11:
					o.K, o.N = "expire", fw.Pick(t, "n", []int{1, 1, 8, 100})
				case k == 12:
					o.K = "persist"
				case k == 13:
					o.K, o.N = "touch", fw.Rng(t, "n", 1, 20)
				default:
					o.K, o.N = "copy", fw.Uni(t, "compare", 3)
					dbs = min(dbs+1, 4)
				}
				return o
			})
			return c
		},
		Run: func(e *fw.Env, c any) error {
			h := c.(*CopyCase)
			seedRand(h.Seed)
			dbs := []*dbPair{{database.NewDatabase(h.ID), &modelDB{map[int]*modelVal{}, map[int]int64{}}}}
			n, copied := 0, false
			for i, o := range h.Ops {
				p := dbs[o.D%len(dbs)]
				e.Label("%s", o.K)
				if o.K != "copy" {
					if copied {
						e.NonTrivial()
					}
					p.one(o, &n)
					continue
				}
				if len(dbs) == 4 {
					continue
				}
				d := &dbPair{p.db.DeepCopy(), p.m.clone()}
				if d.db == p.db {
					return fw.Viol("DeepCopy returns the database itself")
				}
				copied = copied || len(p.m.keys) >= 2
				dbs = append(dbs, d)
				if o.N == 0 { // comparing moves a resize forward, so not always
					continue
				}
				if err := d.equal(h.ID); err != nil {
					return wrapViol(err, fmt.Sprintf("copy made at step %d: ", i))
				}
				if err := p.equal(h.ID); err != nil {
					return wrapViol(err, fmt.Sprintf("original after the copy at step %d: ", i))
				}
			}
			for i, p := range dbs {
				if err := p.equal(h.ID); err != nil {
					return wrapViol(err, fmt.Sprintf("database %d of %d at the end: ", i, len(dbs)))
				}
			}
			return nil
		},
	})
}
