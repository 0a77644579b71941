package main

import (
	"fmt"
	"math"
	"runtime"
	"slices"
	"sort"
	"strings"
	"unsafe"
	"weak"

	"github.com/IfanTsai/metis/database"
	"github.com/IfanTsai/metis/datastruct"
	"pgregory.net/rapid"

	"verifharness/fw"
)

// ---- C43: what has been removed from a container can be collected

// HOp works on a container: A and B are keys, members or positions, N is a number of elements, F a score.
type HOp struct {
	K    string
	A, B int `json:",omitempty"`
	N    int `json:",omitempty"`
}

type HeapCase struct {
	Kind string // list, dict, set, zset, skiplist
	Seed int64
	Ops  []HOp
}

func (c *HeapCase) Steps() int { return len(c.Ops) }
func (c *HeapCase) Without(i, j int) any {
	return &HeapCase{c.Kind, c.Seed, without(c.Ops, i, j)}
}

func genHeap(t *rapid.T, tier int) any {
	c := &HeapCase{Kind: fw.Pick(t, "kind", []string{"list", "list", "dict", "dict", "set", "zset", "skiplist"}), Seed: int64(fw.Rng(t, "seed", 1, 1<<30))}
	sizes := []int{1, 1, 2, 5, 30, 300, 511, 512, 513, 1023, 1024, 1025, 2500}
	max := 14
	if tier == 1 {
		max = 60
		sizes = append(sizes, 6000)
	}
	kinds := map[string][]string{
		"list":     {"front", "back", "popfront", "popback", "insert", "remove", "range", "queue", "drain", "drain", "copy", "swap"},
		"dict":     {"set", "set", "set", "del", "del", "random", "iter", "drain", "drain", "copy", "swap"},
		"set":      {"set", "set", "set", "del", "del", "spop", "iter", "algebra", "drain", "drain", "copy", "swap"},
		"zset":     {"set", "set", "set", "del", "byrank", "byscore", "drain", "drain", "copy", "swap"},
		"skiplist": {"set", "set", "set", "del", "byrank", "byscore", "range", "drain", "drain"},
	}[c.Kind]
	space := fw.Pick(t, "space", []int{10, 400, 4000})
	c.Ops = fw.Seq(t, "ops", 2, max, func(t *rapid.T) HOp {
		return HOp{K: fw.Pick(t, "op", kinds), A: fw.Uni(t, "a", space), B: fw.Uni(t, "b", 50), N: fw.Pick(t, "n", sizes)}
	})
	return c
}

// slack is how many removed objects a container may go on remembering.
const slack = 4

type tracked struct {
	id    int
	name  int
	value weak.Pointer[payload]
	key   weak.Pointer[byte]
	isKey bool
}

type payload struct {
	id   int
	body [100]byte
}

// longName is long enough not to share its allocation with other strings.
func longName(n int) string {
	return fmt.Sprintf("%08d-%s", n, strings.Repeat("x", 60))
}

func nameOf(s string) int {
	n := 0
	fmt.Sscanf(s, "%d-", &n)
	return n
}

// side is a container with its model: the ids of list elements, or the values of names.
type side struct {
	list *datastruct.Quicklist
	dict *datastruct.Dict
	set  *datastruct.Set
	zset *datastruct.Zset
	skip *datastruct.Skiplist

	ids   []int           // list
	value map[int]int     // dict: name -> id of its value
	score map[int]float64 // names that are present, with their scores
}

type heapRun struct {
	c     *HeapCase
	track []tracked
	main  *side
	copy  *side
	next  int
}

func (h *heapRun) newValue() *payload {
	h.next++
	p := &payload{id: h.next}
	h.track = append(h.track, tracked{id: h.next, value: weak.Make(p)})
	return p
}

func (h *heapRun) newKey(name int) string {
	s := longName(name)
	h.track = append(h.track, tracked{name: name, isKey: true, key: weak.Make(unsafe.StringData(s))})
	return s
}

func newSide(kind string) *side {
	s := &side{value: map[int]int{}, score: map[int]float64{}}
	switch kind {
	case "list":
		s.list = datastruct.NewQuicklist()
	case "dict":
		s.dict = datastruct.NewDict(&database.DictType{})
	case "set":
		s.set = datastruct.NewSet(&database.DictType{})
	case "zset":
		s.zset = datastruct.NewZset(&database.DictType{})
	case "skiplist":
		s.skip = datastruct.NewSkiplist()
	}
	return s
}

func scoreFor(name, b int) float64 { return float64((name*7 + b) % 100) }

func (h *heapRun) set(s *side, name, b int) {
	key := h.newKey(name)
	_, had := s.score[name]
	old := s.score[name]
	s.score[name] = scoreFor(name, b)
	switch {
	case s.dict != nil:
		v := h.newValue()
		s.dict.Set(key, v)
		s.value[name] = v.id
	case s.set != nil:
		s.set.Add(key)
	case s.zset != nil:
		s.zset.Add(s.score[name], key)
	default:
		if had {
			s.skip.Delete(old, longName(name))
		}
		s.skip.Insert(s.score[name], key)
	}
}

func (h *heapRun) del(s *side, name int) {
	old, had := s.score[name]
	delete(s.score, name)
	delete(s.value, name)
	switch {
	case s.dict != nil:
		_ = s.dict.Delete(longName(name))
	case s.set != nil:
		_ = s.set.Delete(longName(name))
	case s.zset != nil:
		s.zset.Delete(longName(name))
	default:
		if had {
			s.skip.Delete(old, longName(name))
		}
	}
}

// ordered returns the present names by score and name.
func (s *side) ordered() []int {
	out := s.names()
	sort.SliceStable(out, func(i, j int) bool { return s.score[out[i]] < s.score[out[j]] })
	return out
}

func (s *side) names() []int {
	out := make([]int, 0, len(s.score))
	for n := range s.score {
		out = append(out, n)
	}
	slices.Sort(out)
	return out
}

//go:noinline
func (h *heapRun) apply(o HOp) {
	s := h.main
	if s.list != nil {
		h.applyList(o)
		return
	}
	switch o.K {
	case "set":
		for i := 0; i < o.N; i++ {
			h.set(s, o.A+i, o.B)
		}
	case "del":
		for i := 0; i < o.N; i++ {
			h.del(s, o.A+i)
		}
	case "drain": // all but a few, in the order of the names or the reverse
		names := s.names()
		if o.A%2 == 0 {
			slices.Reverse(names)
		}
		for i := 0; i < len(names)-o.B%4; i++ {
			h.del(s, names[i])
		}
	case "random", "spop":
		for i := 0; i < min(o.N, 20) && len(s.score) > 0; i++ {
			if s.dict != nil {
				if x := s.dict.GetRandomKey(); x != nil && o.B%2 == 0 {
					h.del(s, nameOf(x.Key.(string)))
				}
			} else {
				h.del(s, nameOf(s.set.GetRandom().(string)))
			}
		}
	case "iter":
		d := s.dict
		if d == nil {
			_ = s.set.Range()
			return
		}
		it := datastruct.NewDictIterator(d)
		for i := 0; i < o.A; i++ {
			if it.Next() == nil {
				break
			}
		}
		it.Release()
	case "algebra":
		other := newSide("set")
		for i := 0; i < o.N; i++ {
			h.set(other, o.A+i, 0)
		}
		_ = s.set.Union(other.set).Size() + s.set.Intersect(other.set).Size() + s.set.Difference(other.set).Size()
	case "byrank":
		names := s.ordered()
		if len(names) == 0 {
			return
		}
		a := o.A % len(names)
		b := min(a+o.N-1, len(names)-1)
		if s.zset != nil {
			s.zset.DeleteRangeByRank(int64(a), int64(b))
		} else {
			s.skip.DeleteRangeByRank(int64(a)+1, int64(b)+1)
		}
		for _, n := range names[a : b+1] {
			delete(s.score, n)
		}
	case "byscore":
		lo, hi := float64(o.B), float64(o.B+o.A%20)
		if o.A%7 == 0 {
			hi = math.Inf(1)
		}
		if s.zset != nil {
			s.zset.DeleteRangeByScore(lo, hi)
		} else {
			s.skip.DeleteRangeByScore(lo, hi)
		}
		for _, n := range s.names() {
			if x := s.score[n]; x >= lo && x <= hi {
				delete(s.score, n)
			}
		}
	case "range":
		_ = s.skip.RangeByRank(1, int64(o.N), o.B%2 == 0)
		_ = s.skip.RangeByScore(float64(o.B), float64(o.B+5), -1, o.A%2 == 0)
	case "copy":
		h.copy = newSide(h.c.Kind)
		switch {
		case s.dict != nil:
			h.copy.dict = s.dict.DeepCopy()
		case s.set != nil:
			h.copy.set = s.set.DeepCopy()
		case s.zset != nil:
			h.copy.zset = s.zset.DeepCopy()
		}
		for n, x := range s.score {
			h.copy.score[n] = x
		}
		for n, x := range s.value {
			h.copy.value[n] = x
		}
	case "swap":
		if h.copy != nil {
			h.main, h.copy = h.copy, h.main
		}
	}
}

func (h *heapRun) applyList(o HOp) {
	s := h.main
	switch o.K {
	case "front":
		for i := 0; i < o.N; i++ {
			v := h.newValue()
			s.list.PushFront(v)
			s.ids = slices.Insert(s.ids, 0, v.id)
		}
	case "back":
		for i := 0; i < o.N; i++ {
			v := h.newValue()
			s.list.PushBack(v)
			s.ids = append(s.ids, v.id)
		}
	case "popfront":
		for i := 0; i < o.N && len(s.ids) > 0; i++ {
			s.list.PopFront()
			s.ids = s.ids[1:]
		}
	case "popback":
		for i := 0; i < o.N && len(s.ids) > 0; i++ {
			s.list.PopBack()
			s.ids = s.ids[:len(s.ids)-1]
		}
	case "insert":
		for i := 0; i < min(o.N, 600); i++ {
			v := h.newValue()
			at := (o.A + i*o.B) % (len(s.ids) + 1)
			s.list.Insert(at, v)
			s.ids = slices.Insert(slices.Clone(s.ids), at, v.id)
		}
	case "remove":
		for i := 0; i < min(o.N, 600) && len(s.ids) > 0; i++ {
			at := (o.A + i*o.B) % len(s.ids)
			s.list.Remove(at)
			s.ids = slices.Delete(slices.Clone(s.ids), at, at+1)
		}
	case "drain":
		for len(s.ids) > 1+o.B%4 {
			if o.A%2 == 0 {
				s.list.PopFront()
				s.ids = s.ids[1:]
			} else {
				s.list.PopBack()
				s.ids = s.ids[:len(s.ids)-1]
			}
		}
	case "queue":
		for i := 0; i < o.N; i++ {
			v := h.newValue()
			s.list.PushBack(v)
			s.ids = append(s.ids, v.id)
			s.list.PopFront()
			s.ids = s.ids[1:]
		}
	case "range":
		_ = s.list.Range(0, o.N)
	case "copy":
		h.copy = newSide("list")
		h.copy.list = s.list.DeepCopy()
		h.copy.ids = slices.Clone(s.ids)
	case "swap":
		if h.copy != nil {
			h.main, h.copy = h.copy, h.main
		}
	}
}

// leaks returns how many removed objects are still reachable, and one of them. Objects found gone are forgotten.
//
//go:noinline
func (h *heapRun) leaks() (int, string) {
	ids, names := map[int]bool{}, map[int]bool{}
	for _, s := range []*side{h.main, h.copy} {
		if s == nil {
			continue
		}
		for _, id := range s.ids {
			ids[id] = true
		}
		for _, id := range s.value {
			ids[id] = true
		}
		for n := range s.score {
			names[n] = true
		}
	}
	n, what := 0, ""
	keep := h.track[:0]
	for _, x := range h.track {
		switch {
		case x.isKey && x.key.Value() == nil, !x.isKey && x.value.Value() == nil:
			continue
		case x.isKey && !names[x.name]:
			n++
			what = fmt.Sprintf("the key or member %d, removed,", x.name)
		case !x.isKey && !ids[x.id]:
			n++
			what = fmt.Sprintf("value %d, removed,", x.id)
		}
		keep = append(keep, x)
	}
	h.track = keep
	return n, what
}

func runHeap(e *fw.Env, cc any) error {
	c := cc.(*HeapCase)
	seedRand(c.Seed)
	h := &heapRun{c: c, main: newSide(c.Kind)}
	created := 0
	for i, o := range c.Ops {
		h.apply(o)
		created = h.next + len(h.track)
		if i%4 != 3 && i != len(c.Ops)-1 {
			continue
		}
		n, what := 0, ""
		for try := 0; try < 4; try++ {
			runtime.GC()
			if n, what = h.leaks(); n <= slack {
				break
			}
		}
		if n > slack {
			return fw.Viol("%s: after %d operations %s is still reachable (%d such objects; the container and its copy hold %d and %d)", c.Kind, i+1, what, n, len(h.main.ids)+len(h.main.score), func() int {
				if h.copy == nil {
					return 0
				}
				return len(h.copy.ids) + len(h.copy.score)
			}())
		}
	}
	runtime.KeepAlive(h)
	e.Label(c.Kind)
	e.LabelN("garbage collections", (len(c.Ops)+3)/4)
	if created >= 10 {
		e.NonTrivial()
	}
	return nil
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C43", New: func() any { return &HeapCase{} }, Gen: genHeap, Run: runHeap, InProc: true, QuickS: 18,
		Rule: "histories of 2-14 (thorough 60) bulk operations of up to 2500 elements on a list, hash table, set, sorted set or skiplist and on a copy, over elements that are watched through weak pointers; after every fourth operation and at the end the garbage is collected, and every removed or overwritten element (but for four) must be gone while the containers are still in use; non-trivial: at least 10 elements",
	})
}
