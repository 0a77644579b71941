package rs

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verifharness/fw"
)

// DVal is the observed value of a key.
type DVal struct {
	Kind string
	Str  string
	List []string // list: in order; set, hash keys: sorted; zset: member order as replied
	Vals []string // hash values in the order of List; zset scores
	// Deadline observed: HasD, and the deadline lies in [DLo, DHi].
	HasD     bool
	DLo, DHi int64
}

// Dump is the observed dataset.
type Dump []map[string]*DVal

// TakeDump reads the whole dataset through commands. dbs is the number of databases.
// A malformed or impossible reply is a violation.
func TakeDump(srv *Server, c *Conn, dbs int) (Dump, error) {
	out := make(Dump, dbs)
	fail := func(err error) error { return Classify(srv, "reading the dataset", err) }
	for db := 0; db < dbs; db++ {
		out[db] = map[string]*DVal{}
		if err := c.Write(Encode([]string{"select", strconv.Itoa(db)}) + Encode([]string{"keys", "*"})); err != nil {
			return nil, fail(err)
		}
		r, err := c.Recv()
		if err != nil {
			return nil, fail(err)
		}
		if !r.IsOK() {
			return nil, fw.Viol("select %d replied %s", db, r)
		}
		r, err = c.Recv()
		if err != nil {
			return nil, fail(err)
		}
		if r.Kind != '*' {
			return nil, fw.Viol("keys * replied %s", r)
		}
		var keys []string
		for _, e := range r.Arr {
			keys = append(keys, e.Str)
		}
		sort.Strings(keys)
		for i := 0; i < len(keys); i += 200 {
			j := min(i+200, len(keys))
			if err := dumpKeys(srv, c, keys[i:j], out[db]); err != nil {
				return nil, err
			}
		}
	}
	if err := c.Write(Encode([]string{"select", "0"})); err != nil {
		return nil, fail(err)
	}
	if _, err := c.Recv(); err != nil {
		return nil, fail(err)
	}
	return out, nil
}

var probes = []string{"get", "hlen", "llen", "scard", "zcard"}
var probeKinds = []string{KStr, KHash, KList, KSet, KZset}

func dumpKeys(srv *Server, c *Conn, keys []string, into map[string]*DVal) error {
	fail := func(err error) error { return Classify(srv, "reading the dataset", err) }
	var req string
	t0 := NowMs()
	for _, k := range keys {
		for _, p := range probes {
			req += Encode([]string{p, k})
		}
		req += Encode([]string{"ttl", k})
	}
	if err := c.Write(req); err != nil {
		return fail(err)
	}
	req = ""
	for _, k := range keys {
		v := &DVal{}
		n := 0
		for i := range probes {
			r, err := c.Recv()
			if err != nil {
				return fail(err)
			}
			if r.IsErr() {
				continue
			}
			if (i == 0 && r.Null) || (i > 0 && r.Kind == ':' && r.Int == 0) {
				continue // expired meanwhile
			}
			n++
			v.Kind = probeKinds[i]
			if i == 0 {
				v.Str = r.Str
			}
		}
		r, err := c.Recv()
		if err != nil {
			return fail(err)
		}
		t1 := NowMs()
		if n > 1 {
			return fw.Viol("key %s answers to %d types", fw.Short(k), n)
		}
		if r.Kind != ':' {
			return fw.Viol("ttl of %s replied %s", fw.Short(k), r)
		}
		if n == 0 && r.Int != -2 {
			return fw.Viol("key %s is listed by KEYS and has TTL %d but is absent to all read commands", fw.Short(k), r.Int)
		}
		if n == 0 || r.Int == -2 {
			continue // expired meanwhile
		}
		if r.Int != -1 {
			v.HasD = true
			v.DLo, v.DHi = t0+r.Int*1000, t1+r.Int*1000+1000
		}
		into[k] = v
		switch v.Kind {
		case KHash:
			req += Encode([]string{"hkeys", k})
		case KList:
			req += Encode([]string{"lrange", k, "0", "-1"})
		case KSet:
			req += Encode([]string{"smembers", k})
		case KZset:
			req += Encode([]string{"zrange", k, "0", "100000000", "withscores"})
		}
	}
	if req == "" {
		return nil
	}
	if err := c.Write(req); err != nil {
		return fail(err)
	}
	var hgets strings.Builder
	for _, k := range keys {
		v := into[k]
		if v == nil || v.Kind == KStr {
			continue
		}
		r, err := c.Recv()
		if err != nil {
			return fail(err)
		}
		if r.Kind != '*' {
			if r.Null {
				delete(into, k)
				continue
			}
			return fw.Viol("reading %s %s replied %s", v.Kind, fw.Short(k), r)
		}
		if len(r.Arr) == 0 {
			delete(into, k) // expired meanwhile
			continue
		}
		for _, e := range r.Arr {
			v.List = append(v.List, e.Str)
		}
		switch v.Kind {
		case KZset:
			var m, s []string
			for i := 0; i+1 < len(v.List); i += 2 {
				m = append(m, v.List[i])
				f, err := strconv.ParseFloat(v.List[i+1], 64)
				if err != nil {
					return fw.Viol("score of %s in %s is %s", fw.Short(v.List[i]), fw.Short(k), fw.Short(v.List[i+1]))
				}
				s = append(s, fmtScore(f))
			}
			v.List, v.Vals = m, s
		case KSet, KHash:
			sort.Strings(v.List)
			for i := 1; i < len(v.List); i++ {
				if v.List[i] == v.List[i-1] {
					return fw.Viol("%s %s lists %s twice", v.Kind, fw.Short(k), fw.Short(v.List[i]))
				}
			}
			if v.Kind == KHash {
				for _, f := range v.List {
					hgets.WriteString(Encode([]string{"hget", k, f}))
				}
			}
		}
	}
	if hgets.Len() == 0 {
		return nil
	}
	if err := c.Write(hgets.String()); err != nil {
		return fail(err)
	}
	for _, k := range keys {
		v := into[k]
		if v == nil || v.Kind != KHash {
			continue
		}
		for range v.List {
			r, err := c.Recv()
			if err != nil {
				return fail(err)
			}
			v.Vals = append(v.Vals, r.Str)
		}
	}
	return nil
}

// fmtScore writes a score so that equal scores are equal strings (-0 equals 0).
func fmtScore(f float64) string {
	if f == 0 {
		return "0"
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (v *DVal) show() string {
	s := v.Kind
	switch v.Kind {
	case KStr:
		s += " " + fw.Short(v.Str)
	default:
		s += fmt.Sprintf("(%d) %s", len(v.List), fw.Shorts(v.List))
		if v.Vals != nil {
			s += " -> " + fw.Shorts(v.Vals)
		}
	}
	return s
}

// DiffOpts controls the comparison of dumps.
type DiffOpts struct {
	// Deadlines within this many ms of each other are equal.
	Tol int64
	// Keys whose deadline is before this time are ignored on both sides (they may or may not have expired).
	Near int64
	// IgnoreDeadlines compares values only.
	IgnoreDeadlines bool
}

// Diff describes the first difference between two dumps, or "".
func Diff(a, b Dump, o DiffOpts) string {
	for db := range a {
		for k, v := range a[db] {
			if v.HasD && v.DLo-1000 <= o.Near {
				continue
			}
			w := b[db][k]
			if w == nil {
				return fmt.Sprintf("database %d: key %s (%s) is missing", db, fw.Short(k), v.show())
			}
			if v.Kind != w.Kind || v.Str != w.Str || !same(v.List, w.List) || !same(v.Vals, w.Vals) {
				return fmt.Sprintf("database %d: key %s was %s, is %s%s", db, fw.Short(k), v.show(), w.show(), firstDiff(v, w))
			}
			if o.IgnoreDeadlines {
				continue
			}
			if v.HasD != w.HasD {
				return fmt.Sprintf("database %d: key %s (%s): had a deadline: %v, has one: %v", db, fw.Short(k), v.Kind, v.HasD, w.HasD)
			}
			if v.HasD && (w.DLo > v.DHi+o.Tol || w.DHi < v.DLo-o.Tol) {
				return fmt.Sprintf("database %d: key %s (%s): deadline was in [%d,%d], is in [%d,%d]", db, fw.Short(k), v.Kind, v.DLo, v.DHi, w.DLo, w.DHi)
			}
		}
		for k, w := range b[db] {
			if w.HasD && w.DLo-1000 <= o.Near {
				continue
			}
			if a[db][k] == nil {
				return fmt.Sprintf("database %d: key %s (%s) appeared", db, fw.Short(k), w.show())
			}
		}
	}
	return ""
}

func firstDiff(v, w *DVal) string {
	for i := range v.List {
		if i >= len(w.List) || v.List[i] != w.List[i] {
			return fmt.Sprintf(" (first difference at element %d: %s)", i, fw.Short(v.List[i]))
		}
	}
	return ""
}

// Observe turns the model into a dump, as a faultless server would show it at time now.
func (m *Model) Observe(now int64) Dump {
	out := make(Dump, len(m.DBs))
	for i, d := range m.DBs {
		out[i] = map[string]*DVal{}
		for k, v := range d {
			if v.HasD && v.DHi < now {
				continue
			}
			x := &DVal{Kind: v.Kind, Str: v.Str, HasD: v.HasD, DLo: v.DLo, DHi: v.DHi}
			switch v.Kind {
			case KList:
				x.List = append([]string(nil), v.List...)
			case KSet:
				x.List = setKeys(v.Set)
				sort.Strings(x.List)
			case KHash:
				for f := range v.Hash {
					x.List = append(x.List, f)
				}
				sort.Strings(x.List)
				for _, f := range x.List {
					x.Vals = append(x.Vals, v.Hash[f])
				}
			case KZset:
				for _, e := range zsorted(v.Z) {
					x.List = append(x.List, e.m)
					x.Vals = append(x.Vals, fmtScore(e.s))
				}
			}
			out[i][k] = x
		}
	}
	return out
}
