package rs

import (
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"verifharness/fw"
)

// Kinds of values.
const (
	KStr  = "string"
	KHash = "hash"
	KList = "list"
	KSet  = "set"
	KZset = "zset"
)

// Val is a value of the reference model.
type Val struct {
	Kind string
	Str  string
	Hash map[string]string
	List []string
	Set  map[string]bool
	Z    map[string]float64
	// The deadline in milliseconds lies in [DLo, DHi]; HasD tells whether there is one.
	HasD     bool
	DLo, DHi int64
	wide     bool
}

func (v *Val) size() int {
	switch v.Kind {
	case KHash:
		return len(v.Hash)
	case KList:
		return len(v.List)
	case KSet:
		return len(v.Set)
	case KZset:
		return len(v.Z)
	}
	return 1
}

func (v *Val) clone() *Val {
	w := *v
	if v.Hash != nil {
		w.Hash = map[string]string{}
		for k, x := range v.Hash {
			w.Hash[k] = x
		}
	}
	if v.Set != nil {
		w.Set = map[string]bool{}
		for k := range v.Set {
			w.Set[k] = true
		}
	}
	if v.Z != nil {
		w.Z = map[string]float64{}
		for k, x := range v.Z {
			w.Z[k] = x
		}
	}
	w.List = append([]string(nil), v.List...)
	return &w
}

// Sess is the state of one connection.
type Sess struct {
	DB   int
	Auth bool
}

// Model is the reference model of the whole server.
type Model struct {
	DBs  []map[string]*Val
	Pass string
}

func NewModel(dbs int, pass string) *Model {
	if dbs <= 0 {
		dbs = 16
	}
	m := &Model{Pass: pass}
	for i := 0; i < dbs; i++ {
		m.DBs = append(m.DBs, map[string]*Val{})
	}
	return m
}

func (m *Model) Clone() *Model {
	n := &Model{Pass: m.Pass}
	for _, d := range m.DBs {
		e := map[string]*Val{}
		for k, v := range d {
			e[k] = v.clone()
		}
		n.DBs = append(n.DBs, e)
	}
	return n
}

func (m *Model) Keys() int {
	n := 0
	for _, d := range m.DBs {
		n += len(d)
	}
	return n
}

// NowMs is the wall clock.
func NowMs() int64 { return time.Now().UnixMilli() }

// get returns the live value of a key; it drops an expired one. amb: expired or not, depending on the exact time.
func (m *Model) get(db int, key string, t0, t1 int64) (v *Val, amb bool) {
	v = m.DBs[db][key]
	if v == nil {
		return nil, false
	}
	if !v.HasD || v.DLo > t1+2 {
		return v, false
	}
	if v.DHi < t0-2 {
		delete(m.DBs[db], key)
		return nil, false
	}
	return v, true
}

// Ambiguous tells whether some deadline lies within slack ms of now, so that the model cannot tell what is visible.
// It returns the latest such deadline.
func (m *Model) Ambiguous(now, slack int64) (int64, bool) {
	var until int64
	found := false
	for _, d := range m.DBs {
		for _, v := range d {
			if v.HasD && v.DLo-slack <= now && now <= v.DHi+slack {
				found = true
				if v.DHi+slack > until {
					until = v.DHi + slack
				}
			}
		}
	}
	return until, found
}

// Purge drops the keys that are surely expired at time t.
func (m *Model) Purge(t int64) {
	for _, d := range m.DBs {
		for k, v := range d {
			if v.HasD && v.DHi < t-2 {
				delete(d, k)
			}
		}
	}
}

// Widen accounts for a restart: the log has whole seconds, so that a deadline may be up to a second earlier.
func (m *Model) Widen() {
	for _, d := range m.DBs {
		for _, v := range d {
			if v.HasD && !v.wide {
				v.DLo -= 1000
				v.wide = true
			}
		}
	}
}

// NextDeadline is the earliest deadline after now, or 0.
func (m *Model) NextDeadline(now int64) int64 {
	var best int64
	for _, d := range m.DBs {
		for _, v := range d {
			if v.HasD && v.DHi > now && (best == 0 || v.DHi < best) {
				best = v.DHi
			}
		}
	}
	return best
}

// expectations

type exp struct {
	ok   func(r Reply) bool
	desc string
}

func xInt(n int) exp {
	return exp{func(r Reply) bool { return r.Kind == ':' && r.Int == int64(n) }, ":" + strconv.Itoa(n)}
}

var xOK = exp{func(r Reply) bool { return r.IsOK() }, "+OK"}
var xErr = exp{func(r Reply) bool { return r.IsErr() }, "an error"}
var xNull = exp{func(r Reply) bool { return r.Null }, "null"}
var xEmpty = exp{func(r Reply) bool { return r.Null || (r.Kind == '*' && len(r.Arr) == 0) }, "null or an empty array"}

func xBulk(s string) exp {
	return exp{func(r Reply) bool { return r.Kind == '$' && !r.Null && r.Str == s }, fw.Short(s)}
}

func xList(ss []string) exp {
	if len(ss) == 0 {
		return xEmpty
	}
	return exp{func(r Reply) bool {
		if r.Kind != '*' || r.Null || len(r.Arr) != len(ss) {
			return false
		}
		for i, e := range r.Arr {
			if e.Kind != '$' || e.Null || e.Str != ss[i] {
				return false
			}
		}
		return true
	}, fw.Shorts(ss)}
}

func xMulti(ss []string) exp {
	if len(ss) == 0 {
		return xEmpty
	}
	sort.Strings(ss)
	return exp{func(r Reply) bool {
		if r.Kind != '*' || r.Null || len(r.Arr) != len(ss) {
			return false
		}
		got := make([]string, len(ss))
		for i, e := range r.Arr {
			if e.Kind != '$' || e.Null {
				return false
			}
			got[i] = e.Str
		}
		sort.Strings(got)
		for i := range got {
			if got[i] != ss[i] {
				return false
			}
		}
		return true
	}, "in any order " + fw.Shorts(ss)}
}

type zel struct {
	m string
	s float64
}

func zsorted(z map[string]float64) []zel {
	out := make([]zel, 0, len(z))
	for m, s := range z {
		out = append(out, zel{m, s})
	}
	sort.Slice(out, func(a, b int) bool {
		if out[a].s != out[b].s {
			return out[a].s < out[b].s
		}
		return out[a].m < out[b].m
	})
	return out
}

func xZ(els []zel, scores bool) exp {
	if len(els) == 0 {
		return xEmpty
	}
	var d []string
	for _, e := range els {
		d = append(d, e.m)
		if scores {
			d = append(d, strconv.FormatFloat(e.s, 'g', -1, 64))
		}
	}
	return exp{func(r Reply) bool {
		if r.Kind != '*' || r.Null || len(r.Arr) != len(d) {
			return false
		}
		for i, e := range r.Arr {
			if e.Kind != '$' || e.Null {
				return false
			}
			if scores && i%2 == 1 {
				f, err := strconv.ParseFloat(e.Str, 64)
				if err != nil || f != els[i/2].s {
					return false
				}
			} else if e.Str != d[i] {
				return false
			}
		}
		return true
	}, fw.Shorts(d)}
}

func xScore(s float64) exp {
	return exp{func(r Reply) bool {
		if (r.Kind != '$' && r.Kind != '+') || r.Null {
			return false
		}
		f, err := strconv.ParseFloat(r.Str, 64)
		return err == nil && f == s
	}, "score " + strconv.FormatFloat(s, 'g', -1, 64)}
}

// arity of the commands (as documented by the command table: negative means at least).
var arity = map[string]int{
	"ping": 1, "select": 2, "auth": 2, "bgrewriteaof": 1, "expire": 3, "expireat": 3, "ttl": 2, "keys": 2,
	"del": -2, "set": -3, "setex": 4, "get": 2, "randomget": 1, "hset": -4, "hget": 3, "hdel": -3, "hexists": 3, "hkeys": 2, "hlen": 2,
	"lpush": -3, "rpush": -3, "lpop": 2, "rpop": 2, "llen": 2, "lindex": 3, "lrange": -4,
	"sadd": -3, "srem": -3, "spop": 2, "scard": 2, "sismember": 3, "smembers": 2, "sdiff": -3, "sinter": -3, "sunion": -3,
	"zadd": -4, "zrange": -4, "zrangebyscore": -4, "zrem": -3, "zremrangebyrank": -4, "zremrangebyscore": -4,
	"zcard": 2, "zcount": 4, "zscore": 3,
}

// Commands is the list of command names.
var Commands []string

func init() {
	for c := range arity {
		Commands = append(Commands, c)
	}
	sort.Strings(Commands)
}

func Arity(c string) int { return arity[c] }

func parseF(s string) (float64, bool) {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsNaN(f) {
		return 0, false
	}
	return f, true
}

// seconds that must be accepted, and those that cannot be; what lies between may be refused
const (
	maxExpire  = math.MaxInt64 / 1000 / 4
	overExpire = math.MaxInt64 / 1000
)

// seconds parses the seconds of a deadline.
func seconds(str string, r Reply) (int64, bool) {
	n, ok := parseI(str)
	if !ok || n > overExpire || n < -overExpire {
		return 0, false
	}
	return n, n <= maxExpire && n >= -maxExpire || !r.IsErr()
}

func parseI(s string) (int64, bool) {
	n, err := strconv.ParseInt(s, 10, 64)
	return n, err == nil
}

// Step checks the reply to a command and applies the command to the model. t0 and t1 bound the time of execution.
// The error is a violation, or fw.ErrInconclusive if a deadline falls between t0 and t1.
func (m *Model) Step(s *Sess, args []string, r Reply, t0, t1 int64) error {
	e, amb := m.step(s, args, r, t0, t1)
	if amb {
		return fw.ErrInconclusive
	}
	if !e.ok(r) {
		return fw.Viol("%s in database %d replied %s, expected %s", fw.Shorts(args), s.DB, r, e.desc)
	}
	return nil
}

// Expect is Step with only the expectation: it returns its description and whether the reply matches.
func (m *Model) step(s *Sess, args []string, r Reply, t0, t1 int64) (exp, bool) {
	name := strings.ToLower(args[0])
	ar, known := arity[name]
	if !known {
		return xErr, false
	}
	if (ar > 0 && len(args) != ar) || len(args) < -ar {
		return xErr, false
	}
	if m.Pass != "" && !s.Auth && name != "auth" {
		return xErr, false
	}
	db := m.DBs[s.DB]
	key := ""
	if len(args) > 1 {
		key = args[1]
	}
	// obtain returns the value of the given kind, or nil; wrong: other kind
	obtain := func(k, kind string) (v *Val, wrong, amb bool) {
		v, amb = m.get(s.DB, k, t0, t1)
		if v != nil && v.Kind != kind {
			return nil, true, amb
		}
		return v, false, amb
	}
	create := func(kind string) *Val {
		v := &Val{Kind: kind}
		switch kind {
		case KHash:
			v.Hash = map[string]string{}
		case KSet:
			v.Set = map[string]bool{}
		case KZset:
			v.Z = map[string]float64{}
		}
		db[key] = v
		return v
	}
	drop := func(v *Val) {
		if v.size() == 0 {
			delete(db, key)
		}
	}
	switch name {
	case "ping":
		return exp{func(r Reply) bool { return r.Kind == '+' && r.Str == "PONG" }, "+PONG"}, false
	case "auth":
		if m.Pass == "" || args[1] == m.Pass {
			s.Auth = true
			return xOK, false
		}
		s.Auth = false
		return xErr, false
	case "select":
		n, err := strconv.Atoi(args[1])
		if err != nil || n < 0 || n >= len(m.DBs) {
			return xErr, false
		}
		s.DB = n
		return xOK, false
	case "bgrewriteaof":
		return exp{func(Reply) bool { return true }, "anything"}, false
	case "del":
		n := 0
		for _, k := range args[1:] {
			v, amb := m.get(s.DB, k, t0, t1)
			if amb {
				return xErr, true
			}
			if v != nil {
				delete(db, k)
				n++
			}
		}
		return xInt(n), false
	case "set":
		if len(args) == 5 && strings.EqualFold(args[3], "exat") {
			n, ok := seconds(args[4], r)
			if !ok {
				return xErr, false
			}
			db[key] = &Val{Kind: KStr, Str: args[2], HasD: true, DLo: n * 1000, DHi: n * 1000}
			return xOK, false
		}
		db[key] = &Val{Kind: KStr, Str: args[2]}
		return xOK, false
	case "setex":
		n, ok := seconds(args[2], r)
		if !ok {
			return xErr, false
		}
		db[key] = &Val{Kind: KStr, Str: args[3], HasD: true, DLo: t0 + n*1000, DHi: t1 + n*1000}
		return xOK, false
	case "expire", "expireat":
		n, ok := seconds(args[2], r)
		if !ok {
			return xErr, false
		}
		v, amb := m.get(s.DB, key, t0, t1)
		if amb {
			return xErr, true
		}
		if v == nil {
			return exp{func(r Reply) bool { return !r.IsErr() }, "no error"}, false
		}
		v.HasD = true
		v.wide = false
		if name == "expire" {
			v.DLo, v.DHi = t0+n*1000, t1+n*1000
		} else {
			v.DLo, v.DHi = n*1000, n*1000
		}
		return exp{func(r Reply) bool { return r.IsOK() || (r.Kind == ':' && r.Int == 1) }, "+OK"}, false
	case "ttl":
		v, amb := m.get(s.DB, key, t0, t1)
		if amb {
			return xErr, true
		}
		if v == nil {
			return xInt(-2), false
		}
		if !v.HasD {
			return xInt(-1), false
		}
		lo, hi := (v.DLo-t1)/1000-1, (v.DHi-t0)/1000+1
		return exp{func(r Reply) bool { return r.Kind == ':' && r.Int >= lo && r.Int <= hi && r.Int >= 0 },
			"about " + strconv.FormatInt((v.DLo-t1)/1000, 10)}, false
	case "get":
		v, wrong, amb := obtain(key, KStr)
		switch {
		case wrong:
			return xErr, amb
		case v == nil:
			return xNull, amb
		}
		return xBulk(v.Str), amb
	case "keys":
		var out []string
		if key != "*" {
			if _, err := regexp.Compile(key); err != nil {
				return exp{func(r Reply) bool { return r.IsErr() || (r.Kind == '*' && len(r.Arr) == 0) }, "an error"}, false
			}
		}
		for k := range db {
			v, amb := m.get(s.DB, k, t0, t1)
			if amb {
				return xErr, true
			}
			if v == nil {
				continue
			}
			if key == "*" || regexp.MustCompile(key).MatchString(k) {
				out = append(out, k)
			}
		}
		return xMulti(out), false
	case "randomget":
		n := 0
		for k := range db {
			v, amb := m.get(s.DB, k, t0, t1)
			if amb {
				return xErr, true
			}
			if v != nil {
				n++
			}
		}
		if n == 0 {
			return xNull, false
		}
		return exp{func(r Reply) bool { return r.Kind == '$' && !r.Null && db[r.Str] != nil }, "one of the live keys"}, false
	case "hset":
		if len(args)%2 != 0 {
			return xErr, false
		}
		v, wrong, amb := obtain(key, KHash)
		if amb || wrong {
			return xErr, amb
		}
		if v == nil {
			v = create(KHash)
		}
		n := 0
		for i := 2; i < len(args); i += 2 {
			if _, ok := v.Hash[args[i]]; !ok {
				n++
			}
			v.Hash[args[i]] = args[i+1]
		}
		return xInt(n), false
	case "hget", "hexists", "hkeys", "hlen", "hdel":
		v, wrong, amb := obtain(key, KHash)
		if amb || wrong {
			return xErr, amb
		}
		if v == nil {
			v = &Val{Kind: KHash}
		}
		switch name {
		case "hget":
			if x, ok := v.Hash[args[2]]; ok {
				return xBulk(x), false
			}
			return xNull, false
		case "hexists":
			if _, ok := v.Hash[args[2]]; ok {
				return xInt(1), false
			}
			return xInt(0), false
		case "hkeys":
			var out []string
			for f := range v.Hash {
				out = append(out, f)
			}
			return xMulti(out), false
		case "hlen":
			return xInt(len(v.Hash)), false
		}
		n := 0
		for _, f := range args[2:] {
			if _, ok := v.Hash[f]; ok {
				delete(v.Hash, f)
				n++
			}
		}
		drop(v)
		return xInt(n), false
	case "lpush", "rpush":
		v, wrong, amb := obtain(key, KList)
		if amb || wrong {
			return xErr, amb
		}
		if v == nil {
			v = create(KList)
		}
		if name == "rpush" {
			v.List = append(v.List, args[2:]...)
		} else {
			n := make([]string, 0, len(v.List)+len(args)-2)
			for i := len(args) - 1; i >= 2; i-- {
				n = append(n, args[i])
			}
			v.List = append(n, v.List...)
		}
		return xInt(len(v.List)), false
	case "lpop", "rpop", "llen", "lindex", "lrange":
		v, wrong, amb := obtain(key, KList)
		if amb || wrong {
			return xErr, amb
		}
		none := v == nil
		if none {
			v = &Val{Kind: KList}
		}
		n := len(v.List)
		switch name {
		case "llen":
			return xInt(n), false
		case "lpop", "rpop":
			if n == 0 {
				return xNull, false
			}
			var x string
			if name == "lpop" {
				x, v.List = v.List[0], v.List[1:]
			} else {
				x, v.List = v.List[n-1], v.List[:n-1]
			}
			drop(v)
			return xBulk(x), false
		case "lindex":
			i, ok := parseI(args[2])
			if !ok {
				if none {
					return exp{func(r Reply) bool { return r.IsErr() || r.Null }, "an error or null"}, false
				}
				return xErr, false
			}
			if i >= 0 && i < int64(n) {
				return xBulk(v.List[i]), false
			}
			if i < 0 { // not specified
				return exp{func(r Reply) bool { return !r.IsErr() }, "no error"}, false
			}
			return xNull, false
		}
		a, ok1 := parseI(args[2])
		b, ok2 := parseI(args[3])
		if !ok1 || !ok2 {
			if none {
				return exp{func(r Reply) bool { return r.IsErr() || xEmpty.ok(r) }, "an error or empty"}, false
			}
			return xErr, false
		}
		if a < -int64(n) || b < -int64(n) { // not specified beyond the start of the list
			return exp{func(r Reply) bool { return !r.IsErr() }, "no error"}, false
		}
		if a < 0 {
			a += int64(n)
		}
		if b < 0 {
			b += int64(n)
		}
		if b >= int64(n) {
			b = int64(n) - 1
		}
		if a > b {
			return xEmpty, false
		}
		return xList(v.List[a : b+1]), false
	case "sadd":
		v, wrong, amb := obtain(key, KSet)
		if amb || wrong {
			return xErr, amb
		}
		if v == nil {
			v = create(KSet)
		}
		n := 0
		for _, x := range args[2:] {
			if !v.Set[x] {
				v.Set[x] = true
				n++
			}
		}
		return xInt(n), false
	case "srem", "spop", "scard", "sismember", "smembers":
		v, wrong, amb := obtain(key, KSet)
		if amb || wrong {
			return xErr, amb
		}
		if v == nil {
			v = &Val{Kind: KSet}
		}
		switch name {
		case "scard":
			return xInt(len(v.Set)), false
		case "sismember":
			if v.Set[args[2]] {
				return xInt(1), false
			}
			return xInt(0), false
		case "smembers":
			return xMulti(setKeys(v.Set)), false
		case "spop":
			if len(v.Set) == 0 {
				return xNull, false
			}
			if r.Kind == '$' && !r.Null && v.Set[r.Str] {
				delete(v.Set, r.Str)
				drop(v)
				return xBulk(r.Str), false
			}
			return exp{func(Reply) bool { return false }, "a member of the set"}, false
		}
		n := 0
		for _, x := range args[2:] {
			if v.Set[x] {
				delete(v.Set, x)
				n++
			}
		}
		drop(v)
		return xInt(n), false
	case "sdiff", "sinter", "sunion":
		var vs []*Val
		anyWrong, firstMissing := false, false
		for i, k := range args[1:] {
			v, wrong, amb := obtain(k, KSet)
			if amb {
				return xErr, true
			}
			if wrong {
				anyWrong = true
				continue
			}
			if v == nil {
				v = &Val{Kind: KSet}
				if i == 0 || name == "sinter" {
					firstMissing = true
				}
			}
			vs = append(vs, v)
		}
		if anyWrong {
			if firstMissing && name != "sunion" { // an operand that need not be read may go unchecked
				return exp{func(r Reply) bool { return r.IsErr() || xEmpty.ok(r) }, "an error or empty"}, false
			}
			return xErr, false
		}
		res := map[string]bool{}
		for x := range vs[0].Set {
			res[x] = true
		}
		for _, o := range vs[1:] {
			switch name {
			case "sunion":
				for x := range o.Set {
					res[x] = true
				}
			case "sdiff":
				for x := range o.Set {
					delete(res, x)
				}
			default:
				for x := range res {
					if !o.Set[x] {
						delete(res, x)
					}
				}
			}
		}
		return xMulti(setKeys(res)), false
	case "zadd":
		if len(args)%2 != 0 {
			return xErr, false
		}
		for i := 2; i < len(args); i += 2 {
			if _, ok := parseF(args[i]); !ok {
				return xErr, false
			}
		}
		v, wrong, amb := obtain(key, KZset)
		if amb || wrong {
			return xErr, amb
		}
		if v == nil {
			v = create(KZset)
		}
		n := 0
		for i := 2; i < len(args); i += 2 {
			f, _ := parseF(args[i])
			if _, ok := v.Z[args[i+1]]; !ok {
				n++
			}
			v.Z[args[i+1]] = f
		}
		return xInt(n), false
	case "zrem", "zcard", "zscore":
		v, wrong, amb := obtain(key, KZset)
		if amb || wrong {
			return xErr, amb
		}
		if v == nil {
			v = &Val{Kind: KZset}
		}
		switch name {
		case "zcard":
			return xInt(len(v.Z)), false
		case "zscore":
			if f, ok := v.Z[args[2]]; ok {
				return xScore(f), false
			}
			return xNull, false
		}
		n := 0
		for _, x := range args[2:] {
			if _, ok := v.Z[x]; ok {
				delete(v.Z, x)
				n++
			}
		}
		drop(v)
		return xInt(n), false
	case "zcount", "zrangebyscore", "zremrangebyscore":
		lo, ok1 := parseF(args[2])
		hi, ok2 := parseF(args[3])
		if !ok1 || !ok2 {
			return xErr, false
		}
		v, wrong, amb := obtain(key, KZset)
		if amb || wrong {
			return xErr, amb
		}
		if v == nil {
			v = &Val{Kind: KZset}
		}
		var sel []zel
		for _, e := range zsorted(v.Z) {
			if e.s >= lo && e.s <= hi {
				sel = append(sel, e)
			}
		}
		switch name {
		case "zcount":
			return xInt(len(sel)), false
		case "zrangebyscore":
			return zrangeOpt(args, sel, v)
		}
		for _, e := range sel {
			delete(v.Z, e.m)
		}
		drop(v)
		return xInt(len(sel)), false
	case "zrange", "zremrangebyrank":
		a, ok1 := parseI(args[2])
		b, ok2 := parseI(args[3])
		if !ok1 || !ok2 {
			return xErr, false
		}
		v, wrong, amb := obtain(key, KZset)
		if amb || wrong {
			return xErr, amb
		}
		if v == nil {
			v = &Val{Kind: KZset}
		}
		if a < 0 || b < 0 { // ranks from the end are not specified; only generated where nothing depends on it
			return exp{func(r Reply) bool { return !r.IsErr() }, "no error"}, false
		}
		els := zsorted(v.Z)
		if b >= int64(len(els)) {
			b = int64(len(els)) - 1
		}
		var sel []zel
		if a <= b {
			sel = els[a : b+1]
		}
		if name == "zrange" {
			return zrangeOpt(args, sel, v)
		}
		for _, e := range sel {
			delete(v.Z, e.m)
		}
		drop(v)
		return xInt(len(sel)), false
	}
	return xErr, false
}

func zrangeOpt(args []string, sel []zel, v *Val) (exp, bool) {
	ws := false
	if len(args) > 4 {
		if !strings.EqualFold(args[4], "withscores") {
			if len(v.Z) == 0 {
				return exp{func(r Reply) bool { return r.IsErr() || xEmpty.ok(r) }, "an error or empty"}, false
			}
			return xErr, false
		}
		ws = true
	}
	return xZ(sel, ws), false
}

func setKeys(s map[string]bool) []string {
	out := make([]string, 0, len(s))
	for k := range s {
		out = append(out, k)
	}
	return out
}

// Apply executes a command whose reply is not known. It reports false if the result cannot be known.
func (m *Model) Apply(s *Sess, args []string, t int64) bool {
	if strings.EqualFold(args[0], "spop") {
		return false
	}
	_, amb := m.step(s, args, Reply{}, t, t)
	return !amb
}

// ObserveDB is Observe for one database.
func (m *Model) ObserveDB(db int, now int64) Dump {
	one := &Model{DBs: m.DBs[db : db+1]}
	return one.Observe(now)
}
