package rs

import (
	"fmt"
	"strconv"
	"strings"
	"syscall"
	"time"

	"pgregory.net/rapid"

	"verifharness/fw"
)

// Fill appends generated arguments to a command, so that large commands stay small in replay files.
type Fill struct {
	Kind string // "el": elements, "fv": field value pairs, "zs": score member pairs
	From int
	N    int
	Mode int    `json:",omitempty"` // scores: 0 ascending, 1 descending, 2 equal, 3 scattered
	Pad  int    `json:",omitempty"` // elements and values are padded to this length
	Pre  string `json:",omitempty"` // of the elements, in place of "e"
}

func pad(s string, n int) string {
	if len(s) < n {
		return s + strings.Repeat("x", n-len(s))
	}
	return s
}

func (f *Fill) Args() []string {
	var out []string
	for i := f.From; i < f.From+f.N; i++ {
		switch f.Kind {
		case "fv":
			out = append(out, "f"+strconv.Itoa(i), pad("v"+strconv.Itoa(i*31%1009), f.Pad))
		case "zs":
			s := i
			switch f.Mode {
			case 1:
				s = -i
			case 2:
				s = 7
			case 3:
				s = i * 7919 % 211
			}
			out = append(out, strconv.Itoa(s), "m"+strconv.Itoa(i))
		default:
			pre := "e"
			if f.Pre != "" {
				pre = f.Pre
			}
			out = append(out, pad(pre+strconv.Itoa(i), f.Pad))
		}
	}
	return out
}

// Op is one command on one connection.
type Op struct {
	Conn int      `json:",omitempty"`
	Args []fw.Arg // command and arguments
	Fill *Fill    `json:",omitempty"`
	// Each repeats the command for a range of numbers that replace "{}" in the arguments.
	Each *Each `json:",omitempty"`
	// Wait before the command, in ms (histories with deadlines).
	Wait int `json:",omitempty"`
	// Form in which World.Exec sends it; an array if there is none.
	Form *Form `json:",omitempty"`
}

type Each struct{ From, N int }

// Expand replaces operations with Each by single commands.
func Expand(ops []Op) []Op {
	var out []Op
	for _, o := range ops {
		if o.Each == nil {
			out = append(out, o)
			continue
		}
		for i := o.Each.From; i < o.Each.From+o.Each.N; i++ {
			p := Op{Conn: o.Conn, Form: o.Form}
			for _, a := range o.Args {
				p.Args = append(p.Args, fw.Arg{S: fw.B(strings.ReplaceAll(string(a.S), "{}", strconv.Itoa(i))), N: a.N})
			}
			out = append(out, p)
		}
	}
	return out
}

func (o Op) Strs() []string {
	out := make([]string, 0, len(o.Args))
	for _, a := range o.Args {
		out = append(out, a.Str())
	}
	if o.Fill != nil {
		out = append(out, o.Fill.Args()...)
	}
	return out
}

func Cmd(args ...string) Op {
	o := Op{}
	for _, a := range args {
		o.Args = append(o.Args, fw.A(a))
	}
	return o
}

// ---- generators

// Pools of a history.
type Pools struct {
	Keys []string
	Els  []fw.Arg
	Max  int // largest fill
}

var weird = []string{"", " ", "\r\n", "a\r\nb", "$3\r\n", "*1\r\n$4\r\nping\r\n", "\x00", "\xff\xfe", "-1", "nil", "é", "+OK\r\n"}

// GenArg draws a byte string, sometimes odd, sometimes large.
func GenArg(t *rapid.T, label string, big bool) fw.Arg {
	switch k := fw.Rng(t, label+"K", 0, 9); {
	case k <= 3:
		return fw.A(fw.Word(t, label, 1, 6))
	case k <= 5:
		return fw.A(fw.Pick(t, label, weird))
	case k <= 7 || !big:
		return fw.A(fw.Bytes(t, label, 0, 24))
	default:
		if fw.Chance(t, label+"Huge", 1, 50) { // larger than every buffer
			return fw.Arg{S: fw.B(fw.Pick(t, label, []string{"a", "\r", "b\r\n"})), N: fw.Pick(t, label+"N", []int{1 << 20, 1<<20 + 1, 1500000, 3 << 20})}
		}
		n := fw.Pick(t, label+"N", []int{100, 1000, 4080, 4090, 4094, 4095, 4096, 4097, 5000, 8192, 12288, 20000, 65535, 65536, 70000, 200000})
		return fw.Arg{S: fw.B(fw.Pick(t, label, []string{"a", "\r", "\n", "\x00"})), N: n}
	}
}

var FillSizes = []int{1, 2, 3, 5, 6, 9, 11, 17, 33, 63, 64, 65, 127, 128, 129, 200, 500, 511, 512, 513, 1023, 1024, 1025, 1600, 2049, 3000}

func GenFillN(t *rapid.T, max int) int {
	var s []int
	for _, n := range FillSizes {
		if n <= max {
			s = append(s, n)
		}
	}
	return fw.Pick(t, "fill", s)
}

func NewPools(t *rapid.T, nkeys, max int) *Pools {
	p := &Pools{Max: max}
	for i := 0; i < nkeys; i++ {
		p.Keys = append(p.Keys, "k"+strconv.Itoa(i))
	}
	if fw.Chance(t, "weirdKey", 1, 2) && nkeys > 1 {
		p.Keys[nkeys-1] = fw.Pick(t, "wk", weird)
	}
	for i := 0; i < 5; i++ {
		p.Els = append(p.Els, fw.A("e"+strconv.Itoa(i)))
	}
	for i := 0; i < 3; i++ {
		p.Els = append(p.Els, GenArg(t, "el", i == 2 && max > 100))
	}
	return p
}

func (p *Pools) key(t *rapid.T) fw.Arg {
	return fw.A(fw.Pick(t, "key", p.Keys))
}

func (p *Pools) el(t *rapid.T) fw.Arg {
	if fw.Rng(t, "elk", 0, 7) == 0 {
		return fw.A("e" + strconv.Itoa(fw.Rng(t, "eln", 0, 80)))
	}
	return fw.Pick(t, "el", p.Els)
}

func (p *Pools) els(t *rapid.T, n int) []fw.Arg {
	k := fw.Rng(t, "nels", 1, n)
	var out []fw.Arg
	for i := 0; i < k; i++ {
		out = append(out, p.el(t))
	}
	return out
}

func mk(name string, args ...fw.Arg) Op {
	return Op{Args: append([]fw.Arg{fw.A(name)}, args...)}
}

// casing varies the case of the command name.
func casing(t *rapid.T, o Op) Op {
	if fw.Rng(t, "case", 0, 11) == 0 {
		o.Args[0] = fw.A(strings.ToUpper(string(o.Args[0].S)))
	}
	return o
}

func (p *Pools) fillAt(t *rapid.T) int { return fw.Pick(t, "from", []int{0, 0, 10, 1000, 5000}) }

func (p *Pools) GenString(t *rapid.T) Op {
	switch k := fw.Rng(t, "strOp", 0, 9); {
	case k <= 3:
		return casing(t, mk("set", p.key(t), p.el(t)))
	case k == 4:
		return mk("setex", p.key(t), fw.A(strconv.Itoa(fw.Rng(t, "sec", 1000, 100000))), p.el(t))
	default:
		return casing(t, mk("get", p.key(t)))
	}
}

func (p *Pools) GenHash(t *rapid.T) Op {
	key := p.key(t)
	switch k := fw.Rng(t, "hashOp", 0, 15); {
	case k <= 4:
		o := mk("hset", key)
		n := fw.Rng(t, "pairs", 1, 4)
		for i := 0; i < n; i++ {
			o.Args = append(o.Args, p.el(t), p.el(t))
		}
		return casing(t, o)
	case k == 5:
		o := mk("hset", key)
		o.Fill = &Fill{Kind: "fv", From: p.fillAt(t), N: GenFillN(t, p.Max)}
		return o
	case k <= 8:
		return casing(t, mk("hdel", append([]fw.Arg{key}, p.els(t, 4)...)...))
	case k == 9:
		o := mk("hdel", key)
		from, n := p.fillAt(t), GenFillN(t, p.Max)
		for i := from; i < from+min(n, 300); i++ {
			o.Args = append(o.Args, fw.A("f"+strconv.Itoa(i)))
		}
		return o
	case k <= 11:
		return casing(t, mk("hget", key, p.fieldArg(t)))
	case k == 12:
		return casing(t, mk("hexists", key, p.fieldArg(t)))
	case k == 13:
		return casing(t, mk("hkeys", key))
	default:
		return casing(t, mk("hlen", key))
	}
}

func (p *Pools) fieldArg(t *rapid.T) fw.Arg {
	if fw.Chance(t, "ff", 1, 2) {
		return fw.A("f" + strconv.Itoa(fw.Rng(t, "fn", 0, 1300)))
	}
	return p.el(t)
}

var listIdx = []int64{0, 0, 1, 2, 3, 5, 9, 10, 62, 63, 64, 65, 100, 510, 511, 512, 513, 700, 1022, 1023, 1024, 1025, 1535, 1536, 1600, 2047, 2048, 2049, 3000, 1 << 40, 1<<63 - 1}

func (p *Pools) GenList(t *rapid.T) Op {
	key := p.key(t)
	end := fw.Pick(t, "end", []string{"l", "r"})
	switch k := fw.Rng(t, "listOp", 0, 15); {
	case k <= 3:
		return casing(t, mk(end+"push", append([]fw.Arg{key}, p.els(t, 5)...)...))
	case k <= 5:
		o := mk(end+"push", key)
		o.Fill = &Fill{Kind: "el", From: p.fillAt(t), N: GenFillN(t, p.Max)}
		return o
	case k <= 7:
		return casing(t, mk(end+"pop", key))
	case k == 8:
		o := mk(end+"pop", key)
		if n := GenFillN(t, p.Max); n > 1 {
			o.Each = &Each{N: min(n, 1200)}
		}
		return o
	case k == 9:
		if fw.Chance(t, "churn", 1, 3) { // many single pushes
			o := mk(end+"push", key, fw.A("c{}"))
			o.Each = &Each{From: p.Max, N: GenFillN(t, min(p.Max, 700))}
			return o
		}
		return casing(t, mk("llen", key))
	case k <= 12:
		i := fw.Pick(t, "i", listIdx)
		if fw.Rng(t, "ri", 0, 3) == 0 {
			i = int64(fw.Rng(t, "i2", 0, 3000))
		}
		return casing(t, mk("lindex", key, fw.A(strconv.FormatInt(i, 10))))
	default:
		a, b := p.lidx(t), p.lidx(t)
		if fw.Rng(t, "near", 0, 2) > 0 {
			b = a + int64(fw.Rng(t, "w", -1, 5))
		}
		return casing(t, mk("lrange", key, fw.A(strconv.FormatInt(a, 10)), fw.A(strconv.FormatInt(b, 10))))
	}
}

func (p *Pools) lidx(t *rapid.T) int64 {
	switch fw.Rng(t, "lk", 0, 3) {
	case 0:
		return -fw.Pick(t, "neg", []int64{1, 1, 2, 3, 5, 10, 500, 1024, 1500})
	case 1:
		return int64(fw.Rng(t, "rnd", 0, 2200))
	default:
		return fw.Pick(t, "idx", listIdx[:len(listIdx)-1])
	}
}

func (p *Pools) GenSet(t *rapid.T) Op {
	key := p.key(t)
	switch k := fw.Rng(t, "setOp", 0, 17); {
	case k <= 4:
		return casing(t, mk("sadd", append([]fw.Arg{key}, p.els(t, 5)...)...))
	case k == 5:
		o := mk("sadd", key)
		o.Fill = &Fill{Kind: "el", From: p.fillAt(t), N: GenFillN(t, p.Max)}
		return o
	case k <= 7:
		return casing(t, mk("srem", append([]fw.Arg{key}, p.els(t, 4)...)...))
	case k == 8:
		o := mk("srem", key)
		o.Fill = &Fill{Kind: "el", From: p.fillAt(t), N: GenFillN(t, min(p.Max, 600))}
		return o
	case k <= 10:
		if fw.Chance(t, "many", 1, 5) {
			o := mk("spop", key)
			o.Each = &Each{N: GenFillN(t, min(p.Max, 600))}
			return o
		}
		return casing(t, mk("spop", key))
	case k == 11:
		return casing(t, mk("scard", key))
	case k == 12:
		return casing(t, mk("sismember", key, p.el(t)))
	case k == 13:
		return casing(t, mk("smembers", key))
	default:
		name := fw.Pick(t, "alg", []string{"sdiff", "sinter", "sunion"})
		o := mk(name)
		n := fw.Rng(t, "nk", 2, 4)
		for i := 0; i < n; i++ {
			o.Args = append(o.Args, p.key(t))
		}
		return casing(t, o)
	}
}

var scores = []string{"0", "1", "1", "2", "3", "-1", "-2.5", "0.1", "1e3", "1.5", "2.25", "inf", "-inf", "+inf", "1e-7", "123456789012", "1e300", "-1e300", "-0", "0.30000000000000004", "5e-324"}

func (p *Pools) score(t *rapid.T) fw.Arg {
	if fw.Rng(t, "sk", 0, 2) == 0 {
		return fw.A(strconv.Itoa(fw.Rng(t, "sn", -5, 70)))
	}
	return fw.A(fw.Pick(t, "score", scores))
}

var ranks = []int64{0, 0, 0, 1, 2, 3, 4, 5, 9, 15, 30, 63, 64, 65, 127, 128, 129, 500, 1000, 1 << 40, 1<<63 - 1}

func (p *Pools) rank(t *rapid.T) fw.Arg {
	return fw.A(strconv.FormatInt(fw.Pick(t, "rank", ranks), 10))
}

func (p *Pools) GenZset(t *rapid.T) Op {
	key := p.key(t)
	ws := func(o Op) Op {
		if fw.Chance(t, "ws", 1, 2) {
			o.Args = append(o.Args, fw.A(fw.Pick(t, "wsn", []string{"withscores", "WITHSCORES", "WithScores"})))
		}
		return casing(t, o)
	}
	rng := func(f func(*rapid.T) fw.Arg) (fw.Arg, fw.Arg) {
		return f(t), f(t)
	}
	switch k := fw.Rng(t, "zOp", 0, 19); {
	case k <= 5:
		o := mk("zadd", key)
		n := fw.Rng(t, "pairs", 1, 4)
		for i := 0; i < n; i++ {
			o.Args = append(o.Args, p.score(t), p.zmember(t))
		}
		return casing(t, o)
	case k == 6:
		o := mk("zadd", key)
		limit := min(p.Max, 600)
		if fw.Chance(t, "manyScores", 1, 6) {
			limit = p.Max
		}
		o.Fill = &Fill{Kind: "zs", From: fw.Pick(t, "from", []int{0, 0, 10, 40, 600}), N: GenFillN(t, limit), Mode: fw.Rng(t, "mode", 0, 3)}
		return o
	case k <= 8:
		o := mk("zrem", key)
		n := fw.Rng(t, "n", 1, 4)
		for i := 0; i < n; i++ {
			o.Args = append(o.Args, p.zmember(t))
		}
		return casing(t, o)
	case k == 9:
		a := fw.Pick(t, "a", ranks[:14])
		b := a + int64(fw.Rng(t, "w", -1, 6))
		if b < 0 {
			b = 0
		}
		return casing(t, mk("zremrangebyrank", key, fw.A(strconv.FormatInt(a, 10)), fw.A(strconv.FormatInt(b, 10))))
	case k == 10:
		a, b := rng(p.rank)
		return mk("zremrangebyrank", key, a, b)
	case k == 11:
		a := fw.Rng(t, "a", -3, 60)
		b := a + fw.Rng(t, "w", -1, 4)
		return casing(t, mk("zremrangebyscore", key, fw.A(strconv.Itoa(a)), fw.A(strconv.Itoa(b))))
	case k == 12:
		return casing(t, mk("zcard", key))
	case k == 13:
		a, b := rng(p.score)
		return casing(t, mk("zcount", key, a, b))
	case k == 14:
		return casing(t, mk("zscore", key, p.zmember(t)))
	case k <= 17:
		a, b := rng(p.rank)
		return ws(mk("zrange", key, a, b))
	default:
		a, b := rng(p.score)
		return ws(mk("zrangebyscore", key, a, b))
	}
}

func (p *Pools) zmember(t *rapid.T) fw.Arg {
	if fw.Rng(t, "zm", 0, 2) > 0 {
		return fw.A("m" + strconv.Itoa(fw.Rng(t, "zmn", 0, 70)))
	}
	return p.el(t)
}

// Rebirth makes a value of the kind ('s', 'h', 'l', 'S' or 'z'), gives it a deadline, removes everything that it holds
// in one of the possible ways, and makes it again, so that it has no deadline.
func Rebirth(t *rapid.T, key string, kind byte, sec string) []Op {
	n := fw.Rng(t, "rbN", 1, 4)
	add := func() Op {
		o := Op{}
		switch kind {
		case 's':
			return Cmd("set", key, "reborn")
		case 'h':
			o = Cmd("hset", key)
		case 'l':
			o = Cmd(fw.Pick(t, "rbEnd", []string{"lpush", "rpush"}), key)
		case 'S':
			o = Cmd("sadd", key)
		case 'z':
			o = Cmd("zadd", key)
		}
		for i := 0; i < n; i++ {
			switch kind {
			case 'h':
				o.Args = append(o.Args, fw.A("r"+strconv.Itoa(i)), fw.A("v"))
			case 'z':
				o.Args = append(o.Args, fw.A(strconv.Itoa(i)), fw.A("r"+strconv.Itoa(i)))
			default:
				o.Args = append(o.Args, fw.A("r"+strconv.Itoa(i)))
			}
		}
		return o
	}
	var out []Op
	if fw.Chance(t, "rbFresh", 3, 4) {
		out = append(out, Cmd("del", key))
	}
	out = append(out, add(), Cmd("expire", key, sec))
	rem := map[byte]string{'h': "hdel", 'S': "srem", 'z': "zrem"}[kind]
	switch k := fw.Uni(t, "rbHow", 6); {
	case k == 0 || kind == 's':
		out = append(out, Cmd("del", key))
	case kind == 'l' || kind == 'S' && k < 3:
		for i := 0; i < n; i++ {
			pop := "spop"
			if kind == 'l' {
				pop = fw.Pick(t, "rbPop", []string{"lpop", "rpop"})
			}
			out = append(out, Cmd(pop, key))
		}
	case kind == 'z' && k == 1:
		out = append(out, Cmd("zremrangebyrank", key, "0", strconv.Itoa(fw.Rng(t, "rbTo", n-1, n+5))))
	case kind == 'z' && k == 2:
		out = append(out, Cmd("zremrangebyscore", key, fw.Pick(t, "rbLo", []string{"0", "-inf", "-1"}), "inf"))
	case k < 5: // all at once, perhaps with more
		o := Cmd(rem, key)
		for i := 0; i < n; i++ {
			o.Args = append(o.Args, fw.A("r"+strconv.Itoa(i)))
		}
		if fw.Chance(t, "rbMore", 1, 3) {
			o.Args = append(o.Args, fw.A("nothing"), fw.A("r0"))
		}
		out = append(out, o)
	default:
		for i := 0; i < n; i++ {
			out = append(out, Cmd(rem, key, "r"+strconv.Itoa(i)))
		}
	}
	if fw.Chance(t, "rbAgain", 5, 6) {
		out = append(out, add())
	}
	return append(out, Cmd("ttl", key))
}

// GenWrite draws a write command of any type on keys that tend to keep their type.
func (p *Pools) GenWrite(t *rapid.T) Op {
	for {
		o := p.GenAny(t)
		if IsWrite(o.Args[0].Str()) {
			return o
		}
	}
}

// GenAny draws a command of any type. Key names carry the type, so that most commands apply.
func (p *Pools) GenAny(t *rapid.T) Op {
	kind := fw.Rng(t, "kind", 0, 4)
	var o Op
	switch kind {
	case 0:
		o = p.GenString(t)
	case 1:
		o = p.GenHash(t)
	case 2:
		o = p.GenList(t)
	case 3:
		o = p.GenSet(t)
	default:
		o = p.GenZset(t)
	}
	if fw.Rng(t, "mix", 0, 9) > 0 {
		suffix := []string{":s", ":h", ":l", ":S", ":z"}[kind]
		last := 1
		switch strings.ToLower(o.Args[0].Str()) {
		case "sdiff", "sinter", "sunion":
			last = len(o.Args) - 1
		}
		for i := 1; i <= last; i++ {
			o.Args[i].S += fw.B(suffix)
		}
	}
	return o
}

var writes = map[string]bool{"del": true, "set": true, "setex": true, "expire": true, "expireat": true, "hset": true, "hdel": true, "lpush": true, "rpush": true,
	"lpop": true, "rpop": true, "sadd": true, "srem": true, "spop": true, "zadd": true, "zrem": true, "zremrangebyrank": true, "zremrangebyscore": true}

func IsWrite(name string) bool { return writes[strings.ToLower(name)] }

// ---- execution

// World is a running server with its model and connections.
type World struct {
	Srv   *Server
	Model *Model
	Conns []*Conn
	Sess  []*Sess
	// OnReply is called before the model executes a command.
	// Raw: replies are read but not judged.
	Raw     bool
	OnReply func(s *Sess, args []string, r Reply) error
}

func (w *World) Close() {
	for _, c := range w.Conns {
		if c != nil {
			c.Close()
		}
	}
	w.Conns = nil
}

// Connect opens n connections.
func (w *World) Connect(n int) error {
	for len(w.Conns) < n {
		c, err := w.Srv.Dial()
		if err != nil {
			return Classify(w.Srv, "connecting", err)
		}
		w.Conns = append(w.Conns, c)
		w.Sess = append(w.Sess, &Sess{})
	}
	return nil
}

// Exec runs the operations in order, pipelining up to depth consecutive operations of the same connection,
// and checks every reply against the model.
func (w *World) Exec(ops []Op, depth int) error {
	if depth < 1 {
		depth = 1
	}
	ops = Expand(ops)
	for i := 0; i < len(ops); {
		j := i + 1
		for j < len(ops) && j-i < depth && ops[j].Conn == ops[i].Conn && ops[j].Wait == 0 {
			j++
		}
		c, s := w.Conns[ops[i].Conn], w.Sess[ops[i].Conn]
		var req strings.Builder
		var args [][]string
		for k := i; k < j; k++ {
			a := ops[k].Strs()
			args = append(args, a)
			if f := ops[k].Form; f != nil {
				enc, _ := EncodeAs(a, *f)
				req.WriteString(enc)
			} else {
				req.WriteString(Encode(a))
			}
		}
		t0 := NowMs()
		if err := c.Write(req.String()); err != nil {
			return Classify(w.Srv, fmt.Sprintf("sending operation %d %s", i, fw.Shorts(args[0])), err)
		}
		for k := range args {
			r, err := c.Recv()
			if err != nil {
				return Classify(w.Srv, fmt.Sprintf("operation %d %s", i+k, fw.Shorts(args[k])), err)
			}
			if w.OnReply != nil {
				if err := w.OnReply(s, args[k], r); err != nil {
					return err
				}
			}
			if w.Raw {
				continue
			}
			if err := w.Model.Step(s, args[k], r, t0, NowMs()+1); err != nil {
				if v, ok := err.(*fw.Violation); ok {
					v.Msg = fmt.Sprintf("operation %d: %s", i+k, v.Msg)
				}
				return err
			}
		}
		i = j
	}
	return nil
}

// CheckDump compares the dataset of the server with the model.
func (w *World) CheckDump(what string) error {
	c, err := w.Srv.Dial()
	if err != nil {
		return Classify(w.Srv, what, err)
	}
	defer c.Close()
	if w.Model.Pass != "" {
		if _, err := c.Do("auth", w.Model.Pass); err != nil {
			return Classify(w.Srv, what, err)
		}
	}
	d, err := TakeDump(w.Srv, c, len(w.Model.DBs))
	if err != nil {
		return err
	}
	now := NowMs()
	if diff := Diff(w.Model.Observe(now), d, DiffOpts{Tol: 1100, Near: now}); diff != "" {
		return fw.Viol("%s: the dataset differs from the model: %s", what, diff)
	}
	return nil
}

// World0 starts a server and connects.
func World0(e *fw.Env, cfg Cfg, conns int) (*World, error) {
	s := NewServer(e, e.Scratch, cfg)
	if err := s.Start(e.Shard); err != nil {
		s.Stop()
		return nil, err
	}
	w := &World{Srv: s, Model: NewModel(cfg.Databases, string(cfg.Pass))}
	if err := w.Connect(conns); err != nil {
		s.Stop()
		return nil, err
	}
	return w, nil
}

// Restart ends the server with the signal, starts it again on the same files and reconnects.
func (w *World) Restart(shard int, sig syscall.Signal, down time.Duration) error {
	n := len(w.Conns)
	w.Close()
	w.Sess = nil
	if err := w.Srv.Kill(sig); err != nil {
		return err
	}
	time.Sleep(down)
	if err := w.Srv.Start(shard); err != nil {
		if v, ok := err.(*fw.Violation); ok {
			v.Msg = "after a restart: " + v.Msg
		}
		return err
	}
	return w.Connect(n)
}

// Dump reads the dataset on a connection of its own.
func (w *World) Dump() (Dump, error) {
	c, err := w.Srv.Dial()
	if err != nil {
		return nil, Classify(w.Srv, "reading the dataset", err)
	}
	defer c.Close()
	if w.Model.Pass != "" {
		if _, err := c.Do("auth", w.Model.Pass); err != nil {
			return nil, Classify(w.Srv, "reading the dataset", err)
		}
	}
	return TakeDump(w.Srv, c, len(w.Model.DBs))
}
