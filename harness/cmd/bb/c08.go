package main

import (
	"pgregory.net/rapid"
	"strings"

	"verifharness/fw"
	"verifharness/rs"
)

var patterns = []string{"*", "*", "*", "k", "^k[0-9]$", ".*", "many1", "^many.*7$", "", "[", "a|b", "\\d+", "^$", "(", "k0", "\x00", "**", "*a", "?", "K.*", "k.*", "\\D+", "\\d+", "[^0-9]", "[^M]", "MANY", "k\\b", "a.b", "^.+$", "^.$", "(?m)^b$", "[\r\n]", "^b", "a$"}

func genKeyOp(p *rs.Pools, t *rapid.T) rs.Op {
	key := func() string { return fw.Pick(t, "key", p.Keys) }
	many := func() string { return "many" + itoa(fw.Rng(t, "many", 0, 2500)) }
	switch k := fw.Uni(t, "op", 32); {
	case k >= 30:
		return cmd("keys", fw.Pick(t, "pat", patterns))
	case k >= 28: // keys may occur more than once
		a := []string{"del", key(), key(), key(), key()}
		return cmd(a[:fw.Rng(t, "dels", 3, 5)]...)
	case k < 8:
		return p.GenString(t)
	case k == 8:
		return cmd("keys", fw.Pick(t, "pat", patterns))
	case k == 9:
		return cmd("keys", "*")
	case k == 10:
		return cmd("randomget")
	case k == 11:
		return cmd("ttl", key())
	case k == 12:
		return mixed(t, "expire", key(), itoa(fw.Rng(t, "sec", 1000, 100000)))
	case k == 13:
		o := cmd("set", "many{}", "v{}")
		o.Each = &rs.Each{From: fw.Pick(t, "from", []int{0, 0, 500, 1000}), N: rs.GenFillN(t, min(p.Max, 1600))}
		return o
	case k == 14:
		o := cmd("expire", "many{}", itoa(fw.Rng(t, "sec", 1000, 100000)))
		o.Each = &rs.Each{From: fw.Pick(t, "from", []int{0, 500}), N: rs.GenFillN(t, min(p.Max, 600))}
		return o
	case k == 15:
		return cmd("get", many())
	case k == 16:
		return cmd("set", many(), "w")
	case k == 17:
		return cmd("ttl", many())
	case k == 18:
		o := cmd("expire", "many{}", "-1")
		o.Each = &rs.Each{From: fw.Pick(t, "from", []int{0, 100}), N: rs.GenFillN(t, min(p.Max, 200))}
		return o
	case k == 19:
		return cmd("hset", key(), "f", "v")
	case k == 20:
		return cmd("rpush", key(), "x")
	case k == 21:
		return cmd("sadd", key(), "x")
	case k == 22:
		return cmd("zadd", key(), "1", "x")
	case k == 23:
		return cmd("del", key(), many())
	case k == 24:
		o := cmd("del", "many{}", key())
		o.Each = &rs.Each{From: fw.Pick(t, "from", []int{0, 100, 500}), N: rs.GenFillN(t, min(p.Max, 1600))}
		return o
	case k == 25:
		return cmd("set", key(), "at", fw.Pick(t, "exat", []string{"exat", "EXAT"}), fw.Pick(t, "at", []string{"99999999999", "1", "-5"}))
	case k == 26: // of many keys at once
		o := cmd("del", key())
		o.Fill = &rs.Fill{Kind: "el", Pre: "many", From: fw.Pick(t, "from", []int{0, 100, 500}), N: rs.GenFillN(t, min(p.Max, 1600))}
		return o
	default:
		return cmd("get", key())
	}
}

// genLarge draws one big literal value.
// genZsetOrNaN draws a sorted-set command, in which a score is sometimes not a number.
func genZsetOrNaN(p *rs.Pools, t *rapid.T) rs.Op {
	o := p.GenZset(t)
	if len(o.Args) < 4 || o.Fill != nil || !fw.Chance(t, "nan", 1, 25) {
		return o
	}
	i := 2
	switch strings.ToLower(o.Args[0].Str()) {
	case "zadd":
		i += fw.Uni(t, "nanPair", (len(o.Args)-2)/2) * 2
	case "zcount", "zrangebyscore", "zremrangebyscore":
		i += fw.Uni(t, "nanBound", 2)
	default:
		return o
	}
	o.Args = append([]fw.Arg{}, o.Args...)
	o.Args[i] = fw.A(fw.Pick(t, "notANumber", []string{"nan", "NaN", "NAN"}))
	return o
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C08", New: newHist,
		Rule: "random histories of SET (also with EXAT), SETEX, GET, DEL, KEYS, RANDOMGET, TTL, EXPIRE (and one write of every other type) over a few keys and up to 2500 numbered keys, 1-3 connections, pipelined 1-40 deep; non-trivial: at least 5 different commands, 3 of them writes, and the final dataset read back equals the model",
		Gen:  genHist('s', 60, 1600, 300, genKeyOp),
		Run: func(e *fw.Env, c any) error {
			h := c.(*HistCase)
			if n, w := distinct(h.Ops); n >= 5 && w >= 2 {
				e.NonTrivial()
			}
			return runHist(e, c, func(w *rs.World) error {
				if w.Model.Keys() > 1000 {
					e.Label("more than 1000 keys")
				}
				return nil
			})
		},
	})
	typed := func(id, what string, kind byte, max, fill, th int, op func(p *rs.Pools, t *rapid.T) rs.Op) {
		fw.Register(&fw.Prop{
			ID: id, New: newHist,
			Rule: "random histories of " + what + " commands over 1-4 keys with repeated and odd arguments, some EXPIRE (far ahead), TTL and values emptied and made again, and bulk fills of up to " + itoa(fill) + " elements, 1-3 connections, pipelined 1-40 deep, replies and final dataset compared with the model; non-trivial: at least 4 different commands, 2 of them writes",
			Gen:  genHist(kind, max, fill, th, op),
			Run: func(e *fw.Env, c any) error {
				h := c.(*HistCase)
				if n, w := distinct(h.Ops); n >= 4 && w >= 2 {
					e.NonTrivial()
				}
				return runHist(e, c, nil)
			},
		})
	}
	typed("C09", "hash", 'h', 80, 1025, 400, (*rs.Pools).GenHash)
	typed("C10", "list", 'l', 80, 3000, 400, (*rs.Pools).GenList)
	typed("C11", "set", 'S', 80, 1025, 400, (*rs.Pools).GenSet)
	typed("C12", "sorted-set", 'z', 100, 600, 500, genZsetOrNaN)
}
