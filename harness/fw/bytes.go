package fw

import (
	"encoding/json"
	"strconv"
	"strings"
)

// B is a byte string that survives JSON: it is written as the inside of a Go string literal.
type B string

func (b B) MarshalJSON() ([]byte, error) {
	q := strconv.QuoteToASCII(string(b))
	return json.Marshal(q[1 : len(q)-1])
}

func (b *B) UnmarshalJSON(data []byte) error {
	var s string
	if err := json.Unmarshal(data, &s); err != nil {
		return err
	}
	u, err := strconv.Unquote(`"` + s + `"`)
	if err != nil {
		return err
	}
	*b = B(u)
	return nil
}

// Arg is a byte string repeated N times (0 means once), so that large arguments stay small in replay files.
type Arg struct {
	S B
	N int `json:",omitempty"`
}

func (a Arg) Str() string {
	if a.N == 0 {
		return string(a.S)
	}
	return strings.Repeat(string(a.S), a.N)
}

func A(s string) Arg { return Arg{S: B(s)} }

// Short shortens a string for messages.
func Short(s string) string {
	q := strconv.QuoteToASCII(s)
	if len(q) > 120 {
		return q[:80] + "...(" + strconv.Itoa(len(s)) + " bytes)"
	}
	return q
}

func Shorts(ss []string) string {
	var sb strings.Builder
	sb.WriteByte('[')
	for i, s := range ss {
		if i > 0 {
			sb.WriteByte(' ')
		}
		if i >= 12 {
			sb.WriteString("... " + strconv.Itoa(len(ss)) + " items")
			break
		}
		sb.WriteString(Short(s))
	}
	sb.WriteByte(']')
	return sb.String()
}
