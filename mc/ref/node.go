package ref

import (
	"strconv"
	"strings"
	"time"
)

// Node is the canonical tree both the model and the implementation are mapped to.
type Node struct {
	T string
	V string
	C []*Node
}

func N(t, v string, c ...*Node) *Node { return &Node{T: t, V: v, C: c} }

func (n *Node) write(b *strings.Builder) {
	if n == nil {
		b.WriteString("nil")
		return
	}
	b.WriteByte('(')
	b.WriteString(n.T)
	if n.V != "" {
		b.WriteByte(' ')
		b.WriteString(n.V)
	}
	for _, c := range n.C {
		b.WriteByte(' ')
		c.write(b)
	}
	b.WriteByte(')')
}

func (n *Node) String() string {
	var b strings.Builder
	b.Grow(256)
	n.write(&b)
	return b.String()
}

// Not and Neg build negation and unary minus; on literals they fold, and a double one cancels out.
func Not(x *Node) *Node {
	if x != nil {
		switch x.T {
		case "bool":
			if x.V == "true" {
				return N("bool", "false")
			}
			return N("bool", "true")
		case "not":
			return x.C[0]
		}
	}
	return N("not", "", x)
}

func Neg(x *Node) *Node {
	if x != nil {
		switch x.T {
		case "num":
			if strings.HasPrefix(x.V, "-") {
				return N("num", x.V[1:])
			}
			if x.V == "0" {
				return x
			}
			return N("num", "-"+x.V)
		case "neg":
			return x.C[0]
		}
	}
	return N("neg", "", x)
}

func NumNode(f float64) *Node {
	if f == 0 {
		return N("num", "0")
	}
	return N("num", strconv.FormatFloat(f, 'g', -1, 64))
}
func StrNode(s string) *Node     { return N("str", strconv.Quote(s)) }
func DateNode(t time.Time) *Node { return N("date", t.UTC().Format("20060102150405")) }
func BoolNode(b bool) *Node      { return N("bool", strconv.FormatBool(b)) }
func Hole() *Node                { return N("_", "") }
func Block(list ...*Node) *Node  { return N("blk", "", list...) }
func Args(list []*Node) []*Node {
	if len(list) == 1 && list[0].T == "_" {
		return nil
	}
	return list
}
