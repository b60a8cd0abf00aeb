package props

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/hsiaosiyuan0/mole/ecma/analysis"
	"github.com/hsiaosiyuan0/mole/ecma/parser"

	"molecheck/core"
	"molecheck/pbt"
)

// A program of numbered names x1, x2, ..., each written once. While it is
// written its control flow is kept as a tree (cnode), from which the possible
// successors of each name are computed.
type cnode struct {
	k     string
	id    int
	kids  []*cnode
	label string
	loop  *cnode // the loop a label is on
	lab   *cnode // target of a labelled break or continue
}

type cgen struct {
	t     *pbt.T
	fuel  int
	n     int
	feat  map[string]bool
	loops []*cnode // enclosing loops
	brks  []*cnode // enclosing loops and switches
	labs  []*cnode // enclosing labels
	fn    bool
	nlab  int
	pend  *cnode // label of the statement being generated
}

func (g *cgen) on(f string) bool { return g.feat[f] }

func (g *cgen) id() *cnode { g.n++; return &cnode{k: "id", id: g.n} }

func (g *cgen) expr(d int) *cnode {
	g.fuel--
	if d <= 0 || g.fuel <= 0 || g.t.P(1, 2) {
		return g.id()
	}
	type alt struct {
		f string
		m func() *cnode
	}
	e := func() *cnode { return g.expr(d - 1) }
	alts := []alt{
		{"and", func() *cnode { return &cnode{k: "and", kids: []*cnode{e(), e()}} }},
		{"or", func() *cnode { return &cnode{k: "or", kids: []*cnode{e(), e()}} }},
		{"cond", func() *cnode { return &cnode{k: "cond", kids: []*cnode{e(), e(), e()}} }},
		{"bin", func() *cnode { return &cnode{k: "bin", kids: []*cnode{e(), e()}} }},
		{"call", func() *cnode {
			c := &cnode{k: "call", kids: []*cnode{e()}}
			for n := g.t.Intn(3); n > 0; n-- {
				c.kids = append(c.kids, e())
			}
			return c
		}},
		{"arr", func() *cnode {
			c := &cnode{k: "arr"}
			for n := g.t.Intn(3); n > 0; n-- {
				c.kids = append(c.kids, e())
			}
			return c
		}},
		{"seq", func() *cnode { return &cnode{k: "seq", kids: []*cnode{e(), e()}} }},
		{"assign", func() *cnode { return &cnode{k: "assign", kids: []*cnode{g.id(), e()}} }},
		{"not", func() *cnode { return &cnode{k: "not", kids: []*cnode{e()}} }},
		{"chain", func() *cnode {
			switch g.t.Intn(3) {
			case 0:
				return &cnode{k: "chain", label: pbt.Pick(g.t, "?.p", "?.p.q", "?.()"), kids: []*cnode{g.id()}}
			case 1:
				return &cnode{k: "chain", label: "?.[", kids: []*cnode{g.id(), e()}}
			}
			return &cnode{k: "chain", label: "?.(", kids: []*cnode{g.id(), e()}}
		}},
		{"unary", func() *cnode {
			return &cnode{k: "pre", label: pbt.Pick(g.t, "typeof ", "void ", "-", "+", "~"), kids: []*cnode{e()}}
		}},
		{"update", func() *cnode {
			if g.t.Bool() {
				return &cnode{k: "pre", label: pbt.Pick(g.t, "++", "--"), kids: []*cnode{g.id()}}
			}
			return &cnode{k: "post", label: pbt.Pick(g.t, "++", "--"), kids: []*cnode{g.id()}}
		}},
		{"member", func() *cnode {
			return &cnode{k: "post", label: pbt.Pick(g.t, ".p", ".q.r", "['s']"), kids: []*cnode{e()}}
		}},
		{"index", func() *cnode { return &cnode{k: "index", kids: []*cnode{e(), e()}} }},
		{"new", func() *cnode {
			c := &cnode{k: "new", kids: []*cnode{g.id()}}
			for n := g.t.Intn(3); n > 0; n-- {
				c.kids = append(c.kids, e())
			}
			return c
		}},
		{"tpl", func() *cnode {
			c := &cnode{k: "tpl"}
			for n := g.t.Intn(3); n > 0; n-- {
				c.kids = append(c.kids, e())
			}
			return c
		}},
		{"tag", func() *cnode {
			c := &cnode{k: "tag", kids: []*cnode{g.id()}}
			for n := g.t.Intn(3); n > 0; n-- {
				c.kids = append(c.kids, e())
			}
			return c
		}},
		{"hole", func() *cnode {
			c := &cnode{k: "arr"}
			for n := 1 + g.t.Intn(3); n > 0; n-- {
				if g.t.Bool() {
					c.kids = append(c.kids, &cnode{k: "none"})
				} else {
					c.kids = append(c.kids, e())
				}
			}
			return c
		}},
		{"spread", func() *cnode {
			return &cnode{k: pbt.Pick(g.t, "arr", "obj"), kids: []*cnode{e(), &cnode{k: "spread", kids: []*cnode{e()}}, e()}}
		}},
		{"obj", func() *cnode {
			c := &cnode{k: "obj"}
			for n := g.t.Intn(3); n > 0; n-- {
				if g.t.P(1, 3) {
					c.kids = append(c.kids, &cnode{k: "cprop", kids: []*cnode{e(), e()}})
				} else {
					c.kids = append(c.kids, e())
				}
			}
			return c
		}},
		{"fn", func() *cnode {
			return &cnode{k: "lit", label: pbt.Pick(g.t, "(()=>y)", "(y=>{return y})", "(function(){while(y)y})", "(function y(y){y})", "(async()=>{await y})", "(class{m(){y}})", "(class extends y{f=y})")}
		}},
		{"opassign", func() *cnode {
			return &cnode{k: "assign", label: pbt.Pick(g.t, "+=", "**="), kids: []*cnode{g.id(), e()}}
		}},
		{"paren", func() *cnode { return &cnode{k: "paren", kids: []*cnode{e()}} }},
	}
	var on []alt
	for _, a := range alts {
		if g.on(a.f) {
			on = append(on, a)
		}
	}
	if len(on) == 0 {
		return g.id()
	}
	return on[g.t.Intn(len(on))].m()
}

func (g *cgen) test() *cnode { return g.expr(g.t.Intn(3)) }

// ltest is the test of a loop: an array literal would always be true.
func (g *cgen) ltest() *cnode {
	if g.on("falsy") && g.t.P(1, 6) {
		return &cnode{k: "lit", label: pbt.Pick(g.t, "0", "false", "null", "''", "0.0", "0x0")}
	}
	e := g.test()
	if e.k == "arr" || e.k == "obj" || e.k == "lit" {
		return &cnode{k: "bin", kids: []*cnode{e, g.id()}}
	}
	return e
}

func (g *cgen) block(n int) *cnode {
	b := &cnode{k: "block"}
	for ; n > 0; n-- {
		b.kids = append(b.kids, g.stmt())
	}
	return b
}

func (g *cgen) loop(pend, c *cnode, body func()) *cnode {
	if pend != nil {
		pend.loop = c
	}
	g.loops = append(g.loops, c)
	g.brks = append(g.brks, c)
	body()
	g.loops = g.loops[:len(g.loops)-1]
	g.brks = g.brks[:len(g.brks)-1]
	return c
}

func (g *cgen) looplabs() (r []*cnode) {
	for _, l := range g.labs {
		if l.loop != nil {
			r = append(r, l)
		}
	}
	return
}

func (g *cgen) stmt() *cnode {
	t := g.t
	g.fuel--
	pend := g.pend
	g.pend = nil
	if g.fuel <= 0 {
		return &cnode{k: "es", kids: []*cnode{g.id()}}
	}
	pick := []string{"es", "es"}
	for _, f := range []string{"if", "if", "while", "dowhile", "for", "forof", "forever", "switch", "break", "continue", "label", "try", "throw", "return", "blk", "var", "lbreak", "lcontinue"} {
		ok := g.on(f)
		switch f {
		case "break":
			ok = ok && len(g.brks) > 0
		case "continue":
			ok = ok && len(g.loops) > 0
		case "return":
			ok = ok && g.fn
		case "lbreak":
			ok = ok && len(g.labs) > 0
		case "lcontinue":
			ok = ok && len(g.looplabs()) > 0
		}
		if ok {
			pick = append(pick, f)
		}
	}
	body := func() *cnode { return g.block(t.Intn(3)) }
	k := pick[t.Intn(len(pick))]
	switch k {
	case "break", "continue", "lbreak", "lcontinue", "return", "throw":
		return g.jump(k)
	case "if":
		c := &cnode{k: "if", kids: []*cnode{g.test(), nil}}
		c.kids[1] = g.body()
		if t.Bool() {
			c.kids = append(c.kids, g.body())
		}
		return c
	case "while":
		c := &cnode{k: k, kids: []*cnode{g.ltest(), nil}}
		return g.loop(pend, c, func() { c.kids[1] = body() })
	case "dowhile":
		c := &cnode{k: k, kids: []*cnode{nil, nil}}
		g.loop(pend, c, func() { c.kids[0] = body() })
		c.kids[1] = g.ltest()
		return c
	case "for":
		c := &cnode{k: k, kids: make([]*cnode, 4)}
		if t.Bool() {
			c.kids[0] = g.expr(1)
		}
		if t.P(3, 4) {
			c.kids[1] = g.ltest()
		}
		if t.Bool() {
			c.kids[2] = g.expr(1)
		}
		return g.loop(pend, c, func() { c.kids[3] = body() })
	case "forever":
		c := &cnode{k: k, label: pbt.Pick(t, "while(true)", "for(;;)", "while(1)", "for(;'a';)", "while([])", "for(;0.5;)", "while(/r/)", "while({})"), kids: []*cnode{nil}}
		return g.loop(pend, c, func() { c.kids[0] = body() })
	case "forof":
		c := &cnode{k: k, label: pbt.Pick(t, " of ", " in "), kids: []*cnode{g.id(), g.expr(1), nil}}
		return g.loop(pend, c, func() { c.kids[2] = body() })
	case "switch":
		c := &cnode{k: k, kids: []*cnode{g.test()}}
		def := false
		g.brks = append(g.brks, c)
		for n := t.Intn(4); n > 0; n-- {
			cs := &cnode{k: "case", kids: []*cnode{nil}}
			if def || t.P(2, 3) {
				cs.kids[0] = g.id()
			} else {
				def = true
			}
			for m := t.Intn(3); m > 0; m-- {
				cs.kids = append(cs.kids, g.stmt())
			}
			c.kids = append(c.kids, cs)
		}
		g.brks = g.brks[:len(g.brks)-1]
		return c
	case "label":
		g.nlab++
		c := &cnode{k: k, label: "L" + strconv.Itoa(g.nlab)}
		g.labs = append(g.labs, c)
		g.pend = c
		c.kids = []*cnode{g.stmt()}
		g.pend = nil
		g.labs = g.labs[:len(g.labs)-1]
		return c
	case "try":
		c := &cnode{k: k, label: pbt.Pick(t, "(e)", "", "({e})", "([e,...f])"), kids: []*cnode{body(), nil}}
		c.kids[1] = body()
		return c
	case "blk":
		return body()
	case "var":
		if g.on("pat") && t.Bool() {
			return &cnode{k: k, kids: []*cnode{{k: "pat", label: pbt.Pick(t, "{k:y=", "{y=", "[y=", "[,y="), kids: []*cnode{g.expr(1)}}, g.expr(1)}}
		}
		return &cnode{k: k, kids: []*cnode{g.id(), g.expr(1)}}
	}
	return &cnode{k: "es", kids: []*cnode{g.expr(2)}}
}

func (g *cgen) jump(k string) *cnode {
	t := g.t
	switch k {
	case "break":
		return &cnode{k: k, lab: g.brks[len(g.brks)-1]}
	case "continue":
		return &cnode{k: k, lab: g.loops[len(g.loops)-1]}
	case "lbreak":
		return &cnode{k: k, lab: g.labs[t.Intn(len(g.labs))]}
	case "lcontinue":
		l := g.looplabs()
		return &cnode{k: k, lab: l[t.Intn(len(l))]}
	case "throw":
		return &cnode{k: k, kids: []*cnode{g.expr(1)}}
	case "return":
		c := &cnode{k: k}
		if t.Bool() {
			c.kids = []*cnode{g.expr(1)}
		}
		return c
	}
	panic(k)
}

func (g *cgen) body() *cnode {
	if g.t.P(2, 3) {
		return g.block(g.t.Intn(3))
	}
	s := g.stmt()
	if s.k == "var" || s.k == "label" {
		return &cnode{k: "block", kids: []*cnode{s}}
	}
	return s
}

// src prints a node; operands are parenthesised where needed.
func (c *cnode) src() string {
	k := func(i int) string {
		if c.kids[i] == nil {
			return ""
		}
		return c.kids[i].src()
	}
	op := func(i int) string {
		s := k(i)
		switch c.kids[i].k {
		case "id", "lit", "call", "arr", "paren":
			return s
		}
		return "(" + s + ")"
	}
	list := func(ks []*cnode) string {
		var s []string
		for _, x := range ks {
			e := x.src()
			if x.k == "seq" {
				e = "(" + e + ")"
			}
			s = append(s, e)
		}
		return strings.Join(s, ",")
	}
	switch c.k {
	case "lit":
		return c.label
	case "id":
		return "x" + strconv.Itoa(c.id)
	case "and":
		return op(0) + "&&" + op(1)
	case "or":
		return op(0) + "||" + op(1)
	case "bin":
		return op(0) + "+" + op(1)
	case "cond":
		return op(0) + "?" + op(1) + ":" + op(2)
	case "call":
		return op(0) + "(" + list(c.kids[1:]) + ")"
	case "arr":
		return "[" + list(c.kids) + "]"
	case "seq":
		return op(0) + "," + op(1)
	case "assign":
		if c.label != "" {
			return k(0) + c.label + op(1)
		}
		return k(0) + "=" + op(1)
	case "chain":
		switch c.label {
		case "?.[":
			return k(0) + "?.[" + k(1) + "]"
		case "?.(":
			return k(0) + "?.(" + list(c.kids[1:]) + ")"
		}
		return k(0) + c.label
	case "pre":
		return c.label + op(0)
	case "post":
		return op(0) + c.label
	case "index":
		return op(0) + "[" + k(1) + "]"
	case "new":
		return "new " + k(0) + "(" + list(c.kids[1:]) + ")"
	case "tpl", "tag":
		s, ks := "`", c.kids
		if c.k == "tag" {
			s, ks = k(0)+"`", ks[1:]
		}
		for _, x := range ks {
			s += "${" + x.src() + "}t"
		}
		return s + "`"
	case "none":
		return ""
	case "spread":
		return "..." + op(0)
	case "obj":
		s := ""
		for i, x := range c.kids {
			if x.k == "spread" || x.k == "cprop" {
				s += x.src() + ","
			} else {
				s += "k" + strconv.Itoa(i) + ":" + list(c.kids[i:i+1]) + ","
			}
		}
		return "({" + s + "})"
	case "cprop":
		return "[" + list(c.kids[:1]) + "]:" + op(1)
	case "not":
		return "!" + op(0)
	case "paren":
		return "(" + k(0) + ")"
	case "es":
		return k(0) + ";"
	case "pat":
		end := "}"
		if c.label[0] == '[' {
			end = "]"
		}
		return c.label + list(c.kids) + end
	case "var":
		return "var " + k(0) + "=" + op(1) + ";"
	case "block":
		s := ""
		for _, x := range c.kids {
			s += x.src()
		}
		return "{" + s + "}"
	case "if":
		s := "if(" + k(0) + ")" + k(1)
		if len(c.kids) > 2 {
			if c.kids[1].k != "block" {
				s = "if(" + k(0) + "){" + k(1) + "}"
			}
			s += "else " + k(2)
		}
		return s
	case "while":
		return "while(" + k(0) + ")" + k(1)
	case "dowhile":
		return "do" + k(0) + "while(" + k(1) + ");"
	case "for":
		return "for(" + k(0) + ";" + k(1) + ";" + k(2) + ")" + k(3)
	case "forever":
		return c.label + k(0)
	case "forof":
		return "for(" + k(0) + c.label + op(1) + ")" + k(2)
	case "switch":
		s := "switch(" + k(0) + "){"
		for _, cs := range c.kids[1:] {
			if cs.kids[0] != nil {
				s += "case " + cs.kids[0].src() + ":"
			} else {
				s += "default:"
			}
			for _, x := range cs.kids[1:] {
				s += x.src()
			}
		}
		return s + "}"
	case "break", "continue":
		return c.k + ";"
	case "label":
		return c.label + ":" + k(0)
	case "lbreak":
		return "break " + c.lab.label + ";"
	case "lcontinue":
		return "continue " + c.lab.label + ";"
	case "try":
		s := "try" + k(0)
		return s + "catch" + c.label + k(1)
	case "throw":
		return "throw " + op(0) + ";"
	case "return":
		if len(c.kids) == 0 {
			return "return;"
		}
		return "return " + op(0) + ";"
	}
	panic(c.k)
}

// ---- reference flow ----

// fnode is a point of the reference graph; id is 0 for points without a name.
type fnode struct {
	id  int
	out []*fnode
}

type flow struct {
	brk, cont map[*cnode]*fnode
	lbrk      map[*cnode]*fnode // by label
	ret       *fnode
	exc       *fnode // where a throw goes
	inTry     bool
}

const fnExit = -1

// e builds the flow of an expression: entry point given the points after it
// when it is true and when it is false.
func (f *flow) e(c *cnode, t, fl *fnode) *fnode {
	seq := func(ks []*cnode, t, fl *fnode) *fnode {
		if len(ks) == 0 {
			return join(t, fl)
		}
		n := f.e(ks[len(ks)-1], t, fl)
		for i := len(ks) - 2; i >= 0; i-- {
			n = f.e(ks[i], n, n)
		}
		return n
	}
	both := join(t, fl)
	switch c.k {
	case "lit":
		return both
	case "id":
		n := &fnode{id: c.id, out: []*fnode{t}}
		if fl != t {
			n.out = append(n.out, fl)
		}
		if f.inTry {
			n.out = append(n.out, f.exc)
		}
		return n
	case "none":
		return both
	case "chain":
		if len(c.kids) == 1 {
			return f.e(c.kids[0], both, both)
		}
		n := join(both, f.e(c.kids[1], both, both))
		return f.e(c.kids[0], n, n)
	case "pat":
		return join(both, seq(c.kids, both, both))
	case "and":
		return f.e(c.kids[0], f.e(c.kids[1], t, fl), fl)
	case "or":
		return f.e(c.kids[0], t, f.e(c.kids[1], t, fl))
	case "cond":
		return f.e(c.kids[0], f.e(c.kids[1], t, fl), f.e(c.kids[2], t, fl))
	case "not":
		return f.e(c.kids[0], fl, t)
	case "paren":
		return f.e(c.kids[0], t, fl)
	case "seq":
		return seq(c.kids, t, fl)
	case "bin", "call", "arr", "assign", "pre", "post", "index", "new", "tpl", "tag", "spread", "obj", "cprop":
		return seq(c.kids, both, both)
	}
	panic(c.k)
}

func join(a, b *fnode) *fnode {
	if a == b {
		return a
	}
	return &fnode{out: []*fnode{a, b}}
}

func (f *flow) list(ks []*cnode, next *fnode) *fnode {
	for i := len(ks) - 1; i >= 0; i-- {
		next = f.s(ks[i], next)
	}
	return next
}

func (f *flow) s(c *cnode, next *fnode) *fnode {
	switch c.k {
	case "es":
		return f.e(c.kids[0], next, next)
	case "var":
		n := f.e(c.kids[1], next, next)
		return f.e(c.kids[0], n, n)
	case "block":
		return f.list(c.kids, next)
	case "if":
		el := next
		if len(c.kids) > 2 {
			el = f.s(c.kids[2], next)
		}
		return f.e(c.kids[0], f.s(c.kids[1], next), el)
	case "while":
		head := &fnode{}
		f.brk[c], f.cont[c] = next, head
		head.out = []*fnode{f.e(c.kids[0], f.s(c.kids[1], head), next)}
		return head
	case "dowhile":
		head, test := &fnode{}, &fnode{}
		f.brk[c], f.cont[c] = next, test
		test.out = []*fnode{f.e(c.kids[1], head, next)}
		head.out = []*fnode{f.s(c.kids[0], test)}
		return head
	case "for":
		head, upd := &fnode{}, &fnode{}
		f.brk[c], f.cont[c] = next, upd
		upd.out = []*fnode{head}
		if c.kids[2] != nil {
			upd.out = []*fnode{f.e(c.kids[2], head, head)}
		}
		body := f.s(c.kids[3], upd)
		head.out = []*fnode{body}
		if c.kids[1] != nil {
			head.out = []*fnode{f.e(c.kids[1], body, next)}
		}
		if c.kids[0] != nil {
			return f.e(c.kids[0], head, head)
		}
		return head
	case "forever":
		head := &fnode{}
		f.brk[c], f.cont[c] = next, head
		head.out = []*fnode{f.s(c.kids[0], head)}
		return head
	case "forof":
		// mole keeps lhs -> rhs -> body -> lhs
		head := &fnode{}
		f.brk[c], f.cont[c] = next, head
		body := f.s(c.kids[2], head)
		rhs := f.e(c.kids[1], join(body, next), join(body, next))
		head.out = []*fnode{f.e(c.kids[0], rhs, rhs)}
		return head
	case "switch":
		f.brk[c] = next
		cases := c.kids[1:]
		bodies := make([]*fnode, len(cases)+1)
		bodies[len(cases)] = next
		def := next
		for i := len(cases) - 1; i >= 0; i-- {
			bodies[i] = f.list(cases[i].kids[1:], bodies[i+1])
			if cases[i].kids[0] == nil {
				def = bodies[i]
			}
		}
		n := def
		for i := len(cases) - 1; i >= 0; i-- {
			if cases[i].kids[0] != nil {
				n = f.e(cases[i].kids[0], bodies[i], n)
			}
		}
		return f.e(c.kids[0], n, n)
	case "break":
		return f.brk[c.lab]
	case "continue":
		return f.cont[c.lab]
	case "label":
		f.lbrk[c] = next
		return f.s(c.kids[0], next)
	case "lbreak":
		return f.lbrk[c.lab]
	case "lcontinue":
		return f.cont[c.lab.loop]
	case "throw":
		return f.e(c.kids[0], f.exc, f.exc)
	case "return":
		r := f.ret
		if len(c.kids) > 0 {
			return f.e(c.kids[0], r, r)
		}
		return r
	case "try":
		inner := *f
		inner.inTry = true
		inner.exc = f.s(c.kids[1], next)
		return inner.s(c.kids[0], next)
	}
	panic(c.k)
}

// succ lists, per reachable name, the names (or fnExit) that can come next.
func succ(entry *fnode) map[int]map[int]bool {
	res := map[int]map[int]bool{}
	var from func(id int, n *fnode, seen map[*fnode]bool)
	done := map[*fnode]bool{}
	from = func(id int, n *fnode, seen map[*fnode]bool) {
		if n.id != 0 {
			res[id][n.id] = true
			if n.id > 0 && !done[n] {
				done[n] = true
				if res[n.id] == nil {
					res[n.id] = map[int]bool{}
				}
				for _, o := range n.out {
					from(n.id, o, map[*fnode]bool{})
				}
			}
			return
		}
		if seen[n] {
			return
		}
		seen[n] = true
		for _, o := range n.out {
			from(id, o, seen)
		}
	}
	res[0] = map[int]bool{}
	from(0, entry, map[*fnode]bool{})
	return res
}

// moleSucc reads the same relation off mole's graph, following edges that are
// not cut.
func moleSucc(g *analysis.Graph, throws bool) map[int]map[int]bool {
	names := func(b *analysis.Block) (r []int) {
		for _, n := range b.Nodes {
			if id, ok := n.(*parser.Ident); ok && strings.HasPrefix(id.Val(), "x") {
				k, _ := strconv.Atoi(id.Val()[1:])
				r = append(r, k)
			}
		}
		return
	}
	res := map[int]map[int]bool{0: {}}
	seen := map[*analysis.Block]bool{}
	var visit func(b *analysis.Block)
	// next: first names found behind an edge
	var next func(from int, e *analysis.Edge, path map[*analysis.Block]bool)
	next = func(from int, e *analysis.Edge, path map[*analysis.Block]bool) {
		if e.Tag&analysis.ET_CUT != 0 {
			return
		}
		if e.Dst == nil {
			res[from][fnExit] = true
			return
		}
		if ns := names(e.Dst); len(ns) > 0 {
			res[from][ns[0]] = true
			visit(e.Dst)
			return
		}
		if path[e.Dst] {
			return
		}
		path[e.Dst] = true
		for _, o := range e.Dst.Outlets {
			next(from, o, path)
		}
	}
	visit = func(b *analysis.Block) {
		if seen[b] {
			return
		}
		seen[b] = true
		ns := names(b)
		for i, n := range ns {
			if res[n] == nil {
				res[n] = map[int]bool{}
			}
			if i+1 < len(ns) {
				res[n][ns[i+1]] = true
			}
		}
		for i, n := range ns {
			for _, e := range b.Outlets {
				if throws && e.Tag&analysis.ET_JMP_E != 0 || i+1 == len(ns) && e.Tag&analysis.ET_JMP_E == 0 {
					next(n, e, map[*analysis.Block]bool{})
				}
			}
		}
	}
	if ns := names(g.Head); len(ns) > 0 {
		res[0][ns[0]] = true
		visit(g.Head)
	} else {
		for _, e := range g.Head.Outlets {
			next(0, e, map[*analysis.Block]bool{g.Head: true})
		}
	}
	return res
}

func show(m map[int]bool) string {
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return fmt.Sprint(r)
}

type CfgProg struct {
	Code  string               `json:"code"`
	Fn    bool                 `json:"fn,omitempty"`
	Exact bool                 `json:"exact,omitempty"` // no logical operators and no try
	Succ  map[int]map[int]bool `json:"succ"`
}

var cfgFeats = strings.Fields("and or cond bin call arr seq assign not paren if while dowhile for forof forever switch break continue label try throw return blk var lbreak lcontinue falsy chain pat unary update member index new tpl tag hole spread obj fn opassign")

func genCfg(t *pbt.T) *CfgProg {
	g := &cgen{t: t, fuel: 4 + t.Intn(20), feat: map[string]bool{}, fn: t.Bool()}
	for _, f := range cfgFeats {
		if t.P(1, 3) {
			g.feat[f] = true
		}
	}
	c := &CfgProg{Fn: g.fn, Exact: true}
	for _, f := range strings.Fields("and or cond not try chain pat") {
		if g.feat[f] {
			c.Exact = false
		}
	}
	b := g.block(1 + t.Intn(4))
	exit := &fnode{id: fnExit}
	f := &flow{brk: map[*cnode]*fnode{}, cont: map[*cnode]*fnode{}, lbrk: map[*cnode]*fnode{}, ret: exit, exc: exit}
	c.Code = strings.TrimSuffix(strings.TrimPrefix(b.src(), "{"), "}")
	c.Succ = succ(f.list(b.kids, exit))
	if g.fn {
		c.Code = "function f(){" + c.Code + "}"
	}
	return c
}

func checkCfg(in *CfgProg) core.Outcome {
	p, prog, err := parse(in.Code, Cfg{})
	if err != nil {
		return core.Failf("rejected: %v", err)
	}
	an := analysis.NewAnalysis(prog, p.Symtab(), p.Source())
	an.Analyze()
	g := an.Graph()
	if in.Fn {
		g = an.AnalysisCtx().GraphOf(prog.Body()[0])
	}
	got := moleSucc(g, true)
	var ids []int
	for k := range in.Succ {
		ids = append(ids, k)
	}
	sort.Ints(ids)
	for _, k := range ids {
		if got[k] == nil {
			return core.Failf("DEAD x%d is reachable, but not in the graph", k)
		}
		for n := range in.Succ[k] {
			if !got[k][n] {
				return core.Failf("MISSING after x%d can come %s, the graph has %s", k, show(in.Succ[k]), show(got[k]))
			}
		}
	}
	if in.Exact {
		got = moleSucc(g, false)
		for k := range got {
			if in.Succ[k] == nil {
				return core.Failf("LIVE x%d cannot be reached, but the graph leads to it", k)
			}
		}
		for _, k := range ids {
			for n := range got[k] {
				if !in.Succ[k][n] {
					return core.Failf("EXTRA after x%d can come %s, the graph has %s", k, show(in.Succ[k]), show(got[k]))
				}
			}
		}
	}
	blocks, _, _, _, _ := g.NodesEdges()
	for _, b := range blocks {
		for _, n := range b.Nodes {
			id, ok := n.(*parser.Ident)
			if !ok || !strings.HasPrefix(id.Val(), "x") {
				continue
			}
			k, _ := strconv.Atoi(id.Val()[1:])
			if g.BlkOfNode(n) != b {
				return core.Failf("x%d is in block %d, but BlkOfNode says otherwise", k, b.Id())
			}
			if in.Succ[k] != nil && b.IsInCut() {
				return core.Failf("CUT x%d is reachable, but its block is cut off", k)
			}
		}
	}
	return core.Outcome{Trivial: len(ids) < 3}
}

func init() {
	core.Def(core.Prop{ID: "P13", Quick: 1000000, Thorough: 8000000,
		Rule: "at least two names are reachable"}, genCfg, checkCfg)
}
