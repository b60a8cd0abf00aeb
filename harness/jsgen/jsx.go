package jsgen

import "molecheck/pbt"

func (g *G) jsxName() []string {
	t := g.T
	switch t.Weighted(6, 3, 2) {
	case 0:
		return []string{pbt.Pick(t, "a", "div", "A", "data-x", "this_", "a-b-c", "é")}
	case 1:
		return []string{pbt.Pick(t, "A", "b", "this"), ".", pbt.Pick(t, "B", "c", "d-e")}
	}
	return []string{"A", ".", "B", ".", "c"}
}

func (g *G) jsxText() string {
	t := g.T
	s := ""
	n := 1 + t.Geo(2, 6)
	for i := 0; i < n; i++ {
		s += pbt.Pick(t, "a", "b", " ", "\n", "'", "\"", "//", "/*", "&amp;", "&lt;", "&gt;", "&quot;", "&nbsp;", "é", ";", "&copy;", "\\", "=", ".", "if")
	}
	return s
}

func (g *G) jsxElem(d int) {
	t := g.T
	g.label("jsx")
	frag := t.P(1, 6)
	if frag {
		g.e("<", ">")
	} else {
		name := g.jsxName()
		g.e("<")
		g.e(name...)
		n := t.Geo(1, 3)
		for i := 0; i < n; i++ {
			switch t.Weighted(4, 3, 3, 1) {
			case 0:
				g.e(pbt.Pick(t, "a", "b-c", "class", "x"))
			case 1:
				g.e(pbt.Pick(t, "a", "b-c", "class"), "=", pbt.Pick(t, "'x'", "\"y z\"", "'\n'", "\"\\n\"", "'é'"))
			case 2:
				g.e(pbt.Pick(t, "a", "onX"), "=", "{")
				g.in(g.assign)
				g.e("}")
			case 3:
				g.e("{", "...")
				g.in(g.assign)
				g.e("}")
			}
		}
		if t.P(1, 3) {
			g.e("/", ">")
			g.Out[len(g.Out)-1].Glue = true
			return
		}
		g.e(">")
		defer func() {
			g.glue("</")
			g.e(name...)
			g.e(">")
		}()
	}
	n := 0
	if d > 0 && g.Budget > 0 {
		n = t.Geo(1, 3)
	}
	for i := 0; i < n; i++ {
		switch t.Weighted(4, 3, 3, 1) {
		case 0:
			g.glue(g.jsxText())
		case 1:
			g.glue("{")
			g.in(g.assign)
			g.e("}")
		case 2:
			k := len(g.Out)
			g.jsxElem(d - 1)
			g.Out[k].Glue = true
		case 3:
			g.glue("{")
			g.e("}")
		}
	}
	if frag {
		g.glue("</")
		g.e(">")
	}
}
