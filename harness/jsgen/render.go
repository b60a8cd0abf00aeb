package jsgen

import (
	"strings"
	"unicode"
	"unicode/utf8"

	"molecheck/pbt"
)

func identCh(r rune) bool {
	return r == '$' || r == '_' || r == '\\' || r == '#' || r == 0x200c || r == 0x200d || unicode.IsLetter(r) || unicode.IsDigit(r) || unicode.IsMark(r)
}

// needSep says whether a and b would lex differently when written together.
func needSep(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	ra, _ := utf8.DecodeLastRuneInString(a)
	rb, _ := utf8.DecodeRuneInString(b)
	if ra == '}' && len(a) > 1 && strings.Contains(a, "\\u{") && a[0] != '}' && a[0] != '`' {
		ra = 'x' // an identifier that ends in a \u{..} escape
	}
	if identCh(ra) && identCh(rb) {
		return true
	}
	if identCh(ra) && ra >= '0' && ra <= '9' && rb == '.' {
		return true
	}
	if ra == '.' && rb >= '0' && rb <= '9' || ra == '.' && rb == '.' {
		return true
	}
	// numbers that end in a dot: `1.` followed by an identifier
	if ra == '.' && len(a) > 1 && a != "..." && a != "?." {
		return true
	}
	if a[0] == '/' && len(a) > 1 && (identCh(rb)) {
		return true
	}
	punct := "+-*/%&|^<>=!?~:@"
	if strings.ContainsRune(punct, ra) && strings.ContainsRune(punct, rb) {
		return true
	}
	if ra == '?' && rb == '.' {
		return true
	}
	return false
}

type Style struct {
	Mode    int // 0 compact, 1 spaced, 2 random trivia
	NoASI   bool
	Comment bool
	NoLS    bool
}

// Render writes the tokens with trivia chosen from t.
func Render(t *pbt.T, toks []Tok, st Style) string {
	var b strings.Builder
	for i, k := range toks {
		if i > 0 && !k.Glue {
			sep := needSep(toks[i-1].S, k.S)
			switch st.Mode {
			case 0:
				if sep {
					b.WriteByte(' ')
				}
			case 1:
				if sep || t.P(1, 2) {
					b.WriteByte(' ')
				}
			case 2:
				n := t.Geo(1, 2)
				if sep && n == 0 {
					n = 1
				}
				for j := 0; j < n; j++ {
					s := Trivia(t, !k.NoNL, st)
					if s[0] == '/' && strings.HasSuffix(b.String(), "/") {
						s = " " + s
					}
					b.WriteString(s)
				}
			}
		} else if i == 0 && st.Mode == 2 && t.P(1, 6) {
			b.WriteString(Trivia(t, true, st))
		}
		b.WriteString(k.S)
	}
	if st.Mode == 2 && t.P(1, 6) {
		b.WriteString(Trivia(t, true, st))
	}
	return b.String()
}

func Trivia(t *pbt.T, nl bool, st Style) string {
	switch t.Weighted(10, 3, 2, 2, 2, 2) {
	case 0:
		return " "
	case 1:
		if nl {
			return pbt.Pick(t, "\n", "\r\n", "\r")
		}
	case 2:
		if nl && !st.NoLS {
			return pbt.Pick(t, "\u2028", "\u2029")
		}
	case 3:
		return pbt.Pick(t, "\t", "\v", "\f", "\u00a0", "\ufeff", "\u3000", "\u2003", "\u1680", "\u202f", "\u205f")
	case 4:
		return "/*" + pbt.Pick(t, "", " ", "a", "*", "**", "/", "//", "é", "'", "`${", "<!--") + "*/"
	case 5:
		if nl {
			if t.Bool() {
				return "//" + pbt.Pick(t, "", " x", "*/", "/*", "é", "'") + pbt.Pick(t, "\n", "\r\n", "\r")
			}
			return "/*" + pbt.Pick(t, "", "x", "*") + pbt.Pick(t, "\n", "\r\n", "\r") + "*/"
		}
	}
	return " "
}
