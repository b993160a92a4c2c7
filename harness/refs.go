//go:build verifmc

package main

import (
	"math/big"
	"regexp"
	"strings"
	"unicode"

	"github.com/mescanne/goledger/book"
)

// ---- reference calendar -------------------------------------------------------------------------

var dayNoCache = map[int]int{}

// dayNo counts days since 0001-01-01 by adding up whole years and months.
func dayNo(d int) int {
	y, m, day := d/10000, d/100%100, d%100
	base, ok := dayNoCache[y]
	if !ok {
		for i := 1; i < y; i++ {
			base += 365
			if daysIn(i, 2) == 29 {
				base++
			}
		}
		dayNoCache[y] = base
	}
	n := base
	for i := 1; i < m; i++ {
		n += daysIn(y, i)
	}
	return n + day - 1
}

// ---- reference prices ---------------------------------------------------------------------------

// refPrice is the price of unit in ccy at the date; kind is exact, inferred, out of range or none.
func (m *MBook) refPrice(date int, unit, ccy string) (*big.Rat, string) {
	if unit == ccy {
		return rat(1, 1), "exact"
	}
	if l := m.Prices[[2]string{unit, ccy}]; len(l) > 0 {
		return refInterp(l, date)
	}
	if l := m.Prices[[2]string{ccy, unit}]; len(l) > 0 {
		v, k := refInterp(l, date)
		if v.Sign() == 0 {
			return rat(1, 1), "none"
		}
		return new(big.Rat).Inv(v), k
	}
	return rat(1, 1), "none"
}

func refInterp(l []MPrice, date int) (*big.Rat, string) {
	var before, after *MPrice
	for i := range l {
		p := &l[i]
		switch {
		case p.Date == date:
			return new(big.Rat).Set(p.Val), "exact"
		case p.Date < date:
			if before == nil || p.Date > before.Date {
				before = p
			}
		default:
			if after == nil || p.Date < after.Date {
				after = p
			}
		}
	}
	if before == nil {
		return new(big.Rat).Set(after.Val), "out of range"
	}
	if after == nil {
		return new(big.Rat).Set(before.Val), "out of range"
	}
	f := rat(int64(dayNo(date)-dayNo(before.Date)), int64(dayNo(after.Date)-dayNo(before.Date)))
	v := new(big.Rat).Sub(after.Val, before.Val)
	v.Mul(v, f)
	return v.Add(v, before.Val), "inferred"
}

func priceKind(t book.PriceType) string {
	switch t {
	case book.PriceTypeExact:
		return "exact"
	case book.PriceTypeInferred:
		return "inferred"
	case book.PriceTypeOutOfRange:
		return "out of range"
	case book.PriceTypeNone:
		return "none"
	}
	return "?"
}

// ---- reference text layout ----------------------------------------------------------------------

var colourCode = regexp.MustCompile("\x1b\\[[0-9;:]*m")

// visible is the text as it appears on the screen: colour codes and unprintable characters gone, tabs
// as blanks.
func visible(s string) []rune {
	var out []rune
	for _, r := range []rune(colourCode.ReplaceAllString(s, "")) {
		if r == '\t' {
			out = append(out, ' ')
		} else if unicode.IsPrint(r) || unicode.Is(unicode.Zs, r) {
			out = append(out, r)
		}
	}
	return out
}

// refGroup inserts the digit separators of a language into a plain decimal number.
func refGroup(s, lang string) string {
	thou, dec := ",", "."
	min := 4
	switch strings.ToLower(strings.SplitN(strings.SplitN(lang, "_", 2)[0], "-", 2)[0]) {
	case "de", "nl":
		thou, dec = ".", ","
	case "fr":
		thou, dec = "\u00a0", ","
	}
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	ip, fp := s, ""
	if i := strings.IndexByte(s, '.'); i >= 0 {
		ip, fp = s[:i], s[i+1:]
	}
	var sb strings.Builder
	for i, c := range ip {
		if i > 0 && (len(ip)-i)%3 == 0 && len(ip) >= min {
			sb.WriteString(thou)
		}
		sb.WriteRune(c)
	}
	if fp != "" {
		sb.WriteString(dec + fp)
	}
	if neg {
		return "-" + sb.String()
	}
	return sb.String()
}

// refNumber is the display form of an amount.
func refNumber(v *big.Rat, dec int, lang string) string {
	return refGroup(v.FloatString(dec), lang)
}

func refSymbol(s string) string {
	rs := []rune(s)
	if len(rs) > 0 && (unicode.IsLetter(rs[len(rs)-1]) || rs[len(rs)-1] == '"') {
		return s + " "
	}
	return s
}

// cell is one cell of a table: text left or right aligned, or money with the symbol on the left.
type cell struct {
	sym, text string
	right     bool
}

// refTable lays out rows (nil is an empty line) with columns as wide as their widest cell.
func refTable(rows [][]cell) string {
	n := 0
	for _, r := range rows {
		if len(r) > n {
			n = len(r)
		}
	}
	width := make([]int, n)
	for _, r := range rows {
		for j, c := range r {
			if l := len(visible(c.sym)) + len(visible(c.text)); l > width[j] {
				width[j] = l
			}
		}
	}
	var sb strings.Builder
	for _, r := range rows {
		for j, c := range r {
			if j > 0 {
				sb.WriteString(" ")
			}
			pad := strings.Repeat(" ", width[j]-len(visible(c.sym))-len(visible(c.text)))
			if c.right || c.sym != "" {
				sb.WriteString(c.sym + pad + c.text)
			} else {
				sb.WriteString(c.text + pad)
			}
		}
		sb.WriteString("\n")
	}
	return sb.String()
}
