//go:build verifmc

package main

import (
	"fmt"
	"math/big"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"unicode"
)

// An independent, line-oriented reading of the ledger format the program supports.  It decides
// what is well formed and what a well-formed file says; anything else has to be refused.
//
// Documented limits that are part of the reading: bytes that are not UTF-8 are read as U+FFFD,
// lines starting with 'D' or '=' and everything from '=' behind a posting (balance assertions) are
// skipped, the price behind '@' and the time of day of a price are not kept.

const (
	reWS   = `[\t\v\f\r \x{85}\x{A0}\x{1680}\x{2000}-\x{200a}\x{2028}\x{2029}\x{202f}\x{205f}\x{3000}]`
	reDate = `([0-9]{1,4})/([0-9]{1,2})/([0-9]{1,2})`
	reTime = `[0-9]{1,2}:[0-9]{1,2}:[0-9]{1,2}`
	reCRun = `[^;@\-.0-9\n\t\v\f\r \x{85}\x{A0}\x{1680}\x{2000}-\x{200a}\x{2028}\x{2029}\x{202f}\x{205f}\x{3000}]`
	reAcct = `([a-zA-Z&'0-9:_]+)`
)

var (
	rxBlank   = regexp.MustCompile(`^` + reWS + `*(;.*)?$`)
	rxDate    = regexp.MustCompile(`^` + reDate)
	rxWS      = regexp.MustCompile(`^` + reWS + `*`)
	rxTime    = regexp.MustCompile(`^` + reTime)
	rxQuoted  = regexp.MustCompile(`^"([^"]*)"`)
	rxCCY     = regexp.MustCompile(`^` + reCRun + `+`)
	rxAmt     = regexp.MustCompile(`^(-?)([0-9,]*)(\.[0-9,]*)?`)
	rxAcct    = regexp.MustCompile(`^[!\[]?` + reAcct + `\]?`)
	rxInclude = regexp.MustCompile(`(?i)^include($|[^\p{L}\p{Nd}_].*$)`)
	rxAlias   = regexp.MustCompile(`(?i)^alias` + reWS + `*[!\[]?` + reAcct + `\]?` + reWS + `*=` + reWS + `*[!\[]?` + reAcct + `\]?` + reWS + `*(;.*)?$`)
)

type refErr string

type refState struct {
	files map[string]string
	m     *MBook
	txns  []MTxn
	err   string
}

func refParse(files map[string]string, main string) (m *MBook, txns []MTxn, errs string) {
	st := &refState{files: files, m: newMBook()}
	func() {
		defer func() {
			if r := recover(); r != nil {
				e, ok := r.(refErr)
				if !ok {
					panic(r)
				}
				st.err = string(e)
			}
		}()
		st.file(main, map[string]string{}, nil)
		st.closeTxn()
	}()
	if st.err != "" {
		return nil, nil, st.err
	}
	st.m.addTxns(st.txns)
	return st.m, st.txns, ""
}

func refFail(f string, a ...interface{}) { panic(refErr(fmt.Sprintf(f, a...))) }

func (st *refState) closeTxn() {
	if len(st.txns) == 0 {
		return
	}
	for c, v := range openBal(st.txns[len(st.txns)-1].Posts) {
		if v.Sign() != 0 {
			refFail("unbalanced in %s", c)
		}
	}
}

// openBal is what does not balance, with elided amounts balanced at the point they appear.
func openBal(ls []MLine) map[string]*big.Rat {
	open := map[string]*big.Rat{}
	for _, l := range ls {
		if l.Amt == nil {
			for c := range open {
				open[c] = new(big.Rat)
			}
			continue
		}
		if open[l.CCY] == nil {
			open[l.CCY] = new(big.Rat)
		}
		open[l.CCY].Add(open[l.CCY], l.Amt)
	}
	return open
}

// cur is the rest of a line being read.
type cur string

func (c *cur) ws() int {
	s := rxWS.FindString(string(*c))
	*c = (*c)[len(s):]
	return len(s)
}
func (c *cur) take(rx *regexp.Regexp) []string {
	g := rx.FindStringSubmatch(string(*c))
	if g == nil {
		return nil
	}
	*c = (*c)[len(g[0]):]
	return g
}
func (c *cur) date() int {
	g := c.take(rxDate)
	if g == nil {
		refFail("no date")
	}
	if len(*c) > 0 && (*c)[0] >= '0' && (*c)[0] <= '9' {
		refFail("bad date")
	}
	y, _ := strconv.Atoi(g[1])
	m, _ := strconv.Atoi(g[2])
	d, _ := strconv.Atoi(g[3])
	if !validYMD(y, m, d) {
		refFail("no such day")
	}
	return y*10000 + m*100 + d
}

func validYMD(y, m, d int) bool {
	if y < 1 || y > 9999 || m < 1 || m > 12 || d < 1 {
		return false
	}
	return d <= daysIn(y, m)
}

func daysIn(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%400 == 0 || y%4 == 0 && y%100 != 0 {
			return 29
		}
		return 28
	}
	return 31
}

func (c *cur) ccy() string {
	if strings.HasPrefix(string(*c), `"`) {
		g := c.take(rxQuoted)
		if g == nil {
			refFail("open quote")
		}
		return g[1]
	}
	g := c.take(rxCCY)
	if g == nil {
		return ""
	}
	return g[0]
}

func (c *cur) amt() *big.Rat {
	c.ws()
	g := c.take(rxAmt)
	digits := strings.ReplaceAll(g[2], ",", "")
	frac := strings.ReplaceAll(strings.TrimPrefix(g[3], "."), ",", "")
	if digits+frac == "" {
		refFail("no digits")
	}
	num, _ := new(big.Int).SetString(digits+frac, 10)
	if g[1] == "-" {
		num.Neg(num)
	}
	return new(big.Rat).SetFrac(num, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(len(frac))), nil))
}

func (c *cur) ccyAmt() (string, *big.Rat) {
	s := string(*c)
	if strings.HasPrefix(s, `"`) || rxCCY.MatchString(s) {
		ccy := c.ccy()
		return ccy, c.amt()
	}
	a := c.amt()
	c.ws()
	return c.ccy(), a
}

func (c *cur) noteEnd() string {
	c.ws()
	if strings.HasPrefix(string(*c), ";") {
		*c = (*c)[1:]
		c.ws()
		n := string(*c)
		*c = ""
		return n
	}
	return ""
}

func (c *cur) end() {
	if *c != "" {
		refFail("left-over text %q", string(*c))
	}
}

func (st *refState) file(name string, alias map[string]string, chain []string) {
	text, ok := st.files[name]
	if !ok {
		refFail("no file %s", name)
	}
	for _, c := range chain {
		if c == name {
			refFail("cycle")
		}
	}
	chain = append(chain[:len(chain):len(chain)], name)
	al := map[string]string{}
	for k, v := range alias {
		al[k] = v
	}
	lines := strings.Split(utf8Text(text), "\n")
	for _, line := range lines {
		line = strings.TrimSuffix(line, "\r")
		if rxBlank.MatchString(line) {
			continue
		}
		c := cur(line)
		if c.ws() > 0 {
			st.posting(&c, al)
			continue
		}
		switch ch := line[0]; {
		case ch == '=' || ch == 'D':
		case ch == 'P':
			c = c[1:]
			c.ws()
			d := c.date()
			c.ws()
			if c.take(rxTime) == nil {
				refFail("no time")
			}
			if len(c) > 0 && c[0] >= '0' && c[0] <= '9' {
				refFail("bad time")
			}
			c.ws()
			unit := c.ccy()
			c.ws()
			ccy, v := c.ccyAmt()
			if unit == "" || ccy == "" {
				refFail("no unit or currency")
			}
			c.noteEnd()
			c.end()
			st.m.addPrice(d, unit, ccy, v)
		case ch >= '0' && ch <= '9':
			d := c.date()
			c.ws()
			if strings.HasPrefix(string(c), "*") {
				c = c[1:]
				c.ws()
			}
			payee := ""
			if strings.HasPrefix(string(c), `"`) {
				g := c.take(rxQuoted)
				if g == nil {
					refFail("open quote")
				}
				payee = strings.TrimSpace(g[1])
			} else {
				s := string(c)
				i := strings.IndexByte(s, ';')
				if i < 0 {
					i = len(s)
				}
				payee = strings.TrimSpace(s[:i])
				c = cur(s[i:])
			}
			note := c.noteEnd()
			c.end()
			st.closeTxn()
			st.txns = append(st.txns, MTxn{Date: d, Payee: payee, Note: note})
		default:
			if g := rxAlias.FindStringSubmatch(line); g != nil && !isIdent(line[5:]) {
				al[g[1]] = g[2]
				continue
			}
			g := rxInclude.FindStringSubmatch(line)
			if g == nil {
				refFail("unknown directive")
			}
			f := g[1][len(rxWS.FindString(g[1])):]
			if f == "" || f == `"` {
				refFail("no file name")
			}
			if f[0] == '"' && f[len(f)-1] == '"' {
				f = f[1 : len(f)-1]
			}
			st.file(filepath.Join(filepath.Dir(name), f), al, chain)
		}
	}
}

func (st *refState) posting(c *cur, al map[string]string) {
	g := c.take(rxAcct)
	if g == nil {
		refFail("no account")
	}
	acct := g[1]
	if a, ok := al[acct]; ok {
		acct = a
	}
	if *c != "" && !strings.HasPrefix(string(*c), ";") && c.ws() == 0 {
		refFail("account runs into %q", string(*c))
	}
	c.ws()
	l := MLine{Acct: acct}
	if *c != "" && !strings.HasPrefix(string(*c), ";") {
		neg := strings.HasPrefix(string(*c), "-")
		if neg {
			*c = (*c)[1:]
		}
		l.CCY, l.Amt = c.ccyAmt()
		if neg {
			l.Amt.Neg(l.Amt)
		}
		if l.CCY == "" {
			refFail("no currency")
		}
		c.ws()
		if strings.HasPrefix(string(*c), "@") {
			*c = (*c)[1:]
			c.ws()
			c.ccyAmt()
		}
	}
	l.Note = c.noteEnd()
	if !strings.HasPrefix(string(*c), "=") {
		c.end()
	}
	if len(st.txns) == 0 {
		refFail("posting outside a transaction")
	}
	t := &st.txns[len(st.txns)-1]
	t.Posts = append(t.Posts, l)
}

// utf8Text reads each invalid byte as U+FFFD.
func utf8Text(s string) string {
	var sb strings.Builder
	for _, r := range s {
		sb.WriteRune(r)
	}
	return sb.String()
}

// isIdent: the text goes on with a letter, digit or underscore.
func isIdent(s string) bool {
	for _, r := range s {
		return unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_'
	}
	return false
}
