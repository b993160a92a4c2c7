//go:build verifmc

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"

	"github.com/mescanne/goledger/book"
)

func init() {
	register(&Prop{ID: "C14", Level: "exploration", Fresh: true,
		Rule:        "every payee, note, currency and account spelling over the character alphabets up to the stated lengths, every amount of the amount alphabet, and every operation sequence up to the depth bound on the start books: each output format (CSV, JSON plain and indented, Ledger, HTML, both Beancount forms) is read back by a strict reader of that format written for this check and compared posting by posting with the reference model",
		Assumptions: []string{"amounts beyond the floating-point range have no JSON form and are refused", "the HTML report shows amounts as displayed (rounded, grouped) and shows no notes", "Beancount names: accounts capitalised, currencies upper-cased without blanks"},
		Run:         runC14})
}

// outPost is a posting as an output document states it.
type outPost struct {
	date                      int
	payee, tnote, acct, ccy   string
	note, amt                 string // amount as written
	first                     bool   // first of its transaction
	hasPayee, hasTNote, hasPN bool
}

// wantPosts lists the postings of the model in order.
type wantPost struct {
	MPost
	first bool
}

func wantPosts(m *MBook) (out []wantPost) {
	for _, tr := range m.trans() {
		for j, p := range tr {
			out = append(out, wantPost{p, j == 0})
		}
	}
	return
}

// ---- strict readers -------------------------------------------------------------------------------

// readCSV reads RFC 4180 text with line feeds; a quote may only stand in a quoted field.
func readCSV(s string) ([][]string, error) {
	var rows [][]string
	i := 0
	for i < len(s) {
		var row []string
		for {
			if i < len(s) && s[i] == '"' {
				i++
				var sb strings.Builder
				for {
					if i >= len(s) {
						return nil, fmt.Errorf("open quote")
					}
					if s[i] == '"' {
						if i+1 < len(s) && s[i+1] == '"' {
							sb.WriteByte('"')
							i += 2
							continue
						}
						i++
						break
					}
					sb.WriteByte(s[i])
					i++
				}
				row = append(row, sb.String())
			} else {
				j := i
				for j < len(s) && s[j] != ',' && s[j] != '\n' {
					if s[j] == '"' || s[j] == '\r' {
						return nil, fmt.Errorf("stray quote or carriage return")
					}
					j++
				}
				row = append(row, s[i:j])
				i = j
			}
			if i >= len(s) {
				return nil, fmt.Errorf("no line end")
			}
			c := s[i]
			i++
			if c == '\n' {
				break
			}
			if c != ',' {
				return nil, fmt.Errorf("text behind a quoted field")
			}
		}
		rows = append(rows, row)
	}
	return rows, nil
}

func ymd(s, sep string) int {
	f := strings.Split(s, sep)
	if len(f) != 3 || len(f[0]) != 4 || len(f[1]) != 2 || len(f[2]) != 2 {
		return -1
	}
	y, e1 := strconv.Atoi(f[0])
	m, e2 := strconv.Atoi(f[1])
	d, e3 := strconv.Atoi(f[2])
	if e1 != nil || e2 != nil || e3 != nil {
		return -1
	}
	return y*10000 + m*100 + d
}

func docCSV(s string) (out []outPost, err error) {
	rows, err := readCSV(s)
	if err != nil {
		return nil, err
	}
	if len(rows) == 0 || strings.Join(rows[0], "|") != "date|payee|transaction_note|account|currency|amount|post_note" {
		return nil, fmt.Errorf("no header")
	}
	for _, r := range rows[1:] {
		if len(r) != 7 {
			return nil, fmt.Errorf("row with %d fields", len(r))
		}
		out = append(out, outPost{date: ymd(r[0], "/"), payee: r[1], tnote: r[2], acct: r[3], ccy: r[4], amt: r[5], note: r[6], hasPayee: true, hasTNote: true, hasPN: true})
	}
	return
}

func docJSON(s string) (out []outPost, err error) {
	var ts []struct {
		Date  string
		Payee string
		Note  string
		Posts []struct {
			Account string
			CCY     string
			Amount  json.Number
			Note    string
		}
	}
	d := json.NewDecoder(bytes.NewReader([]byte(s)))
	d.DisallowUnknownFields()
	if err := d.Decode(&ts); err != nil {
		return nil, err
	}
	if strings.TrimSpace(s[d.InputOffset():]) != "" {
		return nil, fmt.Errorf("text behind the document")
	}
	for _, t := range ts {
		tm, err := time.Parse("2006-01-02T15:04:05Z", t.Date)
		if err != nil {
			return nil, err
		}
		if tm.Hour()+tm.Minute()+tm.Second() != 0 {
			return nil, fmt.Errorf("date %s has a time of day", t.Date)
		}
		if len(t.Posts) == 0 {
			return nil, fmt.Errorf("transaction without postings")
		}
		for j, p := range t.Posts {
			out = append(out, outPost{date: tm.Year()*10000 + int(tm.Month())*100 + tm.Day(), payee: t.Payee, tnote: t.Note, acct: p.Account, ccy: p.CCY,
				amt: p.Amount.String(), note: p.Note, first: j == 0, hasPayee: true, hasTNote: true, hasPN: true})
		}
	}
	return
}

var rxLedgerHead = regexp.MustCompile(`^([0-9]{4}/[0-9]{2}/[0-9]{2}) ([^;]*?)( *; (.*))?$`)
var rxLedgerLine = regexp.MustCompile(`^  ([A-Za-z0-9&':_]+) +("[^"]*"|[^";@\-.0-9\s][^;@\-.0-9\s]*) *(-?[0-9]+(?:\.[0-9]+)?)(?: *; (.*))?$`)

// docLedger reads ledger lines without asking them to balance (summaries don't).
func docLedger(s string) (out []outPost, err error) {
	var head []string
	first := false
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		if g := rxLedgerLine.FindStringSubmatch(l); g != nil && head != nil {
			out = append(out, outPost{date: ymd(head[1], "/"), payee: strings.TrimSpace(head[2]), tnote: head[4], acct: g[1], ccy: strings.Trim(g[2], `"`), amt: g[3], note: g[4],
				first: first, hasPayee: true, hasTNote: true, hasPN: true})
			first = false
		} else if g := rxLedgerHead.FindStringSubmatch(l); g != nil {
			head, first = g, true
		} else {
			return nil, fmt.Errorf("line %q", l)
		}
	}
	return
}

// beanDoc is what a Beancount file says.
type beanDoc struct {
	posts       []outPost
	open, close map[string]int
	prices      []string
	option      string
}

var rxBeanStr = regexp.MustCompile(`^"((?:[^"\\]|\\.)*)"`)
var rxBeanPost = regexp.MustCompile(`^  (\S+)  *(-?[0-9]+(?:\.[0-9]+)?) (\S+)(?: *; (.*))?$`)

func docBean(s string) (*beanDoc, error) {
	d := &beanDoc{open: map[string]int{}, close: map[string]int{}}
	var cur *outPost
	first := false
	for _, l := range strings.Split(s, "\n") {
		switch {
		case strings.TrimSpace(l) == "" || l[0] == ';':
			continue
		case strings.HasPrefix(l, "option "):
			d.option += l
		case l[0] == ' ':
			g := rxBeanPost.FindStringSubmatch(l)
			if g == nil || cur == nil {
				return nil, fmt.Errorf("line %q", l)
			}
			p := *cur
			p.acct, p.amt, p.ccy, p.note, p.first = g[1], g[2], g[3], g[4], first
			first = false
			d.posts = append(d.posts, p)
		default:
			if len(l) < 12 || ymd(l[:10], "/") < 0 || l[10] != ' ' {
				return nil, fmt.Errorf("line %q", l)
			}
			date, rest := ymd(l[:10], "/"), l[11:]
			switch {
			case strings.HasPrefix(rest, "open ") || strings.HasPrefix(rest, "close "):
				k, a, _ := strings.Cut(rest, " ")
				m := d.open
				if k == "close" {
					m = d.close
				}
				if _, dup := m[a]; dup {
					return nil, fmt.Errorf("account %s has a second %s", a, k)
				}
				m[a] = date
			case strings.HasPrefix(rest, "price "):
				f := strings.Split(rest, " ")
				if len(f) != 4 {
					return nil, fmt.Errorf("line %q", l)
				}
				v, ok := new(big.Rat).SetString(f[2])
				if !ok {
					return nil, fmt.Errorf("line %q", l)
				}
				d.prices = append(d.prices, fmt.Sprintf("%08d %s %s %s", date, f[1], f[3], v.RatString()))
			case strings.HasPrefix(rest, "* "):
				g := rxBeanStr.FindStringSubmatch(rest[2:])
				if g == nil {
					return nil, fmt.Errorf("line %q", l)
				}
				tail := rest[2+len(g[0]):]
				note := ""
				if strings.TrimSpace(tail) != "" {
					n := strings.TrimLeft(tail, " ")
					if !strings.HasPrefix(n, "; ") {
						return nil, fmt.Errorf("line %q", l)
					}
					note = n[2:]
				}
				cur = &outPost{date: date, payee: regexp.MustCompile(`\\(.)`).ReplaceAllString(g[1], "$1"), tnote: note, hasPayee: true, hasTNote: true, hasPN: true}
				first = true
			default:
				return nil, fmt.Errorf("line %q", l)
			}
		}
	}
	return d, nil
}

// htmlNode reads the small part of HTML the report uses: properly nested elements and text.
type htmlNode struct {
	tag, class, text string
	kids             []*htmlNode
}

func readHTML(s string) (*htmlNode, error) {
	root := &htmlNode{}
	stack := []*htmlNode{root}
	for i := 0; i < len(s); {
		top := stack[len(stack)-1]
		if s[i] != '<' {
			j := strings.IndexByte(s[i:], '<')
			if j < 0 {
				j = len(s) - i
			}
			txt := s[i : i+j]
			if top.tag != "style" {
				if strings.ContainsAny(txt, ">\"'") {
					return nil, fmt.Errorf("unescaped character in %q", txt)
				}
				var err error
				if txt, err = unHTML(txt); err != nil {
					return nil, err
				}
			}
			top.text += txt
			i += j
			continue
		}
		if top.tag == "style" && !strings.HasPrefix(s[i:], "</style>") {
			top.text += "<"
			i++
			continue
		}
		j := strings.IndexByte(s[i:], '>')
		if j < 0 {
			return nil, fmt.Errorf("open tag")
		}
		tag := s[i+1 : i+j]
		i += j + 1
		if strings.HasPrefix(tag, "/") {
			if len(stack) == 1 || tag[1:] != top.tag {
				return nil, fmt.Errorf("</%s> closes <%s>", tag[1:], top.tag)
			}
			stack = stack[:len(stack)-1]
			continue
		}
		g := regexp.MustCompile(`^([a-z]+)(?: class="([a-z0-9 ]*)")?$`).FindStringSubmatch(tag)
		if g == nil {
			return nil, fmt.Errorf("tag <%s>", tag)
		}
		n := &htmlNode{tag: g[1], class: g[2]}
		top.kids = append(top.kids, n)
		stack = append(stack, n)
	}
	if len(stack) != 1 {
		return nil, fmt.Errorf("<%s> is not closed", stack[len(stack)-1].tag)
	}
	return root, nil
}

func unHTML(s string) (string, error) {
	var sb strings.Builder
	for i := 0; i < len(s); {
		if s[i] != '&' {
			sb.WriteByte(s[i])
			i++
			continue
		}
		j := strings.IndexByte(s[i:], ';')
		if j < 0 {
			return "", fmt.Errorf("unescaped & in %q", s)
		}
		c, ok := map[string]string{"amp": "&", "lt": "<", "gt": ">", "#34": "\"", "quot": "\"", "#39": "'", "apos": "'"}[s[i+1:i+j]]
		if !ok {
			return "", fmt.Errorf("unescaped & in %q", s)
		}
		sb.WriteString(c)
		i += j + 1
	}
	return sb.String(), nil
}

func (n *htmlNode) find(class string) (out []*htmlNode) {
	for _, k := range n.kids {
		if strings.Fields(k.class + " x")[0] == class {
			out = append(out, k)
		} else {
			out = append(out, k.find(class)...)
		}
	}
	return
}

// htmlLine is one line of a report with its depth.
type htmlLine struct {
	date        int
	payee       string
	term, money string
	level       int
	pos         bool
	first       bool
}

func docHTML(s string) (out []htmlLine, css string, err error) {
	root, err := readHTML(s)
	if err != nil {
		return nil, "", err
	}
	if len(root.kids) != 1 || root.kids[0].tag != "html" || len(root.kids[0].kids) != 2 {
		return nil, "", fmt.Errorf("not one html document with head and body")
	}
	h := root.kids[0]
	if len(h.kids[0].kids) == 1 {
		css = h.kids[0].kids[0].text
	}
	for _, r := range h.kids[1].find("report") {
		ds, ps, bodies := r.find("date"), r.find("payee"), r.find("posts")
		if len(ds) != 1 || len(ps) > 1 || len(bodies) != 1 {
			return nil, "", fmt.Errorf("report with %d dates, %d payees, %d bodies", len(ds), len(ps), len(bodies))
		}
		payee := ""
		if len(ps) == 1 {
			payee = ps[0].text
		}
		first := true
		var walk func(n *htmlNode, lvl int) error
		walk = func(n *htmlNode, lvl int) error {
			for _, k := range n.kids {
				switch strings.Fields(k.class + " x")[0] {
				case "indentbox":
					if err := walk(k, lvl+1); err != nil {
						return err
					}
				case "post":
					a, m := k.find("account"), k.find("amount")
					if len(a) != 1 || len(m) != 1 {
						return fmt.Errorf("posting with %d accounts, %d amounts", len(a), len(m))
					}
					out = append(out, htmlLine{ymd(ds[0].text, "/"), payee, a[0].text, m[0].text, lvl, strings.Contains(m[0].class, "pos"), first})
					first = false
				default:
					return fmt.Errorf("unexpected element of class %q", k.class)
				}
			}
			return nil
		}
		if err := walk(bodies[0], 0); err != nil {
			return nil, "", err
		}
	}
	return out, css, nil
}

// ---- comparison -----------------------------------------------------------------------------------

func comparePosts(got []outPost, want []wantPost, amtOK func(s string, v *big.Rat) string, acct, ccy func(string) string, grouped bool) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) {
			return "posting " + mpost(want[i].MPost) + " is missing"
		}
		g := got[i]
		if i >= len(want) {
			return fmt.Sprintf("extra posting %+v", g)
		}
		x := want[i]
		if g.date != x.Date || g.payee != x.Payee || g.acct != acct(x.Acct) || g.ccy != ccy(x.CCY) {
			return fmt.Sprintf("posting %d %q %s %s %s should be %s", g.date, g.payee, g.acct, g.amt, g.ccy, mpost(x.MPost))
		}
		if grouped && g.first != x.first {
			return fmt.Sprintf("posting %s: transactions are divided differently", mpost(x.MPost))
		}
		if d := amtOK(g.amt, x.Val); d != "" {
			return fmt.Sprintf("posting %s: %s", mpost(x.MPost), d)
		}
		if !member(g.note, x.Notes) {
			return fmt.Sprintf("posting %s has note %q, should be one of %q", mpost(x.MPost), g.note, x.Notes)
		}
		if !member(g.tnote, x.TNotes) {
			return fmt.Sprintf("posting %s has transaction note %q, should be one of %q", mpost(x.MPost), g.tnote, x.TNotes)
		}
	}
	return ""
}

func same(s string) string { return s }

func exactAmt(s string, v *big.Rat) string {
	r, ok := new(big.Rat).SetString(s)
	if !ok || strings.ContainsAny(s, "eE/") {
		return fmt.Sprintf("amount %q is not a decimal number", s)
	}
	if decimalsOf(v) < 0 {
		// no decimal form: rounded to the digits written
		_, frac, _ := strings.Cut(s, ".")
		unit := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(len(frac))), nil))
		d := new(big.Rat).Sub(r, v)
		if d.Abs(d).Cmp(unit.Quo(unit, big.NewRat(2, 1))) > 0 {
			return fmt.Sprintf("amount %s is not %s rounded", s, v.RatString())
		}
		return ""
	}
	if r.Cmp(v) != 0 {
		return fmt.Sprintf("amount is %s", s)
	}
	return ""
}

func nearestFloat(s string, v *big.Rat) string {
	f, err := strconv.ParseFloat(s, 64)
	x, _ := v.Float64()
	if err != nil || f != x {
		return fmt.Sprintf("number %s is not the nearest to %s", s, v.RatString())
	}
	return ""
}

// beanAcct is the capitalised form of an account: every letter behind a character that is neither
// letter, digit nor underscore (or at the beginning) in upper case.
func beanAcct(s string) string {
	var sb strings.Builder
	start := true
	for _, r := range s {
		if start {
			r = unicode.ToUpper(r)
		}
		sb.WriteRune(r)
		start = !(unicode.IsLetter(r) || unicode.IsDigit(r) || r == '_')
	}
	return sb.String()
}
func beanCCY(s string) string { return strings.ToUpper(strings.ReplaceAll(s, " ", "")) }

func checkBean(d *beanDoc, m *MBook, want []wantPost) string {
	if e := comparePosts(d.posts, want, exactAmt, beanAcct, beanCCY, true); e != "" {
		return e
	}
	first, last := map[string]int{}, map[string]int{}
	bal := map[[2]string]*big.Rat{}
	for _, p := range want {
		a := beanAcct(p.Acct)
		if _, ok := first[a]; !ok {
			first[a] = p.Date
		}
		last[a] = p.Date
		k := [2]string{a, p.CCY}
		if bal[k] == nil {
			bal[k] = new(big.Rat)
		}
		bal[k].Add(bal[k], p.Val)
	}
	for a, f := range first {
		o, ok := d.open[a]
		if !ok {
			return "account " + a + " is not opened"
		}
		if o > f {
			return fmt.Sprintf("account %s is opened on %d, posted to on %d", a, o, f)
		}
	}
	for a := range d.open {
		if _, ok := first[a]; !ok {
			return "account " + a + " is opened without a posting"
		}
	}
	for a, c := range d.close {
		if c <= last[a] {
			return fmt.Sprintf("account %s is closed on %d, posted to on %d", a, c, last[a])
		}
		for k, v := range bal {
			if k[0] == a && v.Sign() != 0 {
				return fmt.Sprintf("account %s is closed with a balance of %s %s", a, v.RatString(), k[1])
			}
		}
	}
	return ""
}

type outOpts struct {
	ledger, html, bean bool
	ccy                string
}

// outputs runs every output format over the ledger text and checks each document.
func outputs(t *T, text string, ops []Op, lang string, o outOpts) bool {
	w := t.w
	m, _, bad := refParse(map[string]string{"m.ledger": text}, "m.ledger")
	if bad != "" {
		t.Outcome("not a ledger")
		return false
	}
	var tail []string
	for _, op := range ops {
		op.Model(m)
		tail = append(tail, op.Text)
	}
	t.State(m.canonAll())
	want := wantPosts(m)
	finite := true
	inf := false
	for _, p := range want {
		if decimalsOf(p.Val) < 0 {
			finite = false
		}
		if f, _ := p.Val.Float64(); math.IsInf(f, 0) {
			inf = true
		}
	}
	base := []string{"-l", w.write("m.ledger", text), "--lang", lang}
	if o.ccy != "" {
		base = append(base, "--ccy", o.ccy)
	}
	run := func(args ...string) string {
		c := w.cli("", append(append(append([]string{}, base...), args...), tail...)...)
		t.Trans(1)
		if c.err != nil {
			if inf {
				return ""
			}
			t.Failf("%s fails: %v", strings.Join(args, " "), c.err)
		}
		return c.out
	}
	check := func(name, doc string, got []outPost, err error, amt func(string, *big.Rat) string, grouped bool) {
		if err != nil {
			t.Failf("%s is malformed: %v\n%s", name, err, doc)
		}
		if d := comparePosts(got, want, amt, same, same, grouped); d != "" {
			t.Failf("%s: %s\n%s", name, d, doc)
		}
	}
	doc := run("export", "--type", "CSV")
	got, err := docCSV(doc)
	amt := exactAmt
	check("CSV export", doc, got, err, amt, false)
	report := []string{"report", "--sum=false", "--convert=false", "--splitby", "skip", "--type"}
	if !inf {
		for _, a := range [][]string{{"export", "--type", "Json"}, {"export", "--type", "Json", "--jsonpretty"}, append(report[:6:6], "Json"), append(report[:6:6], "Json", "--jsonpretty")} {
			doc = run(a...)
			got, err = docJSON(doc)
			check(strings.Join(a, " "), doc, got, err, nearestFloat, true)
			if pretty := strings.Count(doc, "\n") > 0; len(want) > 0 && pretty != (a[len(a)-1] == "--jsonpretty") {
				t.Failf("%s: indented %v", strings.Join(a, " "), pretty)
			}
		}
	}
	if o.ledger && finite {
		doc = run(append(report[:6:6], "Ledger")...)
		gm, _, bad := refParse(map[string]string{"e.ledger": doc}, "e.ledger")
		if bad != "" {
			t.Failf("Ledger report is malformed: %s\n%s", bad, doc)
		}
		x := m.clone()
		x.Prices = map[[2]string][]MPrice{}
		if d := sameBook(gm, x); d != "" {
			t.Failf("Ledger report: %s\n%s", d, doc)
		}
	}
	if o.html {
		doc = run(append(report[:6:6], "HTML")...)
		ls, _, err := docHTML(doc)
		if err != nil {
			t.Failf("HTML report is malformed: %v\n%s", err, doc)
		}
		for i := 0; i < len(ls) || i < len(want); i++ {
			if i >= len(ls) || i >= len(want) {
				t.Failf("HTML report has %d postings of %d\n%s", len(ls), len(want), doc)
			}
			l, x := ls[i], want[i]
			money := refSymbol(x.CCY) + refNumber(x.Val, m.Dec[x.CCY], lang)
			if l.date != x.Date || l.payee != x.Payee || l.term != x.Acct || l.money != money || l.level != 0 || l.first != x.first || l.pos != (x.Val.Sign() >= 0) {
				t.Failf("HTML report: %+v should be %s (%s)\n%s", l, mpost(x.MPost), money, doc)
			}
		}
	}
	if o.bean {
		for _, a := range [][]string{{"export", "--type", "Beancount"}, append(report[:6:6], "Beancount")} {
			doc = run(a...)
			d, err := docBean(doc)
			if err != nil {
				t.Failf("%s is malformed: %v\n%s", strings.Join(a, " "), err, doc)
			}
			if e := checkBean(d, m, want); e != "" {
				t.Failf("%s: %s\n%s", strings.Join(a, " "), e, doc)
			}
			if a[0] == "export" {
				var wp []string
				for k, l := range m.Prices {
					for _, p := range l {
						if decimalsOf(p.Val) >= 0 {
							wp = append(wp, fmt.Sprintf("%08d %s %s %s", p.Date, beanCCY(k[0]), beanCCY(k[1]), p.Val.RatString()))
						}
					}
				}
				sort.Strings(wp)
				sort.Strings(d.prices)
				if g, x := strings.Join(d.prices, "\n"), strings.Join(wp, "\n"); g != x {
					t.Failf("Beancount export states the prices\n%s\nshould be\n%s", g, x)
				}
			}
		}
	}
	t.Trace()
	return true
}

func runC14(w *W) {
	one := func(text, lang string, o outOpts) {
		w.Case(func() string { return fmt.Sprintf("language %q, ledger:\n%s", lang, text) }, func(t *T) {
			if outputs(t, text, nil, lang, o) {
				t.Nontrivial(text)
			}
		})
	}
	all := outOpts{ledger: true, html: true, bean: true}

	w.Section("payees and notes")
	pa := []string{"a", " ", "\"", ",", ";", "<", "&", ">", "'", "\\", "*", "é", "\t", "%", "&lt;", "\x01", "\u2028", "\xff", "`", "\x7f", "\ufeff", "{"}
	n := 3
	if w.Thorough {
		n = 4
	}
	posts := "  A  1.25 USD\n  B  -1.25 USD ;"
	words(pa, n, func(s string) {
		one("2020/01/02 "+s+"\n"+posts+s+"\n2020/01/03 "+s+"x ; t\n"+posts+"n\n", "en", all)
		one("2020/01/02 p ;"+s+"\n"+posts+"x"+s+"\n", "en", all)
		if !strings.Contains(s, "\"") {
			one("2020/01/02 \""+s+"\" ; "+s+"x\n"+posts+s+"x\n2020/01/02 \""+s+"\"\n"+posts+"\n", "de", all)
		}
	})

	w.Section("currencies")
	ca := []string{"A", "b", "$", "€", " ", "\"", ",", "1", "-", ".", ";", "<", "&", "'", "=", "\\", "/", "%"}
	words(ca, 3, func(s string) {
		for _, f := range []string{s, "\"" + s + "\""} {
			if strings.Contains(s, "\"") && f != s {
				continue
			}
			bean := true
			for _, r := range s {
				if !(r >= 'A' && r <= 'Z' || r >= 'a' && r <= 'z' || r == ' ') {
					bean = false
				}
			}
			one("2020/01/02 p\n  A  "+f+" 1.25\n  B  -1.25 "+f+" ; n\nP 2020/01/02 00:00:00 "+f+" USD 0.5\n", "en", outOpts{ledger: true, html: true, bean: bean && strings.TrimSpace(s) != ""})
		}
	})

	w.Section("accounts")
	words([]string{"a", "B", "9", ":", "_", "&", "'"}, n, func(s string) {
		one("2020/01/02 p\n  "+s+"  1.25 USD\n  x:"+s+"  -1.25 USD\n2020/01/03 p\n  "+s+"  -1.25 USD\n  A  1.25 USD\n", "en", all)
	})

	w.Section("amounts")
	var amts []string
	for _, i := range []string{"0", "1", "12", "999", "1000", "1234567", "123456789012345678", "9007199254740993", "100000000000000000000000000"} {
		for _, f := range []string{"", ".5", ".05", ".1", ".3", ".125", ".000001", ".0000001", ".123456789012345678", ".10"} {
			amts = append(amts, i+f)
		}
	}
	for _, l := range []string{"en", "de", "fr", "nl"} {
		for i, a := range amts {
			o := all
			o.html = len(strings.ReplaceAll(a, ".", "")) <= 15 // display goes through floating point
			one("2020/01/02 p\n  A  "+a+" USD\n  B  -"+a+" USD\n", l, o)
			b := amts[(i*7+3)%len(amts)]
			o.html = false
			one("2020/01/02 p\n  A  "+a+" USD\n  A  $"+b+"\n  B  -"+a+" USD\n  B  $-"+b+"\n", l, outOpts{ledger: true})
			one("2020/01/02 p\n  A  "+a+" USD\n  A  "+b+" EUR\n  B  -"+a+" USD\n  B  -"+b+" EUR\n2020/01/03 p\n  A  -"+a+" USD\n  B  "+a+" USD\nP 2020/01/01 00:00:00 EUR USD "+a+"\n", l, o)
		}
	}
	one("2020/01/02 p\n  A  1"+strings.Repeat("0", 309)+" USD\n  B\n", "en", outOpts{ledger: true, bean: true})

	w.Section("opening and closing of accounts")
	// every sequence of up to four transfers between three accounts in two currencies
	type tr struct {
		a, b string
		amt  string
		ccy  string
	}
	var trs []tr
	for _, c := range []string{"USD", "EUR"} {
		for _, p := range [][2]string{{"A", "B"}, {"B", "A"}, {"A", "c"}, {"C", "B"}} {
			trs = append(trs, tr{p[0], p[1], "1", c})
		}
	}
	trs = append(trs, tr{"A", "B", "2", "USD"})
	depth := 4
	if w.Thorough {
		depth = 5
	}
	seqs(len(trs), depth, func(s []int) {
		var sb strings.Builder
		for i, k := range s {
			x := trs[k]
			fmt.Fprintf(&sb, "2019/12/%02d p%d\n  %s  %s %s\n  %s  -%s %s\n", 29+i, i, x.a, x.amt, x.ccy, x.b, x.amt, x.ccy)
		}
		one(sb.String(), "en", outOpts{bean: true})
	})

	w.Section("operation sequences")
	ops := opAlphabet()
	depth = 2
	for _, s := range startBooks() {
		s := s
		text := ledgerText(s.ts, priceLines(s.prices))
		o := all
		if s.name == "years" {
			o.html = false
		}
		run := func(seq []Op, lang string) {
			w.Case(func() string { return seqDesc(s, seq)() + " language " + lang }, func(t *T) {
				o := o
				o.ccy = "USD"
				if outputs(t, text, seq, lang, o) {
					t.Nontrivial(s.name + strings.Join(opTexts(seq), " "))
				}
			})
		}
		for _, l := range []string{"en", "de", "fr", "nl"} {
			run(nil, l)
		}
		eachSeq(ops, depth, func(seq []Op) {
			if !w.Done() {
				run(seq, "en")
			}
		})
	}

	w.Section("spellings of formats")
	caps := func(s string, bits int) string {
		b := []byte(strings.ToLower(s))
		for i := range b {
			if bits>>uint(i%4)&1 == 1 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
	for _, s := range startBooks() {
		text := ledgerText(s.ts, priceLines(s.prices))
		for _, c := range [][]string{
			{"export", "--type", "Ledger"}, {"export", "--type", "Json"}, {"export", "--type", "Beancount"}, {"export", "--type", "CSV"},
			{"report", "--type", "Text"}, {"report", "--type", "Ledger"}, {"report", "--type", "Json"}, {"report", "--type", "HTML"}, {"report", "--type", "Beancount"}, {"report", "--sum=false", "--type", "Text"},
			{"report", "--splitby", "yearly"}, {"report", "--splitby", "quarterly"}, {"report", "--splitby", "monthly"}, {"report", "--splitby", "today"}, {"report", "--splitby", "none"}, {"report", "--splitby", "skip"},
			{"register", ".*", "--type", "Text"}, {"register", ".*", "--type", "JSON"}, {"register", ".*", "--type", "CSV"},
		} {
			s, c := s, c
			w.Case(func() string { return fmt.Sprintf("book '%s', %q in other capitals", s.name, c) }, func(t *T) {
				l := w.write("caps.ledger", text)
				run := func(v string) cliOut {
					t.Trans(1)
					return w.cli("", append(append([]string{"-l", l}, c[:len(c)-1]...), v)...)
				}
				want := run(c[len(c)-1])
				for bits := 0; bits < 16; bits++ {
					v := caps(c[len(c)-1], bits)
					if o := run(v); o.out != want.out || fmt.Sprint(o.err) != fmt.Sprint(want.err) {
						t.Failf("%q gives %s instead of %s", v, o, want)
					}
				}
				t.Nontrivial(s.name + fmt.Sprint(c))
			})
		}
	}

	w.Section("summaries")
	credit := "^(Income|Trading|Liability|Equity)(:.*)?$"
	for _, s := range append(uniquePrices(startBooks()), start{"deep", []MTxn{
		tx(20200115, "p", ln("E:A:B:C:D", "1.5", "USD"), ln("E:A:B:C", "2", "USD"), ln("E:A:B:X", "3", "EUR"), ln("Income:W", "-3", "EUR"), ln("Income:Z", "-3.5", "USD")),
		tx(20200315, "q", ln("E:A:B:C:D", "4", "USD"), ln("Q:A:B:C", "-5", "USD"), ln("F<", "1", "USD")),
	}, []mprice{pr(20200101, "EUR", "USD", "1.1")}}, start{"very deep", []MTxn{
		tx(20200115, "p", ln("E:A:B:C:D:E:F:G:H:I:J:K:L:M:N:O:P", "1.5", "USD"), ln("E:A:B:C:D:E:F:G:H:I:J:K:L:M:N:O:R", "1", "USD"), ln("E:A:B:C:S:D", "2", "USD"), ln("E:A:B:C:S:E", "2", "USD"), ln("E:A:T", "3", "USD"), ln("W", "-9.5", "USD")),
		tx(20210115, "p", ln("E:A:B:C:D:E:F:G:H:I:J:K:L:M:N:O:P", "1.5", "USD"), ln("A:A:B:C:D:E", "1", "USD"), ln("W", "-2.5", "USD")),
	}, nil}) {
		s := s
		if s.name == "years" {
			continue
		}
		if s.name == "deep" {
			s.ts[1].Posts[2].Acct = "F&G"
		}
		text := ledgerText(s.ts, priceLines(s.prices))
		for _, by := range []string{"yearly", "quarterly", "monthly", "skip", "none"} {
			for _, conv := range []bool{true, false} {
				hide := []string{"", "A", "E:C"}
				if strings.HasSuffix(s.name, "deep") {
					hide = append(hide, "E", "E:A", "E:A:B", "E:A:B:C", "E:A:B:C:D", "E:A:B:C:S", "Q:A", "E:A:B:C:D:E:F:G:H:I:J:K:L:M:N:O")
				}
				for _, hidden := range hide {
					for _, lang := range []string{"en", "fr"} {
						by, conv, hidden, lang := by, conv, hidden, lang
						w.Case(func() string {
							return fmt.Sprintf("summary of book '%s' by %s, convert %v, hidden %q, language %s", s.name, by, conv, hidden, lang)
						}, func(t *T) {
							summaries(t, s, text, by, conv, hidden, credit, lang)
							t.Nontrivial(s.name + by + fmt.Sprint(conv) + hidden)
						})
					}
				}
			}
		}
	}
}

// summaries compares the Json, Ledger and HTML summaries with the accumulated transactions.
func summaries(t *T, s start, text, by string, conv bool, hidden, credit, lang string) {
	w := t.w
	b := buildBook(s.ts, s.prices)
	if by != "skip" {
		b.SplitBy(by)
	}
	if conv {
		b.MapAmount(func(d book.Date, c string) (*big.Rat, string) {
			r, _ := b.GetPrice(d, c, "USD")
			return r, "USD"
		})
	}
	tr := b.Accumulate("USD", ":", regexp.MustCompile(credit), hidden)
	args := []string{"-l", w.write("m.ledger", text), "--lang", lang, "--ccy", "USD", "report", "--sum", "--credit", credit, "--splitby", by, "--hidden", hidden, fmt.Sprintf("--convert=%v", conv), "--type"}
	run := func(a ...string) string {
		c := w.cli("", append(args[:len(args):len(args)], a...)...)
		t.Trans(1)
		if c.err != nil {
			t.Failf("%v fails: %v", a, c.err)
		}
		return c.out
	}
	var want []wantPost
	for _, x := range tr {
		for j, p := range x {
			// the notes of what was added together are not compared
			want = append(want, wantPost{MPost{int(p.GetDate()), p.GetPayee(), nil, p.GetAccount(), p.GetCCY(), nil, p.GetAmount()}, j == 0})
		}
	}
	cmp := func(name, doc string, got []outPost, err error, amt func(string, *big.Rat) string) {
		if err != nil {
			t.Failf("%s is malformed: %v\n%s", name, err, doc)
		}
		for i := range got {
			if i < len(want) {
				want[i].Notes, want[i].TNotes = []string{got[i].note}, []string{got[i].tnote}
			}
		}
		if d := comparePosts(got, want, amt, same, same, true); d != "" {
			t.Failf("%s: %s\n%s", name, d, doc)
		}
	}
	doc := run("Json")
	got, err := docJSON(doc)
	cmp("Json summary", doc, got, err, nearestFloat)
	doc = run("Ledger")
	got, err = docLedger(doc)
	cmp("Ledger summary", doc, got, err, exactAmt)
	css := "x { a > b }"
	doc = run("HTML", "--htmlcss", css)
	ls, gotCSS, err := docHTML(doc)
	if err != nil {
		t.Failf("HTML summary is malformed: %v\n%s", err, doc)
	}
	if strings.TrimSpace(gotCSS) != css {
		t.Failf("HTML summary has style %q", gotCSS)
	}
	dec := b.GetCCYDecimals()
	i := 0
	for _, x := range tr {
		for j, p := range x {
			if i >= len(ls) {
				t.Failf("HTML summary lacks %s\n%s", p, doc)
			}
			d, ok := dec[p.GetCCY()]
			if !ok {
				d = 2
			}
			l := ls[i]
			money := refSymbol(p.GetCCY()) + refNumber(p.GetAmount(), d, lang)
			if l.date != int(p.GetDate()) || l.payee != p.GetPayee() || l.term != p.GetAccountTerm() || l.level != p.GetAccountLevel() || l.money != money || l.first != (j == 0) || l.pos != (p.GetAmount().Sign() >= 0) {
				t.Failf("HTML summary: %+v should be %s %s\n%s", l, p, money, doc)
			}
			i++
		}
	}
	if i != len(ls) {
		t.Failf("HTML summary has %d lines too many\n%s", len(ls)-i, doc)
	}
	t.Trace()
}
