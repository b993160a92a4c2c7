//go:build verifmc

package main

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/app"
)

// Op is a book operation: the text given to the program, and its meaning on the model.
type Op struct {
	Text  string
	Model func(m *MBook)
	Real  func(b *book.Book) error // nil: through App.BookOps
}

func (o Op) run(b *book.Book) error {
	if o.Real != nil {
		return o.Real(b)
	}
	a := app.App{}
	return a.BookOps(b, o.Text)
}

// subst is the documented meaning of search and replacement: every match replaced, captures expanded.
func subst(re *regexp.Regexp, s, repl string) string {
	var sb strings.Builder
	last := 0
	for _, loc := range re.FindAllStringSubmatchIndex(s, -1) {
		sb.WriteString(s[last:loc[0]])
		sb.WriteString(string(re.ExpandString(nil, repl, s, loc)))
		last = loc[1]
	}
	sb.WriteString(s[last:])
	return sb.String()
}

func opMap(search, repl, alt string) Op {
	t := "map=/" + search + "/" + repl + "/"
	if alt != "" {
		t += alt + "/"
	}
	re := regexp.MustCompile(search)
	return Op{Text: t, Model: func(m *MBook) {
		for i := range m.Posts {
			p := &m.Posts[i]
			if re.MatchString(p.Acct) {
				p.Acct = subst(re, p.Acct, repl)
			} else if alt != "" {
				p.Acct = alt
			}
		}
		m.normalise()
	}}
}

func opMapCCY(search, repl string) Op {
	re := regexp.MustCompile(search)
	f := func(c string) string { return subst(re, c, repl) }
	return Op{Text: "mapccy=/" + search + "/" + repl + "/", Model: func(m *MBook) {
		for i := range m.Posts {
			m.Posts[i].CCY = f(m.Posts[i].CCY)
		}
		m.normalise()
		n := newMBook()
		for _, k := range m.Order {
			for _, p := range m.Prices[k] {
				n.addPrice(p.Date, f(k[0]), f(k[1]), p.Val)
			}
		}
		m.Prices, m.Order = n.Prices, n.Order
		dec := map[string]int{}
		for c, d := range m.Dec {
			if o, ok := dec[f(c)]; !ok || d > o {
				dec[f(c)] = d
			}
		}
		m.Dec = dec
	}}
}

func (p MPost) part(acct string, date int, f *big.Rat) MPost {
	q := p
	q.Acct, q.Date = acct, date
	q.Val = new(big.Rat).Mul(p.Val, f)
	return q
}

func opMove(search, target, factor string) Op {
	re := regexp.MustCompile(search)
	f := ratS(factor)
	return Op{Text: "move=/" + search + "/" + target + "/" + factor + "/", Model: func(m *MBook) {
		var add []MPost
		for _, p := range m.Posts {
			if re.MatchString(p.Acct) {
				add = append(add, p.part(p.Acct, p.Date, new(big.Rat).Neg(f)), p.part(subst(re, p.Acct, target), p.Date, f))
			}
		}
		m.Posts = append(m.Posts, add...)
		m.normalise()
	}}
}

func opDeprec(search, target string, months int64) Op {
	re := regexp.MustCompile(search)
	return Op{Text: fmt.Sprintf("depreciate=/%s/%s/%d/", search, target, months), Model: func(m *MBook) {
		var add []MPost
		for _, p := range m.Posts {
			if !re.MatchString(p.Acct) {
				continue
			}
			asset := subst(re, p.Acct, target)
			add = append(add, p.part(p.Acct, p.Date, rat(-1, 1)), p.part(asset, p.Date, rat(1, 1)))
			for j := int64(0); j < months; j++ {
				d := p.Date
				if j > 0 {
					mm := (p.Date/100%100 - 1) + int(j)
					d = (p.Date/10000+mm/12)*10000 + (mm%12+1)*100 + 1
				}
				add = append(add, p.part(asset, d, rat(-1, months)), p.part(p.Acct, d, rat(1, months)))
			}
		}
		m.Posts = append(m.Posts, add...)
		m.normalise()
	}}
}

func opSince(text string, date int) Op {
	return Op{Text: "since=" + text, Model: func(m *MBook) {
		var out []MPost
		for _, p := range m.Posts {
			if p.Date >= date {
				out = append(out, p)
			}
		}
		m.Posts = out
	}}
}

func opAsof(text string, date int) Op {
	return Op{Text: "asof=" + text, Model: func(m *MBook) {
		var out []MPost
		for _, p := range m.Posts {
			if p.Date < date {
				out = append(out, p)
			}
		}
		m.Posts = out
	}}
}

// floorDate is the first day of the period (independent of the code under test).
func floorDate(d int, typ string) int {
	y, mo := d/10000, d/100%100
	switch strings.ToLower(typ) {
	case "yearly":
		return y*10000 + 101
	case "quarterly":
		return y*10000 + ((mo-1)/3*3+1)*100 + 1
	case "monthly":
		return y*10000 + mo*100 + 1
	}
	return d
}

func opCombine(typ string) Op {
	return Op{Text: "combine=" + typ, Model: func(m *MBook) {
		for i := range m.Posts {
			m.Posts[i].Date = floorDate(m.Posts[i].Date, typ)
			m.Posts[i].Payee = ""
		}
		m.normalise()
	}}
}

func opDedup(ref []MTxn) Op {
	rm := mbookOf(ref, nil)
	return Op{Text: fmt.Sprintf("dedup(%d)", len(ref)), Model: func(m *MBook) {
		have := map[string]bool{}
		for _, p := range rm.Posts {
			have[fmt.Sprintf("%d %s", p.Date, p.Payee)] = true
		}
		var out []MPost
		for _, p := range m.Posts {
			if !have[fmt.Sprintf("%d %s", p.Date, p.Payee)] {
				out = append(out, p)
			}
		}
		m.Posts = out
	}, Real: func(b *book.Book) error {
		b.RemoveDuplicatesOf(buildBook(ref, nil))
		return nil
	}}
}

// ---- operations of the package only -------------------------------------------------------------

func txnKey(date int, payee string) string { return fmt.Sprintf("%d %s", date, payee) }

func (m *MBook) keep(f func(i int, t []MPost) bool) {
	var out []MPost
	for i, t := range m.trans() {
		if f(i, t) {
			out = append(out, t...)
		}
	}
	m.Posts = out
}

func opOnlyAccount(acct string) Op {
	return Op{Text: fmt.Sprintf("FilterByAccount(%q)", acct), Model: func(m *MBook) {
		m.keep(func(_ int, t []MPost) bool {
			for _, p := range t {
				if p.Acct == acct {
					return true
				}
			}
			return false
		})
	}, Real: func(b *book.Book) error { b.FilterByAccount(acct); return nil }}
}

// opOnlyTrans keeps the transactions of the mask (by position, the last bit again and again).
func opOnlyTrans(mask int) Op {
	in := func(i int) bool { return mask>>uint(i%6)&1 != 0 }
	return Op{Text: fmt.Sprintf("FilterTransaction(%b)", mask), Model: func(m *MBook) {
		m.keep(func(i int, _ []MPost) bool { return in(i) })
	}, Real: func(b *book.Book) error {
		n := -1
		var why error
		ts := map[int]string{}
		for i, t := range b.Transactions() {
			ts[i] = fmt.Sprint(txnKey(int(t.GetDate()), t.GetPayee()), " ", len(t))
		}
		b.FilterTransaction(func(date book.Date, payee string, posts book.Transaction) bool {
			n++
			if k := fmt.Sprint(txnKey(int(date), payee), " ", len(posts)); ts[n] != k {
				why = fmt.Errorf("transaction %d is offered as %q, is %q", n, k, ts[n])
			}
			return in(n)
		})
		if why == nil && n+1 != len(ts) {
			why = fmt.Errorf("%d transactions are offered, there are %d", n+1, len(ts))
		}
		return why
	}}
}

// opRates multiplies amounts from a date on with a rate, and those before with another; ccy is the
// new currency of the former, if any.
func opRates(rate, before, ccy string, from int) Op {
	r1, _ := new(big.Rat).SetString(rate)
	r2, _ := new(big.Rat).SetString(before)
	f := func(date int, c string) (*big.Rat, string) {
		if date < from {
			return r2, c
		}
		if ccy != "" {
			c = ccy
		}
		return r1, c
	}
	return Op{Text: fmt.Sprintf("MapAmount(%s, %s before %d, ccy %q)", rate, before, from, ccy), Model: func(m *MBook) {
		for i := range m.Posts {
			p := &m.Posts[i]
			r, c := f(p.Date, p.CCY)
			p.Val, p.CCY = new(big.Rat).Mul(p.Val, r), c
		}
		m.normalise()
	}, Real: func(b *book.Book) error {
		b.MapAmount(func(date book.Date, c string) (*big.Rat, string) {
			r, c := f(int(date), c)
			return new(big.Rat).Set(r), c
		})
		return nil
	}}
}

// opRetitle gives transactions other dates and payees.
func opRetitle(kind int) Op {
	f := func(date int, payee string) (int, string) {
		switch kind {
		case 0:
			return 20200101, payee
		case 1:
			return date, "same"
		case 2:
			return 20200101, "same"
		case 3:
			return 20250101 - date + 20190101, payee // the other way round
		case 4:
			return date, payee + "x"
		}
		return date, payee
	}
	return Op{Text: fmt.Sprintf("MapTransaction(%d)", kind), Model: func(m *MBook) {
		for i := range m.Posts {
			p := &m.Posts[i]
			p.Date, p.Payee = f(p.Date, p.Payee)
		}
		m.normalise()
	}, Real: func(b *book.Book) error {
		b.MapTransaction(func(date book.Date, payee string) (book.Date, string) {
			d, p := f(int(date), payee)
			return book.Date(d), p
		})
		return nil
	}}
}

func opMapPlain(search, repl, alt string) Op {
	re := regexp.MustCompile(search)
	return Op{Text: fmt.Sprintf("RegexAccounts(%q, %q, %q)", search, repl, alt), Model: func(m *MBook) {
		for i := range m.Posts {
			p := &m.Posts[i]
			if alt != "" && !re.MatchString(p.Acct) {
				p.Acct = alt
			} else if repl != "" {
				p.Acct = subst(re, p.Acct, repl)
			}
		}
		m.normalise()
	}, Real: func(b *book.Book) error { b.RegexAccounts(search, repl, alt); return nil }}
}

// ---- starting books -----------------------------------------------------------------------------

type start struct {
	name   string
	ts     []MTxn
	prices []mprice
}

func tx(date int, payee string, ls ...MLine) MTxn { return MTxn{Date: date, Payee: payee, Posts: ls} }

func noted(t MTxn, note string, pn ...string) MTxn {
	t.Note = note
	for i, n := range pn {
		t.Posts[i].Note = n
	}
	return t
}

func startBooks() []start {
	// more than twelve postings in one book (another sorting algorithm) and more than eight accounts
	var big []MTxn
	var wide MTxn
	wide = tx(20200115, "wide")
	for i := 0; i < 14; i++ {
		wide.Posts = append(wide.Posts, ln(fmt.Sprintf("E:%c:%d", 'A'+i%3, 13-i), fmt.Sprintf("%d.%02d", i+1, i), "USD"))
	}
	wide.Posts = append(wide.Posts, ln("B", "-105.91", "USD"))
	for i := range wide.Posts {
		wide.Posts[i].Note = fmt.Sprint("n", i*5%16)
	}
	wide.Note = "wide"
	big = append(big, wide, tx(20200115, "thin", ln("E:A:1", "3", "USD"), ln("B", "-3", "USD")), tx(20191231, "wide", ln("E:A:1", "-3", "USD"), ln("B", "3", "USD")))

	return []start{
		{"two-currency", []MTxn{
			noted(tx(20200229, "p", ln("A", "10", "USD"), ln("A:B", "-10", "USD"), ln("A", "3", "X"), ln("E:C", "-3", "X")), "tn", "n1", "n2", "", "n3"),
			tx(20200301, "q", ln("A:B", "5.5", "USD"), ln("E:C", "-5.5", "USD")),
			tx(20210101, "p", ln("E:C", "2", "X"), ln("E:D", "-2", "X")),
		}, []mprice{pr(20200101, "X", "USD", "2"), pr(20200301, "USD", "X", "0.4"), pr(20210101, "X", "EUR", "3")}},
		{"same day", []MTxn{
			noted(tx(20200115, "a", ln("A", "1", "USD"), ln("E:C", "-1", "USD")), "t1", "x", "y"),
			noted(tx(20200115, "b", ln("A", "2", "USD"), ln("E:C", "-2", "USD")), "t2", "z", ""),
			noted(tx(20200115, "a", ln("A", "-1", "USD"), ln("E:C", "1", "USD")), "", "", "w"),
			tx(20200131, "a", ln("A", "-2", "USD"), ln("A:B", "2", "USD")),
		}, nil},
		{"large", big, []mprice{pr(20200101, "USD", "X", "2")}},
		{"years", []MTxn{
			tx(20191231, "p", ln("A", "100000000000000000000", "USD"), ln("A:B", "-100000000000000000000", "USD")),
			tx(20200101, "p", ln("A:B", "0.000001", "USD"), ln("E:C", "-0.000001", "USD")),
			tx(20200331, "p", ln("E:C", "7", "X"), ln("A:B", "-7", "X")),
			tx(20200401, "", ln("E:C", "1", "USD"), ln("E:D", "-1", "USD")),
			tx(20201231, "z", ln("A:B", "3", "Y"), ln("E:D", "-3", "Y")),
		}, []mprice{pr(20200101, "X", "Y", "2"), pr(20200101, "Y", "X", "0.5"), pr(20200102, "X", "USD", "3"), pr(20200102, "X", "USD", "4")}},
		{"empty", nil, []mprice{pr(20200101, "X", "USD", "2")}},
		{"zero sum", []MTxn{
			tx(20200115, "p", ln("A", "1", "USD"), ln("A", "-1", "USD")),
			tx(20200116, "p", ln("A", "4", "USD"), ln("A:B", "-1", "USD"), ln("A:C", "-3", "USD"), ln("A", "1", "X"), ln("A:B", "-1", "X")),
		}, nil},
		// names that are equal once they are put together, and a payee that looks numbered
		{"run together", []MTxn{
			tx(20200115, "p", ln("A", "1", "BX"), ln("AB", "2", "X"), ln("E:C", "-1", "BX"), ln("E:C", "-2", "X")),
			tx(20200115, "p (2)", ln("A", "3", "B:X"), ln("A:B", "5", "X"), ln("E:C", "-3", "B:X"), ln("E:C", "-5", "X")),
			tx(20200115, "p", ln("AB", "7", "X"), ln("A:B", "-7", "X"), ln("A", "-1", "B:X"), ln("A:B", "1", "B:X")),
			tx(20200116, "p", ln("A", "-1", "BX"), ln("AB", "1", "BX")),
		}, []mprice{pr(20200101, "B", "XUSD", "2"), pr(20200101, "BX", "USD", "3"), pr(20200115, "BXU", "SD", "5"), pr(20200101, "X", "USD", "0.5")}},
	}
}

// opAlphabet is the alphabet of the sequence exploration.
func opAlphabet() []Op {
	return []Op{
		opMap("^A", "B", ""),
		opMap("^([^:]*):(.*)$", "$2:$1", ""),
		opMap("^A$", "E:C", ""),
		opMap(".*", "All", ""),
		opMap("B", "b", "Other"),
		opMap(":[^:]*$", ":Z", ""),
		opMap("^E", "E", "A"),
		opMove("^A$", "A:B", "0.5"),
		opMove("^E", "E:C", "1"),
		opMove("^(A):?(B?)$", "M:$1$2", "0.1"),
		opMove("C", "E:D", "1.1"),
		opMove(".", "S", "0"),
		opDeprec("^E", "Asset:Dep", 3),
		opDeprec("^A:B$", "$0:Dep", 12),
		opDeprec("^E:C$", "E:C", 2),
		opDeprec("D", "A", 1),
		opSince("2020-01-15", 20200115),
		opSince("2020-03", 20200301),
		opAsof("2020-01-16", 20200116),
		opAsof("2021", 20210101),
		opCombine("yearly"), opCombine("quarterly"), opCombine("Monthly"), opCombine("none"),
		opMapCCY("^USD$", "X"),
		opMapCCY("^(.*)$", "$1$1"),
		opMapCCY("^X$", "Y"),
	}
}

type bookT = book.Book
