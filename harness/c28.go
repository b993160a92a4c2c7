//go:build verifmc

package main

import (
	"fmt"
	"math/big"
	"strings"
)

func init() {
	register(&Prop{ID: "C28", Level: "exploration", Fresh: true,
		Rule:        "every operation sequence up to the depth bound on the start books x every period (and none) x every conversion x options that concern summaries only: the report that is not summarised is printed as text, Json, Ledger and HTML, each is read back and compared posting by posting with the reference model of the operations, the division into periods and the conversion at the price of the period's first day",
		Assumptions: []string{"periods that depend on today's date and prices of the same pair and day are left out", "text and HTML show amounts as displayed (rounded, grouped) and no notes"},
		Run:         runC28})
}

// detailTable is the table of the transactions of a model: one column each, the lines are those of the
// last one. ok is false if some amount has no line.
func detailTable(m *MBook, lang string) (text string, ok bool) {
	tr := m.trans()
	if len(tr) == 0 {
		return "", true
	}
	header := []cell{{text: "Account"}}
	line := map[[2]string]int{}
	for i, p := range tr[len(tr)-1] {
		line[[2]string{p.Acct, p.CCY}] = i
	}
	last := tr[len(tr)-1]
	vals := make([][]cell, len(last))
	for i, p := range last {
		vals[i] = append(vals[i], cell{text: p.Acct})
		for range tr {
			vals[i] = append(vals[i], cell{})
		}
	}
	for j, t := range tr {
		d := t[0].Date
		header = append(header, cell{text: fmt.Sprintf("%04d/%02d/%02d", d/10000, d/100%100, d%100), right: true})
		for _, p := range t {
			i, have := line[[2]string{p.Acct, p.CCY}]
			if !have {
				return "", false
			}
			vals[i][j+1] = cell{sym: refSymbol(p.CCY), text: refNumber(p.Val, shownDec(m, p.CCY), lang), right: true}
		}
	}
	rows := [][]cell{header}
	for i, v := range vals {
		if i > 0 {
			rows = append(rows, nil)
		}
		rows = append(rows, v)
	}
	return refTable(rows), true
}

// shownDec is the number of decimals a currency is shown with.
func shownDec(m *MBook, ccy string) int {
	if d, ok := m.Dec[ccy]; ok {
		return d
	}
	return 2
}

func detailed(t *T, s start, seq []Op, by, conv, lang string, shown bool) {
	w := t.w
	m := mbookOf(s.ts, s.prices)
	for _, op := range seq {
		op.Model(m)
	}
	if by != "skip" {
		opCombine(by).Model(m)
	}
	if conv != "" {
		convertModel(m, conv)
	}
	t.State(m.canonAll() + by + conv)
	want := wantPosts(m)
	base := []string{"-l", w.write("d.ledger", ledgerText(s.ts, priceLines(s.prices))), "--lang", lang, "--colour=false"}
	if conv != "" {
		base = append(base, "--ccy", conv)
	}
	base = append(base, "report", "--sum=false", "--splitby", by, fmt.Sprintf("--convert=%v", conv != ""))
	for _, only := range [][]string{nil, {"--credit", "^(A|Income)(:.*)?$", "--hidden", "A"}} {
		run := func(typ string) cliOut {
			a := append(append(base[:len(base):len(base)], only...), "--type", typ)
			t.Trans(1)
			return w.cli("", append(a, opTexts(seq)...)...)
		}
		read := func(typ string) string {
			c := run(typ)
			if c.err != nil {
				t.Failf("%s report %q fails: %v", typ, only, c.err)
			}
			return c.out
		}
		check := func(name, doc string, got []outPost, err error, amt func(string, *big.Rat) string) {
			if err != nil {
				t.Failf("%s report is malformed: %v\n%s", name, err, doc)
			}
			if d := comparePosts(got, want, amt, same, same, true); d != "" {
				t.Failf("%s report %q: %s\n%s", name, only, d, doc)
			}
		}
		doc := read("Json")
		got, err := docJSON(doc)
		check("Json", doc, got, err, nearestFloat)
		doc = read("Ledger")
		got, err = docLedger(doc)
		check("Ledger", doc, got, err, exactAmt)
		if !shown {
			continue
		}
		doc = read("HTML")
		ls, _, err := docHTML(doc)
		if err != nil {
			t.Failf("HTML report is malformed: %v\n%s", err, doc)
		}
		for i := 0; i < len(ls) || i < len(want); i++ {
			if i >= len(ls) || i >= len(want) {
				t.Failf("HTML report %q has %d postings of %d\n%s", only, len(ls), len(want), doc)
			}
			l, x := ls[i], want[i]
			money := refSymbol(x.CCY) + refNumber(x.Val, shownDec(m, x.CCY), lang)
			if l.date != x.Date || l.payee != x.Payee || l.term != x.Acct || l.money != money || l.level != 0 || l.first != x.first || l.pos != (x.Val.Sign() >= 0) {
				t.Failf("HTML report %q: %+v should be %s (%s)\n%s", only, l, mpost(x.MPost), money, doc)
			}
		}
		table, ok := detailTable(m, lang)
		c := run("Text")
		switch {
		case !ok && c.err == nil:
			t.Failf("text report %q leaves out postings that have no line:\n%s", only, c.out)
		case !ok && strings.TrimSpace(c.out) != "":
			t.Failf("text report %q fails (%v) behind output:\n%s", only, c.err, c.out)
		case ok && c.err != nil:
			t.Failf("text report %q fails: %v", only, c.err)
		case ok && c.out != table:
			t.Failf("text report %q is\n%s\nshould be\n%s", only, c.out, table)
		}
		if ok && len(want) > 0 {
			t.Outcome("table")
		} else if !ok {
			t.Outcome("refused table")
		}
	}
	t.Trace()
	if len(want) > 0 {
		t.Nontrivial(s.name + strings.Join(opTexts(seq), " ") + by + conv)
	}
}

func runC28(w *W) {
	books := append(uniquePrices(startBooks()), start{"same accounts", []MTxn{
		noted(tx(20200115, "p", ln("A", "1.5", "USD"), ln("A:B", "-1.5", "USD"), ln("A", "2", "X"), ln("A:B", "-2", "X")), "t", "n", "m", "", "o"),
		noted(tx(20200131, "q", ln("A", "-3", "USD"), ln("A:B", "3", "USD")), "u", "n2", ""),
		tx(20200401, "p", ln("A", "1234.5", "USD"), ln("A:B", "-1234.5", "USD"), ln("A", "1", "X"), ln("A:B", "-1", "X")),
		noted(tx(20210331, "r", ln("A", "-0.004", "USD"), ln("A:B", "0.004", "USD"), ln("A", "-7", "X"), ln("A:B", "7", "X")), "v"),
	}, []mprice{pr(20200101, "X", "USD", "2"), pr(20200131, "X", "USD", "3"), pr(20200701, "X", "USD", "0.25"), pr(20210331, "EUR", "X", "4")}})
	ops := opAlphabet()
	depth := 1
	if w.Thorough {
		depth = 2
	}
	w.Section("reports by period and currency")
	for _, s := range books {
		s := s
		one := func(seq []Op) {
			for _, by := range []string{"skip", "none", "monthly", "quarterly", "yearly"} {
				for i, conv := range []string{"", "USD", "X", "EUR"} {
					by, conv, lang := by, conv, []string{"en", "de", "fr", "nl"}[(i+len(by))%4]
					if w.Done() {
						return
					}
					w.Case(func() string {
						return fmt.Sprintf("%s by %s, conversion to %q, language %s, not summarised", seqDesc(s, seq)(), by, conv, lang)
					}, func(t *T) {
						detailed(t, s, seq, by, conv, lang, s.name != "years")
					})
				}
			}
		}
		one(nil)
		eachSeq(ops, depth, one)
	}

	w.Section("conversion without a currency")
	for _, s := range books {
		for _, typ := range []string{"Text", "Ledger", "Json", "HTML"} {
			for _, by := range []string{"skip", "none", "monthly", "quarterly", "yearly"} {
				s, typ, by := s, typ, by
				w.Case(func() string {
					return fmt.Sprintf("book '%s', %s report by %s, conversion to no currency", s.name, typ, by)
				}, func(t *T) {
					l := w.write("d.ledger", ledgerText(s.ts, priceLines(s.prices)))
					c := w.cli("", "-l", l, "--ccy=", "report", "--sum=false", "--convert", "--splitby", by, "--type", typ)
					t.Trans(1)
					if c.err == nil {
						t.Failf("no error: %s", c)
					}
					t.Nontrivial(s.name + typ + by)
				})
			}
		}
	}
}
