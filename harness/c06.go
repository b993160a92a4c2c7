//go:build verifmc

package main

import (
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strings"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/app"
)

func init() {
	register(&Prop{ID: "C06", Level: "exploration", Fresh: true,
		Rule:        "every book of one to three transfers over the account, amount, currency and date alphabets, crossed with price tables and credit/hidden/divider settings, accumulated by the real code and compared line by line with the definition (sums of converted postings, enclosing groups, order, sign, hiding); and the text report of a product of books and options compared cell by cell",
		Assumptions: []string{"groups may additionally be shown for prefixes with a single account below them", "an account's own postings under its own group line are not siblings in the ordering", "dividers are not empty"},
		Run:         runC06})
}

type accSet struct {
	ccy, div, credit, hidden string
}

func isUnder(acct, group, div string) bool {
	return acct == group || strings.HasPrefix(acct, group+div)
}

// checkAccumulate compares the lines of an accumulated book with the definition.
func checkAccumulate(t *T, m *MBook, set accSet, tr []book.Transaction) {
	mt := m.trans()
	var creditre *regexp.Regexp
	if set.credit != "" {
		creditre = regexp.MustCompile(set.credit)
	}
	// every account and currency of the book
	type ac struct{ a, c string }
	lines := map[ac]bool{}
	accts := map[string]bool{}
	for _, p := range m.Posts {
		lines[ac{p.Acct, p.CCY}] = true
		accts[p.Acct] = true
	}
	// groups that must be there
	need := map[string]string{}
	for k := range lines {
		if k.c != set.ccy {
			need[k.a] = "holds " + k.c
		}
	}
	var al []string
	for a := range accts {
		al = append(al, a)
	}
	sort.Strings(al)
	for i, a := range al {
		for _, b := range al[i+1:] {
			pa, pb := strings.Split(a, set.div), strings.Split(b, set.div)
			n := 0
			for n < len(pa) && n < len(pb) && pa[n] == pb[n] {
				n++
			}
			if n > 0 {
				g := strings.Join(pa[:n], set.div)
				need[g] = "is common to " + a + " and " + b
			}
		}
	}
	// which periods are visible at all
	hiddenAll := len(al) == 1 && al[0] == set.hidden
	if hiddenAll || len(mt) == 0 {
		if len(tr) != 0 {
			t.Failf("there is nothing to show, but %d transactions are shown", len(tr))
		}
		return
	}
	if len(tr) != len(mt) {
		t.Failf("%d periods are shown, the book has %d", len(tr), len(mt))
	}
	shape0 := ""
	for i, tx := range tr {
		d, payee := mt[i][0].Date, mt[i][0].Payee
		if int(tx.GetDate()) != d || tx.GetPayee() != payee {
			t.Failf("period %d is %d %q, should be %d %q", i, tx.GetDate(), tx.GetPayee(), d, payee)
		}
		val := map[ac]*big.Rat{}
		own := map[string]*big.Rat{} // converted own postings
		for _, p := range mt[i] {
			val[ac{p.Acct, p.CCY}] = p.Val
			r, _ := m.refPrice(d, p.CCY, set.ccy)
			if own[p.Acct] == nil {
				own[p.Acct] = new(big.Rat)
			}
			own[p.Acct].Add(own[p.Acct], new(big.Rat).Mul(p.Val, r))
		}
		total := func(g string) *big.Rat {
			s := new(big.Rat)
			for a, v := range own {
				if isUnder(a, g, set.div) {
					s.Add(s, v)
				}
			}
			return s
		}
		// the shown groups: lines beyond the posting lines
		count := map[ac]int{}
		for _, p := range tx {
			count[ac{p.GetAccount(), p.GetCCY()}]++
		}
		groups := map[string]bool{}
		for k, n := range count {
			posting := 0
			if lines[k] {
				posting = 1
			}
			switch {
			case n == posting:
			case n == posting+1 && k.c == set.ccy:
				groups[k.a] = true
				under := false
				for _, a := range al {
					if isUnder(a, k.a, set.div) {
						under = true
					}
				}
				if !under {
					t.Failf("%d: group %q has no accounts", d, k.a)
				}
			default:
				t.Failf("%d: %s %s is shown %d times", d, k.a, k.c, n)
			}
		}
		for k := range lines {
			if k.a == set.hidden && set.hidden != "" {
				continue
			}
			if count[k] == 0 {
				t.Failf("%d: the line of %s %s is missing", d, k.a, k.c)
			}
		}
		if set.hidden != "" {
			for _, p := range tx {
				if p.GetAccount() == set.hidden {
					t.Failf("%d: the hidden account is shown", d)
				}
			}
			// the hidden account may have been a group
			if need[set.hidden] != "" {
				groups[set.hidden] = true
			}
		}
		for g, why := range need {
			if !groups[g] && g != set.hidden {
				t.Failf("%d: no group line for %q, which %s", d, g, why)
			}
		}
		// values, levels, names, enclosing groups
		var shape []string
		check := func(groups map[string]bool) (msg string) {
			defer func() {
				if r := recover(); r != nil {
					f, ok := r.(failure)
					if !ok {
						panic(r)
					}
					msg = f.msg
				}
			}()
			var open []string
			var gl []string
			for g := range groups {
				gl = append(gl, g)
			}
			sort.Slice(gl, func(x, y int) bool { return len(gl[x]) < len(gl[y]) })
			lastSib := map[string]*big.Rat{}
			lastName := map[string]string{}
			seenGroup := map[string]bool{}
			shape = shape[:0]
			for j, p := range tx {
				a, c := p.GetAccount(), p.GetCCY()
				isGroup := false
				if c == set.ccy && groups[a] && !seenGroup[a] {
					isGroup = true // the group line comes before what it encloses
					seenGroup[a] = true
				}
				want := new(big.Rat)
				if isGroup {
					want = total(a)
				} else if v := val[ac{a, c}]; v != nil {
					want.Set(v)
				}
				if creditre != nil && creditre.MatchString(a) {
					want.Neg(want)
				}
				if p.GetAmount().Cmp(want) != 0 {
					t.Failf("%d: %s (line %d, group %v) shows %s %s, should be %s", d, a, j, isGroup, p.GetAmount().RatString(), c, want.RatString())
				}
				var chain []string
				for _, g := range gl {
					if g == a && !isGroup || g != a && isUnder(a, g, set.div) {
						chain = append(chain, g)
					}
				}
				if p.GetAccountLevel() != len(chain) {
					t.Failf("%d: %s is shown at level %d, should be %d below %q", d, a, p.GetAccountLevel(), len(chain), chain)
				}
				term := a
				if len(chain) > 0 {
					term = strings.TrimPrefix(strings.TrimPrefix(a, chain[len(chain)-1]), set.div)
				}
				if p.GetAccountTerm() != term {
					t.Failf("%d: %s is shown as %q below %q, should be %q", d, a, p.GetAccountTerm(), chain, term)
				}
				// the open groups are those that enclose the line
				for len(open) > 0 {
					top := open[len(open)-1]
					in := false
					for _, g := range chain {
						if g == top {
							in = true
						}
					}
					if in {
						break
					}
					open = open[:len(open)-1]
				}
				var vis []string
				for _, g := range chain {
					if g != set.hidden || set.hidden == "" {
						vis = append(vis, g)
					}
				}
				if strings.Join(open, "\x00") != strings.Join(vis, "\x00") {
					t.Failf("%d: %s is shown inside %q, should be inside %q", d, a, open, vis)
				}
				if isGroup {
					open = append(open, a)
				}
				// order of siblings
				if !(groups[a] && !isGroup) {
					parent := strings.Join(chain, "\x00")
					v := total(a)
					if lv := lastSib[parent]; lv != nil && lastName[parent] != a && v.Cmp(lv) > 0 {
						t.Failf("%d: %s (%s) is shown after its sibling %s (%s)", d, a, v.RatString(), lastName[parent], lv.RatString())
					}
					lastSib[parent], lastName[parent] = v, a
				}
				shape = append(shape, fmt.Sprintf("%s|%s|%d|%s", a, c, p.GetAccountLevel(), p.GetAccountTerm()))
			}
			sort.Strings(shape)
			return ""
		}
		msg := check(groups)
		if msg != "" && set.hidden != "" && !groups[set.hidden] {
			// the hidden account may have been shown as a group of its own
			groups[set.hidden] = true
			if check(groups) == "" {
				msg = ""
			}
		}
		if msg != "" {
			t.Failf("%s", msg)
		}
		s := strings.Join(shape, "\n")
		if i > 0 && s != shape0 {
			t.Failf("%d has other lines than the period before:\n%s\nand\n%s", d, s, shape0)
		}
		shape0 = s
	}
}

func runC06(w *W) {
	nprices := []mprice{pr(20200101, "X", "USD", "2"), pr(20200301, "X", "USD", "3.5"), pr(20200115, "USD", "Y", "4")}
	iprices := []mprice{pr(20200101, "USD", "X", "0.4"), pr(20200131, "USD", "X", "0.5"), pr(20200101, "X", "Y", "3")}
	c := func(ts []MTxn, prices []mprice, sets []accSet) {
		w.Case(func() string {
			return fmt.Sprintf("settings %v prices%s\n%s", sets, priceDesc(prices), ledgerText(ts, nil))
		}, func(t *T) {
			m := mbookOf(ts, prices)
			for _, set := range sets {
				b := buildBook(ts, prices)
				var re *regexp.Regexp
				if set.credit != "" {
					re = regexp.MustCompile(set.credit)
				}
				tr := b.Accumulate(set.ccy, set.div, re, set.hidden)
				checkAccumulate(t, m, set, tr)
				t.Trans(1)
				// the book is as it was, and a second look gives the same
				if d := diffBook(b, m); d != "" {
					t.Failf("after the report: %s", d)
				}
				if again := b.Accumulate(set.ccy, set.div, re, set.hidden); fmt.Sprint(again) != fmt.Sprint(tr) {
					t.Failf("a second report of the same book differs")
				}
			}
			t.Nontrivial(m.canon())
			t.State(m.canon())
		})
	}
	def := []accSet{{"USD", ":", "", ""}}
	type tr struct{ a, b, amt, ccy string }
	mk := func(d int, payee string, l []tr) MTxn {
		x := tx(d, payee)
		for _, e := range l {
			v := ratS(e.amt)
			x.Posts = append(x.Posts, MLine{Acct: e.a, CCY: e.ccy, Amt: v}, MLine{Acct: e.b, CCY: e.ccy, Amt: new(big.Rat).Neg(v)})
		}
		return x
	}

	w.Section("one and two transfers, one or two periods")
	accts := []string{"A", "A:B", "A:B:C", "A:C", "AB", "A-B"}
	var moves []tr
	for _, a := range accts {
		for _, b := range accts {
			if a == b {
				continue
			}
			for _, x := range []string{"USD", "X"} {
				moves = append(moves, tr{a, b, "2", x})
			}
		}
	}
	sets := []accSet{{"USD", ":", "", ""}, {"USD", ":", "^A:B", ""}, {"USD", ":", "", "A"}, {"USD", ":", "", "A:B"}, {"X", ":", "A$", "AB"}, {"USD", "::", "", ""}, {"Y", ":", "", ""}}
	for i, x := range moves {
		if w.Done() {
			return
		}
		c([]MTxn{mk(20200115, "", []tr{x})}, nprices, sets)
		for j, y := range moves {
			y.amt = "3"
			s := sets
			if !w.Thorough {
				k := (i + j) % len(sets)
				s = []accSet{sets[0], sets[1+k%6]}
			}
			c([]MTxn{mk(20200115, "", []tr{x, y})}, nprices, s)
			c([]MTxn{mk(20200115, "", []tr{x}), mk(20200201, "", []tr{y})}, nprices, s)
			if w.Thorough || (i+j)%5 == 0 {
				c([]MTxn{mk(20200115, "a", []tr{x}), mk(20200115, "b", []tr{y})}, iprices, s)
			}
		}
	}

	w.Section("three transfers: shapes, ties and order")
	accts3 := []string{"E:A", "E:B", "E:A:X", "E:B:Y", "E", "Z"}
	amts := []string{"1", "2", "-1"}
	var m3 []tr
	for _, a := range accts3 {
		for _, am := range amts {
			m3 = append(m3, tr{a, "Bank", am, "USD"})
		}
	}
	m3 = append(m3, tr{"E:A", "Bank", "0.4", "X"}, tr{"E:A:X", "E:B", "1", "X"}, tr{"Z", "Bank", "3", "X"})
	for i := range m3 {
		for j := i; j < len(m3); j++ {
			for k := j; k < len(m3); k++ {
				if w.Done() {
					return
				}
				c([]MTxn{mk(20200115, "", []tr{m3[i], m3[j], m3[k]})}, iprices, def)
				if w.Thorough || (i+j+k)%3 == 0 {
					c([]MTxn{mk(20200115, "", []tr{m3[i]}), mk(20200116, "", []tr{m3[j]}), mk(20200117, "", []tr{m3[k]})}, iprices, def)
				}
			}
		}
	}

	w.Section("magnitudes in the order")
	mags := []string{"1", "9", "10", "99999999.99", "100000000", "999999999.99", "1000000000", "9999999999", "10000000000", "1000000000000000000000", "0.001", "0.0001", "0.00001", "0.000000001", "-0.001", "-1", "-10", "-9", "-99999999.99", "-1000000000", "-10000000000", "-1000000000000000000000"}
	for _, a := range mags {
		for _, b := range mags {
			for _, pfx := range []string{"", "E:", "E:F:"} {
				c([]MTxn{mk(20200115, "", []tr{{pfx + "A", "Bank", a, "USD"}, {pfx + "B", "Bank", b, "USD"}})}, nil, def)
				c([]MTxn{mk(20200115, "", []tr{{pfx + "B:C", "Bank", a, "USD"}, {pfx + "B:A", "Bank", b, "USD"}, {pfx + "A", "Bank", "1", "USD"}})}, nil, def)
				if w.Thorough {
					for _, d := range mags {
						c([]MTxn{mk(20200115, "", []tr{{pfx + "B", "Bank", a, "USD"}, {pfx + "A", "Bank", b, "USD"}, {pfx + "C:D", "Bank", d, "USD"}})}, nil, def)
					}
				}
			}
		}
	}

	w.Section("hierarchies")
	comps := []string{"A", "B", "AB"}
	var names []string
	seqs(len(comps), 3, func(ix []int) {
		var l []string
		for _, i := range ix {
			l = append(l, comps[i])
		}
		names = append(names, strings.Join(l, ":"))
	})
	// every set of three of the accounts
	for i := range names {
		for j := i + 1; j < len(names); j++ {
			for k := j + 1; k < len(names); k++ {
				if w.Done() {
					return
				}
				l := []tr{{names[i], "Q", "1", "USD"}, {names[j], "Q", "2", "USD"}, {names[k], "Q", "4", "USD"}}
				s := []accSet{{"USD", ":", "", ""}, {"USD", ":", names[j], names[i]}, {"USD", "B", "", ""}}
				c([]MTxn{mk(20200115, "", l)}, nil, s)
				c([]MTxn{mk(20200115, "", l[:2]), mk(20200116, "", l[1:])}, nil, s)
			}
		}
	}
	for _, div := range []string{":", "::", "/", "A", "B:", "-", ". "} {
		for _, set := range [][]string{{"A::B", "A::C", "A:B"}, {"A:B:C", "A:B:D", "A"}, {"A::", "A::B", "A"}, {"a/b", "a/c", "a"}, {"AAB", "AAC", "AA"}, {"A B:C", "A B:D", "A B"}, {"é:a", "é:b", "è"}, {"A.B", "A.C", "A. B"}, {"-a", "-b", "--"}, {"A:", "A:B", "A"}, {":A", ":B", ":"}} {
			var l []tr
			ok := true
			for i, a := range set {
				l = append(l, tr{a, "Q", fmt.Sprint(i + 1), "USD"})
				for _, p := range strings.Split(a, div) {
					if p == "" {
						ok = false // empty components have no defined grouping
					}
				}
			}
			if ok {
				c([]MTxn{mk(20200115, "", l)}, nil, []accSet{{"USD", div, "", ""}, {"USD", div, "", set[2]}})
			}
		}
	}

	w.Section("many accounts and periods")
	for _, n := range []int{5, 12, 13, 30} {
		for _, per := range []int{1, 2, 3, 8} {
			for v := 0; v < 6; v++ {
				var ts []MTxn
				for q := 0; q < per; q++ {
					var l []tr
					for i := 0; i < n; i++ {
						if (i*7+q*3+v)%4 == 0 && per > 1 {
							continue
						}
						l = append(l, tr{fmt.Sprintf("%c:%c:%d", 'A'+i%2, 'a'+(i/2)%3, (i*5+v)%n), "Bank", fmt.Sprintf("%d.%02d", (i*i*31+q*17+v)%97, i), []string{"USD", "USD", "X", "Y"}[(i+v)%4]})
					}
					ts = append(ts, mk(20200101+q*100, "", l))
				}
				c(ts, nprices, []accSet{{"USD", ":", "", ""}, {"X", ":", "^A", "A:a"}, {"USD", ":", "a:.*[13]", "Bank"}})
				c(ts, iprices, []accSet{{"USD", ":", "", ""}, {"Y", ":", "", "A"}})
			}
		}
	}

	w.Section("places in the order")
	sizes := []int{9, 10, 11, 15, 16, 17, 99, 100, 101, 255, 256, 257, 300, 999, 1001, 4097}
	if w.Thorough {
		sizes = append(sizes, 31, 32, 33, 63, 64, 65, 127, 128, 129, 511, 512, 513, 1023, 1024, 1025, 10001, 20000)
	}
	for _, n := range sizes {
		for shape := 0; shape < 3; shape++ {
			var l []tr
			for i := 0; i < n; i++ {
				a := fmt.Sprintf("A%05d", (i*37)%n)
				switch shape {
				case 1:
					a = fmt.Sprintf("G:A%05d", (i*37)%n)
				case 2:
					a = fmt.Sprintf("G%d:A%05d", i%3, (i*37)%n)
				}
				if n > 5000 && shape == 2 {
					continue
				}
				l = append(l, tr{a, "Bank", fmt.Sprint(i*i%(n+7) + 1), "USD"})
			}
			if len(l) > 0 {
				c([]MTxn{mk(20200101, "", l)}, nil, []accSet{{"USD", ":", "", ""}})
			}
		}
	}

	w.Section("after operations")
	for _, s := range uniquePrices(startBooks()) {
		s := s
		eachSeq(opAlphabet(), 2, func(seq []Op) {
			if w.Done() {
				return
			}
			seq = append([]Op(nil), seq...)
			w.Case(func() string { return "accumulate after " + seqDesc(s, seq)() }, func(t *T) {
				b := buildBook(s.ts, s.prices)
				m := mbookOf(s.ts, s.prices)
				for _, o := range seq {
					if err := o.run(b); err != nil {
						t.Failf("%s: %v", o.Text, err)
					}
					o.Model(m)
				}
				for _, set := range []accSet{{"USD", ":", "", ""}, {"X", ":", "^E", "A"}} {
					var re *regexp.Regexp
					if set.credit != "" {
						re = regexp.MustCompile(set.credit)
					}
					checkAccumulate(t, m, set, b.Accumulate(set.ccy, set.div, re, set.hidden))
					if d := diffBook(b, m); d != "" {
						t.Failf("after the report: %s", d)
					}
				}
				t.Trans(int64(len(seq)) + 2)
				t.State(m.canon())
				t.Nontrivial(fmt.Sprint(s.name, opTexts(seq)))
			})
		})
	}

	w.Section("text report")
	books := uniquePrices(startBooks())
	books = append(books, start{"hier", []MTxn{
		mk(20200115, "a", []tr{{"E:Food", "A:Bank", "12.5", "USD"}, {"E:Rent", "A:Bank", "1234567.89", "USD"}, {"E:Food:Out", "L:Card", "3", "X"}}),
		mk(20200320, "b", []tr{{"E:Food", "A:Bank", "-12.5", "USD"}, {"I:Job", "A:Bank", "-5000", "USD"}}),
		mk(20210105, "c", []tr{{"E:Food:Out", "L:Card", "7.25", "USD"}, {"A:Bank", "A:Save", "1", "Y"}}),
	}, nprices})
	opt := func(f, v string) []string {
		if v == "-" {
			return nil
		}
		return []string{"--" + f + "=" + v}
	}
	for _, s := range books {
		for _, split := range []string{"yearly", "quarterly", "monthly", "none", "skip"} {
			for _, ccy := range []string{"USD", "X"} {
				for _, credit := range []string{"", "^(I|L|A)", ":"} {
					for _, hidden := range []string{"", "A", "E:C"} {
						for _, conv := range []bool{false, true} {
							for _, lang := range []string{"en", "de"} {
								if !w.Thorough && lang == "de" && (conv || credit == ":") {
									continue
								}
								s, split, ccy, credit, hidden, conv, lang := s, split, ccy, credit, hidden, conv, lang
								args := []string{"report", "--type=Text", "--sum=true", "--colour=false", "--lang=" + lang, "--divider=:", "--splitby=" + split, "--ccy=" + ccy, "--credit=" + credit, "--hidden=" + hidden, fmt.Sprintf("--convert=%v", conv)}
								_ = opt
								w.Case(func() string { return "book " + s.name + " " + strings.Join(args, " ") }, func(t *T) {
									l := w.write("m.ledger", ledgerText(s.ts, priceLines(s.prices)))
									r := w.cli("", append([]string{"-l", l}, args...)...)
									if r.err != nil {
										t.Failf("the report fails: %v", r.err)
									}
									b := buildBook(s.ts, s.prices)
									m := mbookOf(s.ts, s.prices)
									if split != "skip" {
										b.SplitBy(split)
										opCombine(split).Model(m)
									}
									if conv {
										b.MapAmount(func(date book.Date, c string) (*big.Rat, string) { r, _ := b.GetPrice(date, c, ccy); return r, ccy })
										convertModel(m, ccy)
										if d := diffTrans(b, m); d != "" {
											t.Failf("converted to %s: %s", ccy, d)
										}
									}
									set := accSet{ccy, ":", credit, hidden}
									var re *regexp.Regexp
									if credit != "" {
										re = regexp.MustCompile(credit)
									}
									tr := b.Accumulate(ccy, ":", re, hidden)
									checkAccumulate(t, m, set, tr)
									want := refTextReport(tr, m, lang)
									if r.out != want {
										t.Failf("the report is\n%s\nshould be\n%s", r.out, want)
									}
									t.Trans(1)
									t.State(r.out)
									t.Nontrivial(r.out)
								})
							}
						}
					}
				}
			}
		}
	}
	_ = app.DefaultApp
}

func priceLines(ps []mprice) []string {
	var o []string
	for _, p := range ps {
		o = append(o, p.String())
	}
	return o
}

// convertModel multiplies every posting with the price of its date.
func convertModel(m *MBook, ccy string) {
	for i := range m.Posts {
		p := &m.Posts[i]
		r, _ := m.refPrice(p.Date, p.CCY, ccy)
		p.Val = new(big.Rat).Mul(p.Val, r)
		p.CCY = ccy
	}
	m.normalise()
}

// refTextReport is the table of accumulated transactions: lines in the order of the last period.
func refTextReport(tr []book.Transaction, m *MBook, lang string) string {
	if len(tr) == 0 {
		return ""
	}
	header := []cell{{text: "Account"}}
	for _, t := range tr {
		d := int(t.GetDate())
		header = append(header, cell{text: fmt.Sprintf("%04d/%02d/%02d", d/10000, d/100%100, d%100), right: true})
	}
	rows := [][]cell{header}
	for i, p := range tr[len(tr)-1] {
		if i > 0 && p.GetAccountLevel() == 0 {
			rows = append(rows, nil)
		}
		row := []cell{{text: strings.Repeat("  ", p.GetAccountLevel()) + p.GetAccountTerm()}}
		for _, t := range tr {
			var v *big.Rat
			for _, q := range t {
				if q.GetAccount() == p.GetAccount() && q.GetAccountTerm() == p.GetAccountTerm() && q.GetCCY() == p.GetCCY() {
					v = q.GetAmount()
				}
			}
			if v == nil {
				row = append(row, cell{text: "?", right: true})
				continue
			}
			dec, ok := m.Dec[p.GetCCY()]
			if !ok {
				dec = 2
			}
			row = append(row, cell{sym: refSymbol(p.GetCCY()), text: refNumber(v, dec, lang), right: true})
		}
		rows = append(rows, row)
	}
	return refTable(rows)
}

// uniquePrices leaves out second prices of the same pair and day (which has no defined meaning).
func uniquePrices(l []start) []start {
	for i := range l {
		var ps []mprice
		for _, p := range l[i].prices {
			dup := false
			for _, q := range ps {
				if q.date == p.date && q.unit == p.unit && q.ccy == p.ccy {
					dup = true
				}
			}
			if !dup {
				ps = append(ps, p)
			}
		}
		l[i].prices = ps
	}
	return l
}
