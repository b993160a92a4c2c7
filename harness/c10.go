//go:build verifmc

package main

import (
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"strings"

	"github.com/mescanne/goledger/book"
)

func init() {
	register(&Prop{ID: "C10", Level: "exploration", Fresh: true,
		Rule:        "every book of one to three transactions over the transaction-shape alphabet, crossed with account expressions, base currencies and the split option, extracted by the real code and compared entry by entry with the definition; and a product of books with every combination of window, count, order, type, split, combined and convert options on the real command",
		Assumptions: []string{"a traded rate is one account exchanging exactly the two currencies in opposite directions; where an account of the transaction moves more currencies either source is accepted", "at most one price per pair and day"},
		Run:         runC10})
	register(&Prop{ID: "C22", Level: "exploration", Fresh: true,
		Rule:        "every book of one to three transfers over the account, currency and amount alphabets, crossed with account expressions and the all option, through the API and the real accts and ccy commands, compared with the definition",
		Assumptions: []string{},
		Run:         runC22})
}

type regEntry struct {
	date                      int
	payee, acct, counter, ccy string
	amt, bal                  *big.Rat
	notes, tnotes             []string
	base                      []*big.Rat // acceptable amounts in the base currency
}

// refRegister is the register by its definition.
func refRegister(m *MBook, base string, re *regexp.Regexp, split bool) []regEntry {
	var out []regEntry
	bal := map[string]*big.Rat{}
	for _, t := range m.trans() {
		for _, p := range t {
			if !re.MatchString(p.Acct) {
				continue
			}
			var cs []MPost
			sum := new(big.Rat)
			for _, q := range t {
				if q.Acct != p.Acct && q.CCY == p.CCY && q.Val.Sign()*p.Val.Sign() < 0 {
					cs = append(cs, q)
					sum.Add(sum, q.Val)
				}
			}
			if len(cs) == 0 {
				continue
			}
			type part struct {
				counter string
				amt     *big.Rat
			}
			var parts []part
			if split {
				for _, q := range cs {
					a := new(big.Rat).Mul(p.Val, q.Val)
					parts = append(parts, part{q.Acct, a.Quo(a, sum)})
				}
			} else {
				var names []string
				for _, q := range cs {
					names = append(names, q.Acct)
				}
				parts = append(parts, part{strings.Join(names, ";"), new(big.Rat).Set(p.Val)})
			}
			var rates []*big.Rat
			if p.CCY == base {
				rates = []*big.Rat{rat(1, 1)}
			} else {
				trade, unclear := false, false
				for _, x := range t {
					for _, y := range t {
						if x.Acct == y.Acct && x.CCY == base && y.CCY == p.CCY && x.Val.Sign()*y.Val.Sign() < 0 {
							r := new(big.Rat).Quo(x.Val, y.Val)
							rates = append(rates, r.Neg(r))
							n := 0
							for _, z := range t {
								if z.Acct == x.Acct {
									n++
								}
							}
							if n > 2 {
								unclear = true
							} else {
								trade = true
							}
						}
					}
				}
				if !trade || unclear && !trade {
					r, _ := m.refPrice(p.Date, p.CCY, base)
					rates = append(rates, r)
				}
			}
			for _, x := range parts {
				if bal[p.CCY] == nil {
					bal[p.CCY] = new(big.Rat)
				}
				bal[p.CCY].Add(bal[p.CCY], x.amt)
				e := regEntry{p.Date, p.Payee, p.Acct, x.counter, p.CCY, x.amt, new(big.Rat).Set(bal[p.CCY]), p.Notes, p.TNotes, nil}
				for _, r := range rates {
					e.base = append(e.base, new(big.Rat).Mul(r, x.amt))
				}
				out = append(out, e)
			}
		}
	}
	return out
}

func (e regEntry) String() string {
	return fmt.Sprintf("%d %q %s <- %s %s %s (balance %s)", e.date, e.payee, e.acct, e.counter, e.amt.RatString(), e.ccy, e.bal.RatString())
}

func checkRegister(t *T, rep book.RegistryReport, want []regEntry, base string) {
	sum := new(big.Rat)
	for i := 0; i < len(rep) || i < len(want); i++ {
		if i >= len(rep) {
			t.Failf("entry %v is missing", want[i])
		}
		r := rep[i]
		g := regEntry{int(r.Date), r.Payee, r.Account, r.CounterAccount, r.CCY, r.Amount, r.Balance, nil, nil, nil}
		if i >= len(want) {
			t.Failf("extra entry %v", g)
		}
		if g.String() != want[i].String() {
			t.Failf("entry %d is %v, should be %v", i, g, want[i])
		}
		if !member(r.Note, want[i].notes) || !member(r.TNote, want[i].tnotes) {
			t.Failf("entry %v has notes %q and %q, should be of %q and %q", g, r.Note, r.TNote, want[i].notes, want[i].tnotes)
		}
		ok := false
		for _, b := range want[i].base {
			if b.Cmp(r.BaseAmount) == 0 {
				ok = true
			}
		}
		if !ok || r.BaseCCY != base {
			t.Failf("entry %v is %s %s in the base currency, should be %s", g, r.BaseAmount.RatString(), r.BaseCCY, want[i].base[0].RatString())
		}
		sum.Add(sum, r.BaseAmount)
		if sum.Cmp(r.BaseBalance) != 0 {
			t.Failf("entry %v has base balance %s, should be %s", g, r.BaseBalance.RatString(), sum.RatString())
		}
	}
}

func runC10(w *W) {
	prices := []mprice{pr(20200101, "X", "USD", "2"), pr(20200301, "X", "USD", "3"), pr(20200115, "USD", "Y", "4")}
	inv := []mprice{pr(20200101, "USD", "X", "0.4"), pr(20200201, "USD", "X", "0.5")}
	res := []string{"^A$", "A", ".*", "^(A|B)$", "C", "nothing", "^A:B$"}
	c := func(ts []MTxn, ps []mprice) {
		w.Case(func() string { return "prices" + priceDesc(ps) + "\n" + ledgerText(ts, nil) }, func(t *T) {
			m := mbookOf(ts, ps)
			b := buildBook(ts, ps)
			n := 0
			for _, re := range res {
				for _, base := range []string{"USD", "X", ""} {
					for _, split := range []bool{false, true} {
						want := refRegister(m, base, regexp.MustCompile(re), split)
						rep := b.ExtractRegister(base, regexp.MustCompile(re), split)
						checkRegister(t, rep, want, base)
						t.Trans(1)
						n += len(rep)
					}
				}
			}
			if n > 0 {
				t.Nontrivial(m.canon())
			}
			t.State(m.canon())
			if d := diffBook(b, m); d != "" {
				t.Failf("after the registers: %s", d)
			}
		})
	}
	// transaction shapes
	var shapes []MTxn
	accts := []string{"A", "A:B", "B", "C"}
	// two postings
	for _, a := range accts {
		for _, b := range accts {
			if a != b {
				shapes = append(shapes, noted(tx(20200115, "p", ln(a, "3", "USD"), ln(b, "-3", "USD")), "tn", "n1", "n2"))
			}
		}
	}
	n2 := len(shapes)
	// three and four postings of one currency, all value splits
	for _, v := range [][]string{{"3", "-1", "-2"}, {"-3", "1", "2"}, {"5", "-3", "-2", ""}, {"1", "2", "-3"}, {"4", "-5", "1"}} {
		for _, as := range [][]string{{"A", "B", "C"}, {"B", "A", "C"}, {"C", "A", "B"}, {"A:B", "C", "A"}} {
			x := tx(20200116, "q")
			for i, a := range as {
				x.Posts = append(x.Posts, ln(a, v[i], "X"))
			}
			shapes = append(shapes, x)
		}
	}
	for _, v := range [][]string{{"7", "-1", "-2", "-4"}, {"3", "4", "-5", "-2"}, {"1", "1", "-1", "-1"}} {
		for _, as := range [][]string{{"A", "B", "C", "A:B"}, {"C", "A:B", "A", "B"}} {
			x := tx(20200117, "r")
			for i, a := range as {
				x.Posts = append(x.Posts, ln(a, v[i], "USD"))
			}
			shapes = append(shapes, x)
		}
	}
	// trades: an account exchanges one currency for another
	for _, tr := range []string{"A", "B", "T"} {
		for _, q := range [][2]string{{"10", "-4"}, {"-10", "4"}, {"10", "4"}, {"1", "-3"}} {
			for _, ccys := range [][2]string{{"USD", "X"}, {"X", "USD"}, {"X", "Y"}} {
				n0 := new(big.Rat).Neg(ratS(q[0]))
				n1 := new(big.Rat).Neg(ratS(q[1]))
				shapes = append(shapes,
					MTxn{Date: 20200118, Payee: "trade", Posts: []MLine{{Acct: tr, CCY: ccys[0], Amt: ratS(q[0])}, {Acct: tr, CCY: ccys[1], Amt: ratS(q[1])}, {Acct: "C", CCY: ccys[0], Amt: n0}, {Acct: "A:B", CCY: ccys[1], Amt: n1}}},
					MTxn{Date: 20200119, Payee: "trade", Posts: []MLine{{Acct: tr, CCY: ccys[0], Amt: ratS(q[0])}, {Acct: tr, CCY: ccys[1], Amt: ratS(q[1])}, {Acct: "C", CCY: ccys[0], Amt: n0}, {Acct: "C", CCY: ccys[1], Amt: n1}}})
			}
		}
	}
	// three currencies in one account
	shapes = append(shapes, MTxn{Date: 20200120, Payee: "multi", Posts: []MLine{ln("A", "1", "USD"), ln("A", "-2", "X"), ln("A", "3", "Y"), ln("B", "-1", "USD"), ln("C", "2", "X"), ln("C", "-3", "Y")}})
	// unbalanced by rounding: thirds appear through depreciation only; amounts of many digits
	shapes = append(shapes, tx(20200121, "big", ln("A", "100000000000000000000.01", "USD"), ln("B", "-0.01", "USD"), ln("C", "-100000000000000000000", "USD")))

	w.Section("one transaction")
	for _, s := range shapes {
		c([]MTxn{s}, prices)
		c([]MTxn{s}, inv)
		c([]MTxn{s}, nil)
	}
	w.Section("two transactions")
	for i, x := range shapes {
		for j, y := range shapes {
			if w.Done() {
				return
			}
			y.Date += (j % 3) * 100
			y.Payee += []string{"", "z", "!"}[(i+j)%3]
			ps := prices
			if (i+j)%2 == 1 {
				ps = inv
			}
			c([]MTxn{x, y}, ps)
		}
	}
	w.Section("three transactions")
	sh3 := append(append([]MTxn{}, shapes[:n2:n2]...), shapes[len(shapes)-20:]...)
	step := 5
	if w.Thorough {
		step = 1
		sh3 = shapes
	}
	for i := range sh3 {
		for j := range sh3 {
			for k := (i + j) % step; k < len(sh3); k += step {
				if w.Done() {
					return
				}
				x, y, z := sh3[i], sh3[j], sh3[k]
				y.Date = 20200201
				z.Date = 20191231
				c([]MTxn{x, y, z}, prices)
			}
		}
	}
	w.Section("after operations")
	for _, s := range uniquePrices(startBooks()) {
		s := s
		eachSeq(opAlphabet(), 2, func(seq []Op) {
			if w.Done() {
				return
			}
			w.Case(func() string { return "register after " + seqDesc(s, seq)() }, func(t *T) {
				b := buildBook(s.ts, s.prices)
				m := mbookOf(s.ts, s.prices)
				for _, o := range seq {
					if err := o.run(b); err != nil {
						t.Failf("%s: %v", o.Text, err)
					}
					o.Model(m)
				}
				for _, re := range []string{"^A$", "E", "."} {
					for _, split := range []bool{false, true} {
						checkRegister(t, b.ExtractRegister("USD", regexp.MustCompile(re), split), refRegister(m, "USD", regexp.MustCompile(re), split), "USD")
					}
				}
				t.Trans(int64(len(seq)) + 6)
				t.State(m.canon())
				t.Nontrivial(fmt.Sprint(s.name, opTexts(seq)))
			})
		})
	}

	w.Section("command options")
	regBook := start{"register", []MTxn{
		noted(tx(20191231, "old", ln("A", "1.5", "USD"), ln("B", "-1.5", "USD")), "t,1", "n\"q\"", "m; x"),
		tx(20200101, "p", ln("A", "3", "USD"), ln("B", "-1", "USD"), ln("C", "-2", "USD")),
		tx(20200101, "p, q", ln("AqB", "1234567.891", "USD"), ln("C", "-1234567.891", "USD")),
		tx(20200131, "r", ln("A", "-1", "X"), ln("C", "1", "X"), ln("C", "-7", "USD"), ln("B", "7", "USD")),
		tx(20200201, "t", ln("A", "-4.5", "USD"), ln("B", "4.5", "USD")),
		tx(20200201, "u", ln("AxB", "2", "USD"), ln("C", "-2", "USD")),
		tx(20200115, "w", ln("AZ:b:c:d:e", "5", "USD"), ln("B", "-3", "USD"), ln("C", "-2", "USD")),
		tx(20200205, "w", ln("AZ", "1", "USD"), ln("B", "-1", "USD")),
		tx(20200206, "w", ln("AZ", "-1", "USD"), ln("B:2", "1", "USD")),
		tx(20210301, "v", ln("A", "10", "USD"), ln("B", "-3", "USD"), ln("C", "-7", "USD")),
	}, prices[:2]}
	type dw struct {
		b, e   string
		bd, ed int
	}
	windows := []dw{{"", "", 0, 0}, {"2020-01-01", "", 20200101, 0}, {"", "2020-02-01", 0, 20200201}, {"2020-01-31", "2020-02-02", 20200131, 20200202}, {"2022", "", 20220101, 0}, {"", "2019", 0, 20190101}, {"2020-02-01", "2020-01-01", 20200201, 20200101}}
	for _, typ := range []string{"Text", "CSV", "JSON"} {
		for _, comb := range []bool{true, false} {
			for _, wd := range windows {
				for _, count := range []int{0, 1, 2, -1, -2, 4, -4, 100, -100} {
					for _, asc := range []bool{true, false} {
						for _, split := range []bool{false, true} {
							for _, conv := range []bool{false, true} {
								for _, all := range []bool{false, true} {
									for _, re := range []string{"^A", "^(B|C)$", "^A.B$", "none"} {
										if !w.Thorough && (all && comb || conv && (wd.b != "" || count < -2) || re == "^(B|C)$" && count == 2) {
											continue
										}
										typ, comb, wd, count, asc, split, conv, all, re := typ, comb, wd, count, asc, split, conv, all, re
										args := []string{"register", "--type=" + typ, fmt.Sprintf("--combined=%v", comb), "--begin=" + wd.b, "--asof=" + wd.e, fmt.Sprintf("--count=%d", count), fmt.Sprintf("--asc=%v", asc), fmt.Sprintf("--split=%v", split), fmt.Sprintf("--convert=%v", conv), fmt.Sprintf("--all=%v", all), "--ccy=USD", "--colour=false", "map=/^AqB$/A.B/", re}
										w.Case(func() string { return strings.Join(args, " ") }, func(t *T) {
											l := w.write("m.ledger", ledgerText(regBook.ts, priceLines(regBook.prices)))
											r := w.cli("", append([]string{"-l", l, "--lang=en"}, args...)...)
											if r.err != nil {
												t.Failf("fails: %v", r.err)
											}
											m := mbookOf(regBook.ts, regBook.prices)
											if conv {
												convertModel(m, "USD")
											}
											opMap("^AqB$", "A.B", "").Model(m)
											window := func(all []regEntry) []regEntry {
												var out []regEntry
												for _, e := range all {
													if (wd.bd == 0 || e.date >= wd.bd) && (wd.ed == 0 || e.date < wd.ed) {
														out = append(out, e)
													}
												}
												if count > 0 && len(out) > count {
													out = out[:count]
												}
												if count < 0 && len(out) > -count {
													out = out[len(out)+count:]
												}
												if !asc {
													var rev []regEntry
													for i := range out {
														rev = append(rev, out[len(out)-1-i])
													}
													out = rev
												}
												return out
											}
											out := r.out
											total := 0
											if comb {
												es := window(refRegister(m, "USD", regexp.MustCompile(re), split))
												total = len(es)
												out = checkShown(t, out, es, typ, true, m)
											} else {
												for _, a := range refAccounts(m, re, all) {
													head := "\n" + a + "\n"
													if !strings.HasPrefix(out, head) {
														t.Failf("the register of %s should follow in %q", a, out)
													}
													es := window(refRegister(m, "USD", regexp.MustCompile("^"+regexp.QuoteMeta(a)+"$"), split))
													total += len(es)
													out = checkShown(t, out[len(head):], es, typ, false, m)
												}
											}
											if out != "" {
												t.Failf("left-over output %q", out)
											}
											t.Trans(1)
											t.State(r.out)
											if total > 0 {
												t.Nontrivial(fmt.Sprint(args))
											}
										})
									}
								}
							}
						}
					}
				}
			}
		}
	}
}

// refAccounts are the accounts that match and, unless all, have a balance.
func refAccounts(m *MBook, re string, all bool) []string {
	x := regexp.MustCompile(re)
	bal := map[[2]string]*big.Rat{}
	have := map[string]int64{}
	for _, p := range m.Posts {
		if !x.MatchString(p.Acct) {
			continue
		}
		have[p.Acct] = 0
		k := [2]string{p.Acct, p.CCY}
		if bal[k] == nil {
			bal[k] = new(big.Rat)
		}
		bal[k].Add(bal[k], p.Val)
	}
	for k, v := range bal {
		if v.Sign() != 0 {
			have[k[0]] = 1
		}
	}
	var out []string
	for _, a := range sortedKeys(have) {
		if all || have[a] == 1 {
			out = append(out, a)
		}
	}
	return out
}

// checkShown compares one printed register with its entries and returns the output behind it.
func checkShown(t *T, out string, es []regEntry, typ string, withAcct bool, m *MBook) string {
	d := func(x int) string { return fmt.Sprintf("%04d/%02d/%02d", x/10000, x/100%100, x%100) }
	switch typ {
	case "Text":
		hdr := []cell{{text: "Date"}, {text: "Payee"}}
		if withAcct {
			hdr = append(hdr, cell{text: "Account"})
		}
		hdr = append(hdr, cell{text: "Counteraccount"}, cell{text: "Amount", right: true}, cell{text: "Balance", right: true})
		rows := [][]cell{hdr}
		for _, e := range es {
			row := []cell{{text: d(e.date)}, {text: e.payee}}
			if withAcct {
				row = append(row, cell{text: e.acct})
			}
			dec := 2
			if n, ok := m.Dec[e.ccy]; ok {
				dec = n
			}
			row = append(row, cell{text: e.counter}, cell{sym: refSymbol(e.ccy), text: refNumber(e.amt, dec, "en"), right: true}, cell{sym: refSymbol(e.ccy), text: refNumber(e.bal, dec, "en"), right: true})
			rows = append(rows, row)
		}
		want := refTable(rows)
		if !strings.HasPrefix(out, want) {
			t.Failf("the register is\n%s\nshould be\n%s", out, want)
		}
		return out[len(want):]
	case "CSV":
		n := 0
		lines := strings.SplitAfter(out, "\n")
		rest := ""
		for i, l := range lines {
			if n == len(es)+1 {
				rest = strings.Join(lines[i:], "")
				break
			}
			rec, err := csv.NewReader(strings.NewReader(l)).Read()
			if err != nil || len(rec) != 7 {
				t.Failf("line %d of the CSV output is %q", i, l)
			}
			if n == 0 {
				if strings.Join(rec, ",") != "date,payee,account,counterAccount,ccy,amount,balance" {
					t.Failf("the CSV header is %q", l)
				}
			} else {
				e := es[n-1]
				if rec[0] != d(e.date) || rec[1] != e.payee || rec[2] != e.acct || rec[3] != e.counter || rec[4] != e.ccy || !shownExact(rec[5], e.amt) || !shownExact(rec[6], e.bal) {
					t.Failf("the CSV entry is %q, should be %v", l, e)
				}
			}
			n++
		}
		if n != len(es)+1 {
			t.Failf("the CSV output has %d lines, should be %d", n, len(es)+1)
		}
		return rest
	}
	dec := json.NewDecoder(strings.NewReader(out))
	var got []map[string]interface{}
	if err := dec.Decode(&got); err != nil {
		t.Failf("the JSON output %q is not JSON: %v", out, err)
	}
	if len(got) != len(es) {
		t.Failf("the JSON output has %d entries, should be %d", len(got), len(es))
	}
	for i, e := range es {
		g := got[i]
		amt, _ := e.amt.Float64()
		bal, _ := e.bal.Float64()
		str := func(k string) string { s, _ := g[k].(string); return s }
		if str("date") != fmt.Sprintf("%04d-%02d-%02dT00:00:00Z", e.date/10000, e.date/100%100, e.date%100) || str("payee") != e.payee || str("account") != e.acct || str("counterAccount") != e.counter || str("ccy") != e.ccy || g["amount"] != amt || g["balance"] != bal || !member(str("note"), e.notes) || !member(str("tnote"), e.tnotes) {
			t.Failf("the JSON entry is %v, should be %v", g, e)
		}
	}
	return out[dec.InputOffset():]
}

// shownExact: the text is the number, or its closest value with at least six decimals if it has none.
func shownExact(s string, v *big.Rat) bool {
	r, ok := new(big.Rat).SetString(s)
	if !ok || strings.ContainsAny(s, "eE/_xX") {
		return false
	}
	if decimalsOf(v) >= 0 {
		return r.Cmp(v) == 0
	}
	r.Sub(r, v)
	return r.Abs(r).Cmp(rat(5, 10000000)) <= 0
}

func runC22(w *W) {
	accts := []string{"A", "A:B", "B", "é c", "a"}
	ccys := []string{"USD", "X"}
	amts := []string{"1", "-1", "0.25", "-0.25", "0", "100", "0.123456789012345678901", "-1.10", "0.00000000000000000000000001", "-1234567890123456789012345678901234567890"}
	res := []string{".*", "", "^A", "^A$", "B", "A|B", "[", "é", "^.*$"}
	type mv struct{ a, b, c, v string }
	var moves []mv
	for _, a := range accts {
		for _, b := range accts {
			if a != b {
				for _, c := range ccys {
					for _, v := range amts {
						moves = append(moves, mv{a, b, c, v})
					}
				}
			}
		}
	}
	mk := func(d int, m mv) MTxn {
		v := ratS(m.v)
		return MTxn{Date: d, Payee: "p", Posts: []MLine{{Acct: m.a, CCY: m.c, Amt: v}, {Acct: m.b, CCY: m.c, Amt: new(big.Rat).Neg(v)}}}
	}
	api := func(ts []MTxn) {
		w.Case(func() string { return ledgerText(ts, nil) }, func(t *T) {
			m := mbookOf(ts, nil)
			b := buildBook(ts, nil)
			for _, re := range res {
				if re == "[" {
					continue
				}
				for _, all := range []bool{false, true} {
					got, want := b.Accounts(re, !all), refAccounts(m, re, all)
					if strings.Join(got, "\n") != strings.Join(want, "\n") {
						t.Failf("accounts matching %q (all %v) are %q, should be %q", re, all, got, want)
					}
					t.Trans(1)
				}
			}
			if d := diffDec(b.GetCCYDecimals(), m.Dec); d != "" {
				t.Failf("%s", d)
			}
			if d := diffBook(b, m); d != "" {
				t.Failf("after the listings: %s", d)
			}
			t.State(m.canonAll())
			t.Nontrivial(m.canonAll())
		})
	}
	w.Section("listings through the API")
	for i, x := range moves {
		if w.Done() {
			return
		}
		api([]MTxn{mk(20200101, x)})
		for j, y := range moves {
			if !w.Thorough && (i+j)%3 != 0 {
				continue
			}
			api([]MTxn{mk(20200101, x), mk(20200102+(j%2)*10000*-1, y)})
		}
	}
	w.Section("many accounts and currencies")
	for _, n := range []int{3, 4, 5, 8, 9, 17, 50, 65, 257, 1025} {
		for kind := 0; kind < 4; kind++ {
			for _, last := range []string{"1", "0"} { // whether anything is left at the end
				var ts []MTxn
				for i := 0; i < n; i++ {
					a, c := "A", fmt.Sprint("C", i)
					if kind%2 == 1 {
						a, c = fmt.Sprintf("A:%d", i), "USD"
					}
					ts = append(ts, mk(20200101+i%28, mv{a, "B", c, fmt.Sprint(i + 1)}))
					if i < n-1 && kind/2 == 0 || last == "0" {
						ts = append(ts, mk(20200201+i%28, mv{a, "B", c, fmt.Sprint(-i - 1)}))
					}
				}
				api(ts)
			}
		}
	}
	w.Section("cancelling histories")
	sm := []mv{{"A", "B", "USD", "1"}, {"B", "A", "USD", "1"}, {"A", "A:B", "X", "1"}, {"A:B", "A", "X", "1"}, {"A", "B", "X", "-1"}, {"B", "A:B", "USD", "0.5"}, {"A:B", "B", "USD", "0.50"}}
	depth := 4
	if w.Thorough {
		depth = 5
	}
	seqs(len(sm), depth, func(ix []int) {
		var ts []MTxn
		for i, k := range ix {
			ts = append(ts, mk(20200101+i, sm[k]))
		}
		api(ts)
	})

	w.Section("splits")
	parts := []string{"0.05", "-0.05", "0.1", "-0.1", "0.25", "-0.125", "0.5", "-1", "0.001", "-0.3", "0.7", "-0.00000000000000000002", "2.5", "0"}
	depth = 3
	if w.Thorough {
		depth = 4
	}
	seqs(len(parts), depth, func(ix []int) {
		if w.Done() {
			return
		}
		for _, same := range []bool{false, true} {
			tt := MTxn{Date: 20200101, Payee: "p"}
			sum := new(big.Rat)
			for k, i := range ix {
				a := []string{"A", "B", "C", "D"}[k]
				if same {
					a = "A"
				}
				v := ratS(parts[i])
				sum.Add(sum, v)
				tt.Posts = append(tt.Posts, MLine{Acct: a, CCY: "USD", Amt: v})
			}
			api([]MTxn{{Date: tt.Date, Payee: tt.Payee, Posts: append(tt.Posts[:len(tt.Posts):len(tt.Posts)], MLine{Acct: "Rest", CCY: "USD", Amt: new(big.Rat).Neg(sum)})}})
			api([]MTxn{{Date: tt.Date, Payee: tt.Payee, Posts: append([]MLine{{Acct: "Rest", CCY: "USD", Amt: new(big.Rat).Neg(sum)}}, tt.Posts...)}})
		}
	})

	w.Section("decimals after operations")
	for _, s := range startBooks() {
		s := s
		eachSeq(opAlphabet(), 2, func(seq []Op) {
			w.Case(func() string { return "accounts after " + seqDesc(s, seq)() }, func(t *T) {
				b := buildBook(s.ts, s.prices)
				m := mbookOf(s.ts, s.prices)
				for _, o := range seq {
					if err := o.run(b); err != nil {
						t.Failf("%s: %v", o.Text, err)
					}
					o.Model(m)
				}
				for _, re := range []string{".*", "^A", "B"} {
					for _, all := range []bool{false, true} {
						got, want := b.Accounts(re, !all), refAccounts(m, re, all)
						if strings.Join(got, "\n") != strings.Join(want, "\n") {
							t.Failf("accounts matching %q (all %v) are %q, should be %q", re, all, got, want)
						}
					}
				}
				t.Trans(int64(len(seq)) + 6)
				t.State(m.canonAll())
				t.Nontrivial(fmt.Sprint(s.name, opTexts(seq)))
			})
		})
	}

	w.Section("accts and ccy commands")
	var books [][]MTxn
	for i, x := range moves {
		if i%7 == 0 || w.Thorough {
			books = append(books, []MTxn{mk(20200101, x)})
		}
		for j, y := range moves {
			if (i*31+j)%101 == 0 {
				books = append(books, []MTxn{mk(20200101, x), mk(20200102, y)})
			}
		}
	}
	books = append(books, nil)
	for _, s := range startBooks() {
		books = append(books, s.ts)
	}
	for bi, ts := range books {
		ts := ts
		text := ledgerText(ts, []string{"P 2020/01/01 00:00:00 ZZZ USD 0.123456"})
		if strings.Contains(text, "é c") {
			text = strings.ReplaceAll(text, "é c", "e:c")
		}
		ts2 := append([]MTxn(nil), ts...)
		for i := range ts2 {
			ts2[i].Posts = append([]MLine(nil), ts2[i].Posts...)
			for j := range ts2[i].Posts {
				ts2[i].Posts[j].Acct = strings.ReplaceAll(ts2[i].Posts[j].Acct, "é c", "e:c")
			}
		}
		for ri, re := range append([]string{"-"}, res...) {
			for _, all := range []bool{false, true} {
				for _, js := range []bool{false, true} {
					if !w.Thorough && (bi+ri)%4 != 0 && bi < len(books)-8 {
						continue
					}
					re, all, js := re, all, js
					args := []string{"accts", fmt.Sprintf("--all=%v", all), fmt.Sprintf("--json=%v", js), "--colour=false"}
					if re != "-" {
						args = append(args, re)
					}
					w.Case(func() string { return fmt.Sprintf("%q\n%s", args, text) }, func(t *T) {
						l := w.write("m.ledger", text)
						r := w.cli("", append([]string{"-l", l}, args...)...)
						t.Trans(1)
						if re == "[" {
							if r.err == nil {
								t.Failf("an invalid expression is accepted: %v", r)
							}
							return
						}
						if r.err != nil {
							t.Failf("fails: %v", r.err)
						}
						x := re
						if x == "-" {
							x = ".*"
						}
						m := mbookOf(ts2, nil)
						want := refAccounts(m, x, all)
						var got []string
						if js {
							if err := json.Unmarshal([]byte(r.out), &got); err != nil || got == nil {
								t.Failf("the output %q is not a JSON list: %v", r.out, err)
							}
						} else {
							lines := strings.Split(strings.TrimSuffix(r.out, "\n"), "\n")
							for _, a := range lines[1:] {
								got = append(got, strings.TrimRight(a, " "))
							}
						}
						if strings.Join(got, "\n") != strings.Join(want, "\n") {
							t.Failf("listed are %q, should be %q", got, want)
						}
						t.Nontrivial(fmt.Sprint(args, text))
						t.State(r.out)
					})
				}
			}
		}
		w.Case(func() string { return "ccy\n" + text }, func(t *T) {
			l := w.write("m.ledger", text)
			r := w.cli("", "-l", l, "ccy")
			if r.err != nil {
				t.Failf("fails: %v", r.err)
			}
			m := mbookOf(ts2, nil)
			want := ""
			for _, c := range sortedInt(m.Dec) {
				want += fmt.Sprintf("%s => %d decimals\n", c, m.Dec[c])
			}
			if r.out != want {
				t.Failf("listed is %q, should be %q", r.out, want)
			}
			t.Trans(1)
			t.State(r.out)
			t.Nontrivial("ccy " + text)
		})
	}

	w.Section("written amounts and their display")
	frac := []string{"", ".", ".0", ".5", ".50", ".500", ".05", ".005", ".1000", ".123456789", ".000000001", ".99", ".1234567891", ".00000000000000000001", ".123456789012345678901234567890", ".1000000000000"}
	for _, a := range frac {
		for _, b := range frac {
			for _, ip := range []string{"0", "1", "1000", "123456"} {
				text := fmt.Sprintf("2020/01/01 p\n  A  %s%s USD\n  B\n2020/01/02 q\n  A  -%s%s USD\n  B\n", ip, a, ip, b)
				w.Case(func() string { return text }, func(t *T) {
					ra, rb := ratS(ip+a+"0"), ratS(ip+b+"0")
					if a == "" {
						ra = ratS(ip)
					}
					if b == "" {
						rb = ratS(ip)
					}
					dec := decimalsOf(ra)
					if n := decimalsOf(rb); n > dec {
						dec = n
					}
					l := w.write("m.ledger", text)
					r := w.cli("", "-l", l, "ccy")
					if r.err != nil || r.out != fmt.Sprintf("USD => %d decimals\n", dec) {
						t.Failf("%v, should be %d decimals", r, dec)
					}
					g := w.cli("", "-l", l, "register", "--type=Text", "--combined=true", "--colour=false", "--lang=en", "--asc=true", "^A$")
					if g.err != nil {
						t.Failf("register fails: %v", g.err)
					}
					shown := ""
					for i, v := range []*big.Rat{ra, new(big.Rat).Neg(rb)} {
						if v.Sign() == 0 {
							continue
						}
						shown = refGroup(v.FloatString(dec), "en")
						if !strings.Contains(g.out, shown) {
							t.Failf("amount %d is not displayed as %q in\n%s", i+1, shown, g.out)
						}
					}
					t.Trans(2)
					t.Nontrivial(text)
					t.State(fmt.Sprint(dec))
				})
			}
		}
	}
}
