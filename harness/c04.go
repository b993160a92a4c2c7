//go:build verifmc

package main

import (
	"fmt"
	"math/big"
	"strings"
)

func init() {
	register(&Prop{ID: "C04", Level: "model_checking",
		Rule:        "every sequence of operations of the alphabet up to the depth bound, from each starting book, is applied to the real book through App.BookOps and to the reference model in lockstep; plus a sweep of every single operation over its arguments; states are distinct (book, prices, decimals) contents of the model, transitions are operations executed on the implementation",
		Assumptions: []string{"which of several notes survives a merge is not specified", "factors of move up to 15 significant digits", "amounts that are not finite decimals (thirds from depreciation) are compared as exact fractions"},
		Run:         runC04})
	register(&Prop{ID: "C03", Level: "model_checking",
		Rule:        "every sequence over the operation alphabet extended with duplicate removal and reclassification, up to the depth bound, from each balanced starting book; after every step the real book is checked for zero sum per transaction and currency, normal form, order and running balances; states are distinct book contents, transitions are operations executed on the implementation",
		Assumptions: []string{"starting books are balanced, as loading guarantees (C02)"},
		Run:         runC03})
}

func (m *MBook) canonAll() string {
	var sb strings.Builder
	sb.WriteString(m.canon())
	for _, c := range sortedInt(m.Dec) {
		fmt.Fprintf(&sb, "D %s %d\n", c, m.Dec[c])
	}
	return sb.String()
}

func sortedInt(m map[string]int) []string {
	x := map[string]int64{}
	for k, v := range m {
		x[k] = int64(v)
	}
	return sortedKeys(x)
}

func diffDec(got, want map[string]int) string {
	for c, d := range want {
		if g, ok := got[c]; !ok || g != d {
			return fmt.Sprintf("decimals of %s are %d (known: %v), should be %d", c, g, ok, d)
		}
	}
	for c := range got {
		if _, ok := want[c]; !ok {
			return fmt.Sprintf("decimals of unknown currency %s", c)
		}
	}
	return ""
}

// lockstep applies the operations to the real book and the model and compares: after every
// operation when observe is set, else only at the end.
func lockstep(t *T, s start, ops []Op, observe bool) {
	b := buildBook(s.ts, s.prices)
	m := mbookOf(s.ts, s.prices)
	t.State(m.canonAll())
	for i, o := range ops {
		if err := o.run(b); err != nil {
			t.Failf("step %d (%s) is refused: %v", i+1, o.Text, err)
		}
		o.Model(m)
		t.Trans(1)
		t.State(m.canonAll())
		if observe || i == len(ops)-1 {
			if d := diffBook(b, m); d != "" {
				t.Failf("after step %d (%s): %s", i+1, o.Text, d)
			}
			if d := diffDec(b.GetCCYDecimals(), m.Dec); d != "" {
				t.Failf("after step %d (%s): %s", i+1, o.Text, d)
			}
		}
	}
	t.Trace()
}

func seqDesc(s start, ops []Op) func() string {
	return func() string {
		d := "book '" + s.name + "':"
		for _, o := range ops {
			d += " " + o.Text
		}
		return d
	}
}

func eachSeq(ops []Op, depth int, f func(seq []Op)) {
	var rec func(seq []Op)
	rec = func(seq []Op) {
		if len(seq) > 0 {
			f(append([]Op(nil), seq...))
		}
		if len(seq) == depth {
			return
		}
		for _, o := range ops {
			rec(append(seq, o))
		}
	}
	rec(nil)
}

func runC04(w *W) {
	books := startBooks()
	ops := opAlphabet()

	w.Section("argument sweeps")
	one := func(s start, o Op) {
		w.Case(seqDesc(s, []Op{o}), func(t *T) {
			t.Nontrivial(s.name + o.Text)
			lockstep(t, s, []Op{o}, true)
		})
	}
	for _, s := range books {
		for months := int64(1); months <= 40; months++ {
			for _, re := range []string{"^E", ".", "^A$", "^none$"} {
				one(s, opDeprec(re, "Dep", months))
			}
		}
		one(s, opDeprec("^E:C", "Dep", 1200))
		for _, f := range []string{"0", "1", "2", "0.5", ".5", "5.", "0.25", "0.1", "0.2", "0.3", "0.7", "1.1", "0.333333333333333", "123456789.012345", "0.000000000000001", "100000000000000", "000.5", "0.10", "1.0"} {
			for _, re := range []string{"^E", ".", "^A$", "^none$", "^(.*)$"} {
				for _, tg := range []string{"T", "$0", "${1}x", "A", "$1:x", "$$"} {
					one(s, opMove(re, tg, strings.TrimSuffix(f, ".")))
				}
			}
		}
		// every day around every date of the book
		dates := map[int]bool{}
		for _, tt := range s.ts {
			dates[tt.Date] = true
		}
		for _, y := range []int{2019, 2020, 2021} {
			for mo := 1; mo <= 12; mo++ {
				for d := 1; d <= daysIn(y, mo); d++ {
					dt := y*10000 + mo*100 + d
					near := d <= 2 || d >= daysIn(y, mo)-1
					for k := range dates {
						if dt-k >= -1 && dt-k <= 1 {
							near = true
						}
					}
					if !near && !w.Thorough {
						continue
					}
					txt := fmt.Sprintf("%04d-%02d-%02d", y, mo, d)
					one(s, opSince(txt, dt))
					one(s, opAsof(txt, dt))
				}
			}
		}
	}
	// combine: every period type over every month end
	for y := 1999; y <= 2001; y++ {
		for mo := 1; mo <= 12; mo++ {
			for _, d := range []int{1, 2, 15, daysIn(y, mo) - 1, daysIn(y, mo)} {
				s := start{name: fmt.Sprintf("combine %04d/%02d/%02d", y, mo, d), ts: []MTxn{
					tx(y*10000+mo*100+d, "p", ln("A", "1.25", "USD"), ln("B", "-1.25", "USD")),
					tx(y*10000+mo*100+1, "q", ln("A", "2", "USD"), ln("C", "-2", "USD")),
					tx(y*10000+101, "r", ln("A", "-3.25", "USD"), ln("C", "3.25", "USD"))}}
				for _, typ := range []string{"yearly", "quarterly", "monthly", "none", "YEARLY", "Quarterly"} {
					one(s, opCombine(typ))
				}
				for _, n := range []int64{1, 2, 11, 12, 13, 25} {
					one(s, opDeprec("^A$", "Dep", n))
				}
			}
		}
	}
	// map and mapccy: every pattern x replacement
	pats := []string{"A", "^A$", "^A", "B$", ".", ".*", "^(.*)$", "(A)|(B)", "a", "(?i)a", "[^:]+$", ":", "^([^:]+):([^:]+)$", "^$", "X*", "$", "()"}
	reps := []string{"A", "Z", "$1", "$0", "${1}q", "$2:$1", "$1x", "$$", "$", "a:b:c", "$9", " "}
	for _, s := range books {
		for _, p := range pats {
			for _, r := range reps {
				for _, alt := range []string{"", "A", "Alt:$1"} {
					o := opMap(p, r, alt)
					one(s, o)
				}
				one(s, opMapCCY(p, r))
				one(s, opMapCCY(strings.NewReplacer("A", "X", "B", "USD").Replace(p), strings.NewReplacer("A", "X", "Z", "USD").Replace(r)))
			}
		}
	}

	w.Section("large books")
	for _, n := range []int{5, 8, 9, 12, 13, 33, 64, 65, 129, 300} {
		for kind := 0; kind < 4; kind++ {
			var ts []MTxn
			for i := 0; i < n; i++ {
				a, c, d := fmt.Sprintf("E:%c:%d", 'A'+i%7, i), "USD", 20200101+i%28+i/28%12*100
				switch kind {
				case 1:
					a = "E:C" + strings.Repeat(":", i%4) + strings.Repeat("x", i/4%9)
				case 2:
					c = fmt.Sprint("C", i%40)
				case 3: // one transaction
					d = 20200131
				}
				x := ln(a, fmt.Sprint(i+1), c)
				y := ln([]string{"A", "A:B", "B"}[i%3], fmt.Sprint(-i-1), c)
				if kind == 3 && i > 0 {
					ts[0].Posts = append(ts[0].Posts, x, y)
				} else {
					ts = append(ts, tx(d, fmt.Sprint("p", i%5), x, y))
				}
			}
			s := start{fmt.Sprintf("%d postings, kind %d", 2*n, kind), ts, nil}
			for _, o := range append(ops, opMap("x+$", "y", ""), opMap(":*$", ":", ""), opMap("[0-9]+$", "n", "")) {
				one(s, o)
			}
		}
	}

	w.Section("operations of the package that no command uses directly")
	for _, s := range books {
		ts := mbookOf(s.ts, s.prices).trans()
		for _, a := range []string{"A", "A:B", "B", "E", "E:C", "Eq", "none", "", "a", "A:"} {
			one(s, opOnlyAccount(a))
		}
		n := uint(len(ts))
		if n > 6 {
			n = 6
		}
		for mask := 0; mask < 1<<n; mask++ {
			one(s, opOnlyTrans(mask))
		}
		for _, r := range []string{"0", "1", "-1", "1/3", "2"} {
			for _, r2 := range []string{"0", "1", "-3/7"} {
				for _, c := range []string{"", "USD", "X", "new"} {
					for _, from := range []int{0, 20200201, 99990101} {
						one(s, opRates(r, r2, c, from))
					}
				}
			}
		}
		for kind := 0; kind < 6; kind++ {
			one(s, opRetitle(kind))
		}
		for _, p := range []string{"A", "^A", "^none$", "(.)"} {
			for _, alt := range []string{"", "Alt", "E"} {
				one(s, opMapPlain(p, "", alt))
				one(s, opMapPlain(p, "Q$1", alt))
			}
		}
	}

	for _, s := range books {
		depth := 3
		if w.Thorough {
			depth = 4
		}
		w.Section(fmt.Sprintf("all sequences to depth %d from book '%s'", depth, s.name))
		s := s
		eachSeq(ops, depth, func(seq []Op) {
			if w.Done() {
				return
			}
			w.Case(seqDesc(s, seq), func(t *T) {
				t.Nontrivial(s.name + fmt.Sprint(opTexts(seq)))
				lockstep(t, s, seq, false)
				if len(seq) > 1 {
					lockstep(t, s, seq, true)
				}
			})
		})
	}
}

func opTexts(seq []Op) []string {
	var o []string
	for _, s := range seq {
		o = append(o, s.Text)
	}
	return o
}

func runC03(w *W) {
	books := startBooks()[:4]
	books = append(books, startBooks()[5:]...)
	ref := []MTxn{
		tx(20200115, "a", ln("A", "1", "USD"), ln("Z", "-1", "USD")),
		tx(20200301, "q", ln("A:B", "1", "USD"), ln("Y", "-1", "USD")),
		tx(20200101, "", ln("A", "1", "USD"), ln("Y", "-1", "USD")),
		tx(20200101, "p", ln("E:C", "1", "USD"), ln("A", "-1", "USD"))}
	ops := append(opAlphabet(), opDedup(ref))
	for _, acct := range []string{"A", "A:B", "E:C"} {
		acct := acct
		ops = append(ops, Op{Text: "reclassify(" + acct + ")", Real: func(b *bookT) error {
			b.ReclassifyByAccount(buildBook(ref, nil), acct, func(a, b string) float64 {
				if a == b {
					return 1
				}
				return 0.5
			})
			return nil
		}})
	}
	for _, s := range books {
		depth := 3
		if w.Thorough {
			depth = 4
		}
		w.Section(fmt.Sprintf("all sequences to depth %d from book '%s'", depth, s.name))
		s := s
		eachSeq(ops, depth, func(seq []Op) {
			if w.Done() {
				return
			}
			w.Case(seqDesc(s, seq), func(t *T) {
				t.Nontrivial(s.name + fmt.Sprint(opTexts(seq)))
				b := buildBook(s.ts, s.prices)
				t.State(modelOf(b).canon())
				for i, o := range seq {
					if err := o.run(b); err != nil {
						t.Failf("step %d (%s) is refused: %v", i+1, o.Text, err)
					}
					t.Trans(1)
					if d := checkInvariants(b, true); d != "" {
						t.Failf("after step %d (%s): %s", i+1, o.Text, d)
					}
				}
				t.State(modelOf(b).canon())
				t.Trace()
			})
		})
	}

	// the text that is loaded rather than built: transactions of every shape
	w.Section("loaded books under single operations")
	amts := []string{"1", "-1", "0.5", "-0.3", "100000000000000000000.01"}
	accts := []string{"A", "A:B", "E"}
	seqs(15, 3, func(ix []int) {
		if len(ix) < 1 || w.Done() {
			return
		}
		var tt MTxn
		tt.Date, tt.Payee = 20200131, "p"
		sum := map[string]*big.Rat{"USD": new(big.Rat), "X": new(big.Rat)}
		for k, i := range ix {
			c := "USD"
			if k == 1 {
				c = "X"
			}
			l := ln(accts[i%3], amts[i/3], c)
			sum[c].Add(sum[c], l.Amt)
			tt.Posts = append(tt.Posts, l)
		}
		for _, c := range []string{"USD", "X"} {
			tt.Posts = append(tt.Posts, MLine{Acct: "Bal", CCY: c, Amt: new(big.Rat).Neg(sum[c])})
		}
		t2 := tt
		t2.Date = 20200301
		text := ledgerText([]MTxn{tt, t2}, nil)
		w.Case(func() string { return fmt.Sprintf("%q", text) }, func(t *T) {
			for _, o := range append([]Op{{Text: "(load)"}}, ops...) {
				b, err := w.loadText(text)
				if err != nil {
					t.Failf("refused: %v", err)
				}
				if o.Text != "(load)" {
					if err := o.run(b); err != nil {
						t.Failf("%s refused: %v", o.Text, err)
					}
				}
				t.Trans(1)
				if d := checkInvariants(b, true); d != "" {
					t.Failf("after %s: %s", o.Text, d)
				}
				t.State(modelOf(b).canon())
			}
			t.Trace()
		})
	})
}
