//go:build verifmc

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"strings"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/app"
	"github.com/mescanne/goledger/cmd/export"
	"github.com/mescanne/goledger/cmd/reports"
)

func init() {
	register(&Prop{ID: "C20", Level: "model_checking",
		Rule:        "every sequence up to the depth of queries and operations on a book and its duplicate (including duplicating again and operations that look at the other book); every answer and, at the end, both books are compared with those of fresh books on which only the operations were done; held answers are compared again behind later queries. States are distinct contents of the pair of books, transitions are actions executed",
		Assumptions: []string{"what an operation does is decided by C04", "an answer that is held while the book is changed may change", "the caller does not change the answers"},
		Run:         runC20})
}

// query is a way of looking at a book; its answer is shown by a function that can be called again.
type query struct {
	name string
	ask  func(b *book.Book) func() string
}

func once(f func(b *book.Book) string) func(b *book.Book) func() string {
	return func(b *book.Book) func() string { s := f(b); return func() string { return s } }
}

func showTrans(tr []book.Transaction) string {
	var sb strings.Builder
	for _, t := range tr {
		fmt.Fprintf(&sb, "%d %q %q\n", t.GetDate(), t.GetPayee(), t.GetTransactionNote())
		for _, p := range t {
			fmt.Fprintf(&sb, "  %d %q %q %s %s %s %q %d %s %q\n", p.GetDate(), p.GetPayee(), p.GetTransactionNote(), p.GetAccount(), p.GetAmount().RatString(), p.GetCCY(), p.GetPostNote(), p.GetAccountLevel(), p.GetAccountTerm(), p.GetBalance().RatString())
		}
	}
	return sb.String()
}

func showRegister(r book.RegistryReport) string {
	var sb strings.Builder
	for _, e := range r {
		fmt.Fprintf(&sb, "%d %q %s %s %s %s %s %q %q %s %s %d %s\n", e.Date, e.Payee, e.Account, e.CounterAccount, e.Amount.RatString(), e.CCY, e.Balance.RatString(), e.Note, e.TNote, e.BaseCCY, e.BaseAmount.RatString(), e.BaseSource, e.BaseBalance.RatString())
	}
	return sb.String()
}

func bookQueries() []query {
	credit := regexp.MustCompile("^E")
	anyRe, aRe := regexp.MustCompile("."), regexp.MustCompile("^A")
	acc := func(ccy string, cr *regexp.Regexp, hidden string) func(b *book.Book) func() string {
		return func(b *book.Book) func() string {
			tr := b.Accumulate(ccy, ":", cr, hidden)
			return func() string { return showTrans(tr) }
		}
	}
	printer := func(f func(p *app.BookPrinter, b *book.Book) error) func(b *book.Book) func() string {
		return once(func(b *book.Book) string {
			var buf bytes.Buffer
			a := app.DefaultApp
			a.Output, a.Lang = &buf, "en"
			err := f(a.NewBookPrinter(b.GetCCYDecimals()), b)
			return fmt.Sprint(buf.String(), err)
		})
	}
	return []query{
		{"transactions", func(b *book.Book) func() string {
			tr := b.Transactions()
			return func() string { return showTrans(tr) }
		}},
		{"accounts", once(func(b *book.Book) string {
			return fmt.Sprint(b.Accounts(".*", false), b.Accounts("^A", true))
		})},
		{"prices", once(func(b *book.Book) string {
			var sb strings.Builder
			for _, p := range b.GetPricePairs() {
				for _, x := range b.GetPriceList(p.Unit, p.CCY) {
					fmt.Fprintf(&sb, "%v %d %s\n", p, x.GetDate(), x.GetPrice().RatString())
				}
			}
			for _, d := range []book.Date{20190101, 20200101, 20200215, 20200301, 20220101} {
				for _, u := range []string{"X", "USD", "Y"} {
					for _, c := range []string{"X", "USD", "EUR"} {
						v, k := b.GetPrice(d, u, c)
						fmt.Fprintf(&sb, "%d %s %s %s %v\n", d, u, c, v.RatString(), k)
					}
				}
			}
			return sb.String()
		})},
		{"decimals", once(func(b *book.Book) string { return fmt.Sprint(b.GetCCYDecimals()) })},
		{"register", func(b *book.Book) func() string {
			r := b.ExtractRegister("X", anyRe, false)
			return func() string { return showRegister(r) }
		}},
		{"register split", func(b *book.Book) func() string {
			r := b.ExtractRegister("USD", aRe, true)
			r.FilterByDate("2020-02-29", "2020-12-31")
			return func() string { return showRegister(r) }
		}},
		{"summary X", acc("X", nil, "")},
		{"summary USD credit", acc("USD", credit, "A")},
		{"ledger", printer(func(p *app.BookPrinter, b *book.Book) error { return export.ShowLedger(p, b) })},
		{"beancount", printer(func(p *app.BookPrinter, b *book.Book) error { return export.ShowBeancount(p, b, "X") })},
		{"text", printer(func(p *app.BookPrinter, b *book.Book) error {
			return reports.ShowTransactions(p, b.Accumulate("X", ":", credit, ""))
		})},
		{"json", once(func(b *book.Book) string {
			s, err := json.Marshal(b.Transactions())
			return fmt.Sprint(string(s), err)
		})},
	}
}

// bop is an operation; some look at the other book.
type bop struct {
	name string
	do   func(b, other *book.Book)
	uses bool
}

func bookOps(thorough bool) []bop {
	of := func(o Op) bop {
		return bop{o.Text, func(b, _ *book.Book) {
			if err := o.run(b); err != nil {
				panic("harness: " + err.Error())
			}
		}, false}
	}
	ops := []bop{
		of(opMap("^A$", "E:C", "")),
		of(opMove("^E", "E:C", "0.5")),
		of(opDeprec("^E", "Asset:Dep", 3)),
		of(opAsof("2021", 20210101)),
		of(opCombine("yearly")),
		of(opMapCCY("^(.*)$", "$1$1")),
		{"convert to X", func(b, _ *book.Book) {
			b.MapAmount(func(d book.Date, ccy string) (*big.Rat, string) {
				r, _ := b.GetPrice(d, ccy, "X")
				return r, "X"
			})
		}, false},
		{"remove duplicates of the other", func(b, o *book.Book) { b.RemoveDuplicatesOf(o) }, true},
		{"reclassify by the other", func(b, o *book.Book) {
			b.ReclassifyByAccount(o, "A", func(x, y string) float64 {
				if x == y {
					return 1
				}
				return 0
			})
		}, true},
	}
	if thorough {
		ops = append(ops, of(opMove(".", "S", "0")), of(opSince("2020-01-15", 20200115)), of(opMapCCY("^USD$", "X")))
	}
	return ops
}

func fullView(b *book.Book) string {
	var sb strings.Builder
	sb.WriteString(showTrans(b.Transactions()))
	for _, p := range b.GetPricePairs() {
		for _, x := range b.GetPriceList(p.Unit, p.CCY) {
			fmt.Fprintf(&sb, "P %v %d %s\n", p, x.GetDate(), x.GetPrice().RatString())
		}
	}
	fmt.Fprintln(&sb, b.GetCCYDecimals())
	return sb.String()
}

// history is how a book came to be, without looking at it and without duplicates.
type history struct {
	op    int // -1: the start
	prev  *history
	other *history
	key   string
}

func (h *history) then(op int, other *history) *history {
	n := &history{op: op, prev: h, key: fmt.Sprintf("%s.%d", h.key, op)}
	if other != nil {
		n.other = other
		n.key += "(" + other.key + ")"
	}
	return n
}

func runC20(w *W) {
	qs := bookQueries()
	ops := bookOps(w.Thorough)
	starts := startBooks()
	depth := 3
	if w.Thorough {
		depth = 4
	}
	// actions: per book the queries and operations, then duplicating one over the other
	na := 2*(len(qs)+len(ops)) + 2
	name := func(a int) string {
		if a >= na-2 {
			return []string{"B = duplicate of A", "A = duplicate of B"}[a-(na-2)]
		}
		bk := string('A' + rune(a%2))
		a /= 2
		if a < len(qs) {
			return bk + "? " + qs[a].name
		}
		return bk + " " + ops[a-len(qs)].name
	}
	for si, st := range starts {
		d := depth
		if w.Thorough && si > 1 {
			d = 3
		}
		st := st
		w.Section(st.name)
		cache := map[string]string{}
		var pure func(h *history) *book.Book
		pure = func(h *history) *book.Book {
			if h.op < 0 {
				return buildBook(st.ts, st.prices)
			}
			b := pure(h.prev)
			var o *book.Book
			if h.other != nil {
				o = pure(h.other)
			}
			ops[h.op].do(b, o)
			return b
		}
		ref := func(h *history, q int) string {
			k := fmt.Sprintf("%s?%d", h.key, q)
			s, ok := cache[k]
			if !ok {
				if q < 0 {
					s = fullView(pure(h))
				} else {
					s = qs[q].ask(pure(h))()
				}
				cache[k] = s
			}
			return s
		}
		seqs(na, d, func(ix []int) {
			if len(ix) < d && w.Thorough {
				// every shorter sequence is the beginning of one with a last query on the
				// same final books
				if len(ix) < d-1 {
					return
				}
			}
			w.Case(func() string {
				var n []string
				for _, a := range ix {
					n = append(n, name(a))
				}
				return fmt.Sprintf("book %q: %s", st.name, strings.Join(n, "; "))
			}, func(t *T) {
				root := &history{op: -1, key: "0"}
				hs := [2]*history{root, root}
				a := buildBook(st.ts, st.prices)
				bs := [2]*book.Book{a, a.Duplicate()}
				type heldAns struct {
					h    *history
					side int
					name string
					show func() string
					text string
				}
				var held []heldAns
				for n, act := range ix {
					if act >= na-2 {
						from := act - (na - 2)
						bs[1-from] = bs[from].Duplicate()
						hs[1-from] = hs[from]
						t.Trans(1)
						continue
					}
					side, k := act%2, act/2
					if k < len(qs) {
						show := qs[k].ask(bs[side])
						s := show()
						if want := ref(hs[side], k); s != want {
							t.Failf("step %d (%s): the answer is\n%s\nwithout the other steps it is\n%s", n, name(act), s, want)
						}
						held = append(held, heldAns{hs[side], side, name(act), show, s})
					} else {
						o := k - len(qs)
						ops[o].do(bs[side], bs[1-side])
						if ops[o].uses {
							hs[side] = hs[side].then(o, hs[1-side])
						} else {
							hs[side] = hs[side].then(o, nil)
						}
						// answers about this book may change now
						var keep []heldAns
						for _, x := range held {
							if x.side != side {
								keep = append(keep, x)
							}
						}
						held = keep
					}
					t.Trans(1)
				}
				for _, x := range held {
					if s := x.show(); s != x.text {
						t.Failf("the answer of %q was\n%s\nand has become\n%s", x.name, x.text, s)
					}
				}
				for i := range bs {
					got, want := fullView(bs[i]), ref(hs[i], -1)
					if got != want {
						t.Failf("book %c is\n%s\nwith only its own operations it is\n%s", 'A'+i, got, want)
					}
				}
				t.State(hs[0].key + " " + hs[1].key)
				if hs[0].key != hs[1].key {
					t.Nontrivial(fmt.Sprint(st.name, ix))
				}
			})
		})
		w.Done()
	}
}
