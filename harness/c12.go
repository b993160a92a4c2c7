//go:build verifmc && verifhooks

package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/antzucaro/matchr"
	"github.com/mescanne/goledger/book"
)

func init() {
	register(&Prop{ID: "C12", Level: "model_checking",
		Rule:        "every reference book of up to the stated number of transactions over the transaction alphabet x every book over its alphabet x every similarity table over the payees met (values none, tie, high, negative, not-a-number, infinite), each executed on the real code under every combination of map iteration walks; plus the import command with the real similarity on every small combination of payees. The result must be the model's (only counter-accounts of eligible transactions replaced, by a best candidate), and the same under every order. States: distinct (book, reference, similarity); transitions: executions of the real code",
		Assumptions: []string{"maps of up to eight entries are walked from every start in both directions; longer ones from eight starts under four hash seeds"},
		Run:         runC12})
}

// reclassify gives, for every transaction of b, the acceptable counter-accounts (nil: unchanged).
func refReclassify(ref, b *MBook, refacct string, dist func(a, b string) float64) [][]string {
	count := map[string]map[string]int{}
	for _, tr := range ref.trans() {
		if len(tr) != 2 {
			continue
		}
		c := ""
		switch refacct {
		case tr[0].Acct:
			c = tr[1].Acct
		case tr[1].Acct:
			c = tr[0].Acct
		default:
			continue
		}
		if count[tr[0].Payee] == nil {
			count[tr[0].Payee] = map[string]int{}
		}
		count[tr[0].Payee][c]++
	}
	var out [][]string
	for _, tr := range b.trans() {
		out = append(out, nil)
		if len(tr) != 2 || tr[0].Acct != refacct && tr[1].Acct != refacct {
			continue
		}
		best := 0.0
		var cands []string
		for p, cs := range count {
			d := dist(tr[0].Payee, p)
			if !(d > 0) || d < best {
				continue
			}
			if d > best {
				best, cands = d, nil
			}
			max := 0
			for _, n := range cs {
				if n > max {
					max = n
				}
			}
			for c, n := range cs {
				if n == max {
					cands = append(cands, c)
				}
			}
		}
		out[len(out)-1] = cands
	}
	return out
}

// renamed is b with the choices made.
func checkReclassified(got *book.Book, b *MBook, refacct string, allowed [][]string) string {
	if d := checkInvariants(got, true); d != "" {
		return d
	}
	x := b.clone()
	// choose what the code chose, if allowed
	chosen := map[string]string{}
	for _, tr := range got.Transactions() {
		for _, p := range tr {
			if len(tr) == 2 && p.GetAccount() != refacct {
				chosen[fmt.Sprintf("%d %s", p.GetDate(), p.GetPayee())] = p.GetAccount()
			}
			if p.GetAccountTerm() != p.GetAccount() {
				return fmt.Sprintf("account %s is shown as %s", p.GetAccount(), p.GetAccountTerm())
			}
		}
	}
	i := 0
	for k, tr := range b.trans() {
		for range tr {
			if allowed[k] != nil && x.Posts[i].Acct != refacct {
				c := chosen[fmt.Sprintf("%d %s", tr[0].Date, tr[0].Payee)]
				if !member(c, allowed[k]) {
					return fmt.Sprintf("transaction %d %q has counter-account %q, should be one of %q", tr[0].Date, tr[0].Payee, c, allowed[k])
				}
				x.Posts[i].Acct = c
			}
			i++
		}
	}
	x.normalise()
	return diffTrans(got, x)
}

func runC12(w *W) {
	defer setMapHook(nil)
	mk := func(date int, payee, acct string) MTxn {
		return tx(date, payee, ln("M", "-5", "X"), ln(acct, "5", "X"))
	}
	one := func(refs, txs []MTxn, refacct string, dist func(a, b string) float64, desc string, limit int) {
		w.Case(func() string {
			return fmt.Sprintf("reference:\n%sbook:\n%saccount %s, similarity %s", ledgerText(refs, nil), ledgerText(txs, nil), refacct, desc)
		}, func(t *T) {
			mref, mb := mbookOf(refs, nil), mbookOf(txs, nil)
			allowed := refReclassify(mref, mb, refacct, dist)
			first, firstOrder := "", ""
			var what string
			refText := mref.canonAll()
			runs, full := mapOrders(limit, func(order string) {
				var b, r *book.Book
				quietMaps(func() { b, r = buildBook(txs, nil), buildBook(refs, nil) })
				b.ReclassifyByAccount(r, refacct, dist)
				setMapHook(nil)
				if what != "" {
					return
				}
				if d := checkReclassified(b, mb, refacct, allowed); d != "" {
					what = "order " + order + ": " + d
					return
				}
				if d := diffTrans(r, mref); d != "" {
					what = "the reference book changed: " + d
				}
				s := modelOf(b).canon()
				if first == "" {
					first, firstOrder = s, order
				} else if s != first {
					what = fmt.Sprintf("map order %s gives\n%s\nmap order %s gives\n%s", firstOrder, first, order, s)
				}
			})
			t.Trans(int64(runs))
			if what != "" {
				t.Failf("%s", what)
			}
			if full {
				t.Outcome("all orders")
			} else {
				t.Outcome("orders limited")
			}
			st := refText + mb.canon() + desc + refacct
			t.State(st)
			for _, a := range allowed {
				if len(a) > 0 {
					t.Nontrivial(st)
				}
				if len(a) > 1 {
					t.Outcome("tie")
					break
				}
			}
			t.Trace()
		})
	}

	w.Section("majority counter-account")
	shapes := []func(date int) MTxn{
		func(d int) MTxn { return mk(d, "p", "A") },
		func(d int) MTxn { return mk(d, "p", "Z") },
		func(d int) MTxn { return mk(d, "p", "C") },
		func(d int) MTxn { return mk(d, "q", "Z") },
		func(d int) MTxn { return mk(d, "q", "B") },
		func(d int) MTxn { return tx(d, "p", ln("B", "-5", "X"), ln("A", "5", "X")) },
		func(d int) MTxn { return tx(d, "p", ln("M", "-5", "X"), ln("B", "2", "X"), ln("C", "3", "X")) },
		func(d int) MTxn { return tx(d, "r", ln("M", "7", "Y"), ln("M:B", "-7", "Y")) },
		func(d int) MTxn {
			return tx(d, "p", ln("M", "-5", "X"), ln("B", "5", "X"), ln("M", "5", "Y"), ln("B", "-5", "Y"))
		},
	}
	n := 4
	if w.Thorough {
		n = 5
	}
	target := []MTxn{mk(20210101, "p", "B"), mk(20210102, "new", "B"), tx(20210103, "p", ln("M", "-5", "X"), ln("B", "2", "X"), ln("C", "3", "X")), tx(20210103, "q", ln("B", "-5", "X"), ln("C", "5", "X")),
		tx(20210104, "q", ln("M", "1", "Y"), ln("N", "-1", "Y"))}
	exact := func(a, b string) float64 {
		if a == b {
			return 1
		}
		return 0
	}
	any := func(a, b string) float64 { return 0.25 }
	seqs(len(shapes), n, func(s []int) {
		if w.Done() {
			return
		}
		var refs []MTxn
		for i, k := range s {
			refs = append(refs, shapes[k](20200101+i))
		}
		one(refs, target, "M", exact, "equal payees", 1200)
		if len(s) < 4 || w.Thorough && len(s) == 4 {
			one(refs, target, "M", any, "a quarter for all", 1200)
			one(refs, target, "B", any, "a quarter for all", 1200)
			one(refs, refs, "M", any, "a quarter for all", 1200)
		}
	})

	w.Section("close votes")
	votes := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17}
	if w.Thorough {
		votes = append(votes, 31, 32, 33, 127, 128, 255, 256, 257)
	} else {
		votes = append(votes, 128, 256, 257)
	}
	for _, x := range votes {
		for _, y := range votes {
			if x > 20 && y > 20 && y-x > 2 || w.Done() {
				continue
			}
			for _, order := range []string{"first x", "first y", "in turn"} {
				var refs []MTxn
				date := func() int { return 20200101 + len(refs)/28/12*10000 + len(refs)/28%12*100 + len(refs)%28 }
				i, j := 0, 0
				for i < x || j < y {
					if i < x && (order == "first x" || j == y || order == "in turn" && i <= j) {
						refs = append(refs, mk(date(), "p", "N"))
						i++
					} else {
						refs = append(refs, mk(date(), "p", "C"))
						j++
					}
				}
				one(refs, target, "M", exact, "equal payees", 6)
			}
		}
	}

	w.Section("same day and payee")
	seqs(len(shapes), 3, func(s []int) {
		var refs []MTxn
		for _, k := range s {
			refs = append(refs, shapes[k](20200101))
		}
		one(refs, target, "M", any, "a quarter for all", 1200)
		one(refs, refs, "M", any, "a quarter for all", 1200)
	})

	w.Section("similarity tables")
	vals := []float64{0, 0.5, 1, -1, math.NaN()}
	if w.Thorough {
		vals[3] = math.Inf(1)
	}
	refSets := [][]MTxn{
		{mk(20200101, "p", "A"), mk(20200101, "q", "Z"), mk(20200101, "r", "C")},
		{mk(20200101, "p", "Z"), mk(20200102, "p", "A"), mk(20200101, "q", "C"), mk(20200103, "q", "A"), mk(20200101, "r", "B")},
		{mk(20200101, "p", "Z"), mk(20200102, "p", "A"), mk(20200103, "p", "A"), mk(20200101, "q", "Z"), mk(20200101, "", "C")},
		{mk(20200101, "r", "A"), mk(20200101, "q", "Z"), mk(20200101, "p", "A")},
	}
	for _, refs := range refSets {
		names := []string{}
		for _, r := range refs {
			if !member(r.Payee, names) {
				names = append(names, r.Payee)
			}
		}
		idx := make([]int, 2*len(names))
		for {
			row := append([]int(nil), idx...)
			table := map[[2]string]float64{}
			for i, p := range names {
				table[[2]string{"x", p}] = vals[row[i]]
				table[[2]string{"y", p}] = vals[row[len(names)+i]]
			}
			refs := refs
			one(refs, []MTxn{mk(20210101, "x", "B"), mk(20210101, "y", "B")}, "M", func(a, b string) float64 { return table[[2]string{a, b}] }, fmt.Sprint(table), 300)
			i := len(idx) - 1
			for i >= 0 {
				idx[i]++
				if idx[i] < len(vals) {
					break
				}
				idx[i] = 0
				i--
			}
			if i < 0 || w.Done() {
				break
			}
			if !w.Thorough && len(names) > 2 {
				// the second payee's row mirrors the first
				for k := range names {
					idx[len(names)+k] = (idx[k] + 1 + k) % len(vals)
				}
				if i >= len(names) {
					break
				}
				for k := len(names) - 1; k > i; k-- {
					idx[k] = 0
				}
			}
		}
	}

	w.Section("many payees")
	for seed := uint64(0); seed < 4; seed++ {
		for _, np := range []int{7, 8, 9, 12, 20} {
			for ties := 1; ties <= np; ties += 3 {
				seed, np, ties := seed, np, ties
				var refs []MTxn
				for i := 0; i < np; i++ {
					refs = append(refs, mk(20200101+i%28, fmt.Sprintf("p%02d", (i*7)%np), fmt.Sprintf("A%02d", i)))
					refs = append(refs, mk(20200201+i%28, fmt.Sprintf("p%02d", (i*5)%np), fmt.Sprintf("B%02d", i)))
				}
				w.Case(func() string {
					return fmt.Sprintf("%d reference payees, %d of them tied, hash seed %d", np, ties, seed)
				}, func(t *T) {
					dist := func(a, b string) float64 {
						if b >= fmt.Sprintf("p%02d", np-ties) {
							return 0.75
						}
						return 0.5
					}
					txs := []MTxn{mk(20210101, "x", "B"), mk(20210102, "y", "C")}
					mref, mb := mbookOf(refs, nil), mbookOf(txs, nil)
					allowed := refReclassify(mref, mb, "M", dist)
					first := ""
					for s := uint64(0); s < 4; s++ {
						setMapSeed(seed*4 + s + 1)
						runs, _ := mapOrders(120, func(order string) {
							var b, r *book.Book
							quietMaps(func() { b, r = buildBook(txs, nil), buildBook(refs, nil) })
							b.ReclassifyByAccount(r, "M", dist)
							setMapHook(nil)
							if d := checkReclassified(b, mb, "M", allowed); d != "" {
								t.Failf("%s", d)
							}
							c := modelOf(b).canon()
							if first == "" {
								first = c
							} else if c != first {
								t.Failf("different orders give\n%s\nand\n%s", first, c)
							}
						})
						t.Trans(int64(runs))
					}
					t.Nontrivial(fmt.Sprint(np, ties, seed))
				})
			}
		}
	}

	sim := func(a, b string) float64 {
		if d := matchr.JaroWinkler(a, b, true); d > 0.5 {
			return d
		}
		return 0
	}
	// what an earlier file of the same run brings is no known transaction
	w.Section("several files in one run")
	code3 := "def f(r, a):\n  for x in r:\n    a(date=x[0], desc=x[1], amt=x[2], caccount=x[3])\nf(data, add)"
	for _, ledger := range [][]MTxn{nil, {tx(20200101, "other", ln("M", "-5", "X"), ln("Q", "5", "X"))}, {mk(20200101, "shop", "A")}} {
		for _, p1 := range []string{"shop", "shops", "xyzzy"} {
			for _, p2 := range []string{"shop", "shopz", "xyzz"} {
				for _, n := range []int{2, 3, 4} {
					ledger, p1, p2, n := ledger, p1, p2, n
					w.Case(func() string {
						return fmt.Sprintf("%d files with payees %q then %q, %d known transactions", n, p1, p2, len(ledger))
					}, func(t *T) {
						l := w.write("known.ledger", ledgerText(ledger, nil))
						args := []string{"-l", l, "--ccy", "X", "import", "--format", "csv", "--code", code3, "-a", "M", "-c", "N"}
						want := ""
						for i := 0; i < n; i++ {
							p, c := p1, "K"
							if i == n-1 {
								p, c = p2, "N"
							}
							f := w.write(fmt.Sprintf("i%d.csv", i), fmt.Sprintf("2021-01-%02d,%s,-5,%s\n", i+1, p, c))
							one := w.cli("", append(args[:len(args):len(args)], f)...)
							b, err := w.loadText(one.out)
							if one.err != nil || err != nil {
								t.Failf("file %d alone: %s", i, one)
							}
							imp := []MTxn{tx(20210101+i, p, ln("M", "-5", "X"), ln(c, "5", "X"))}
							if d := checkReclassified(b, mbookOf(imp, nil), "M", refReclassify(mbookOf(ledger, nil), mbookOf(imp, nil), "M", sim)); d != "" {
								t.Failf("file %d alone: %s\n%s", i, d, one.out)
							}
							want += one.out
						}
						all := args
						for i := 0; i < n; i++ {
							all = append(all[:len(all):len(all)], w.Scratch+fmt.Sprintf("/i%d.csv", i))
						}
						c := w.cli("", all...)
						if c.err != nil || c.out != want {
							t.Failf("together they give %s instead of\n%s", c, want)
						}
						t.Trans(int64(n) + 1)
						t.Nontrivial(fmt.Sprint(p1, p2, n, len(ledger)))
						t.Trace()
					})
				}
			}
		}
	}

	w.Section("import command")
	names := []string{"", "shop", "shops", "Shop One", "SHOP 2", "bakery", "xyzzy"}
	if w.Thorough {
		names = append(names, "shop one", "shp", "phos", "bäcker")
	}
	code := "def f(r, a):\n  for x in r:\n    a(date=x[0], desc=x[1], amt=x[2])\nf(data, add)"
	for _, p1 := range names {
		for _, p2 := range names {
			for _, p3 := range names {
				p1, p2, p3 := p1, p2, p3
				w.Case(func() string {
					return fmt.Sprintf("import of payees %q and %q with %q known", p3, "shop", []string{p1, p2})
				}, func(t *T) {
					refs := []MTxn{mk(20200101, p1, "A"), mk(20200102, p2, "Z"), mk(20200103, p1, "Z")}
					imp := []MTxn{tx(20210101, p3, ln("M", "-5", "X"), ln("N", "5", "X")), tx(20210102, "shop", ln("M", "7", "X"), ln("N", "-7", "X"))}
					l := w.write("m.ledger", ledgerText(refs, nil))
					csvf := w.write("i.csv", fmt.Sprintf("2021-01-01,%q,-5\n2021-01-02,shop,7\n", p3))
					allowed := refReclassify(mbookOf(refs, nil), mbookOf(imp, nil), "M", sim)
					first := ""
					for _, rc := range []bool{true, false} {
						runs, _ := mapOrders(30, func(order string) {
							if !rc && order != "first" {
								return
							}
							c := w.cli("", "-l", l, "--ccy", "X", "import", "--format", "csv", "--code", code, "-a", "M", "-c", "N", "--dedup=false", fmt.Sprintf("--reclassify=%v", rc), csvf)
							setMapHook(nil)
							if c.err != nil {
								t.Failf("import fails: %v", c.err)
							}
							if rc {
								if first == "" {
									first = c.out
								} else if first != c.out {
									t.Failf("map order %s gives\n%s\ninstead of\n%s", order, c.out, first)
								}
							}
							b, err := w.loadText(c.out)
							if err != nil {
								t.Failf("output unreadable: %v\n%s", err, c.out)
							}
							al := allowed
							if !rc {
								al = make([][]string, len(allowed))
							}
							if d := checkReclassified(b, mbookOf(imp, nil), "M", al); d != "" {
								t.Failf("reclassify %v: %s\n%s", rc, d, c.out)
							}
						})
						t.Trans(int64(runs))
					}
					t.Nontrivial(strings.Join([]string{p1, p2, p3}, "|"))
					t.Trace()
				})
			}
		}
	}
}
