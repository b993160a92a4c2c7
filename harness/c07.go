//go:build verifmc

package main

import (
	"fmt"
	"math/big"

	"github.com/mescanne/goledger/book"
)

func init() {
	register(&Prop{ID: "C07", Level: "model_checking",
		Rule:        "every set of recorded prices over a calendar grid up to the stated size, in every recording order up to five records, directly, inverted and in both directions; every lookup on every day of the grid and every sequence of sequential lookups in date order up to the depth; states are price tables, transitions are lookups",
		Assumptions: []string{"at most one price per pair and day is recorded (two prices of one day have no defined meaning)"},
		Run:         runC07})
	register(&Prop{ID: "C08", Level: "exploration",
		Rule:        "every date of years 1 to 9999, every day and period offset of the stated set; the reference calendar walks day by day",
		Assumptions: []string{"the fractional-year position is counted from the start of year 1"},
		Run:         runC08})
}

func permute(n int, f func(ix []int)) {
	ix := make([]int, n)
	for i := range ix {
		ix[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(append([]int(nil), ix...))
			return
		}
		for i := k; i < n; i++ {
			ix[k], ix[i] = ix[i], ix[k]
			rec(k + 1)
			ix[k], ix[i] = ix[i], ix[k]
		}
	}
	rec(0)
}

func priceDesc(ps []mprice) string {
	s := ""
	for _, p := range ps {
		s += fmt.Sprintf(" %d:%s/%s=%s", p.date, p.unit, p.ccy, p.val.RatString())
	}
	return s
}

func checkPrice(t *T, b *book.Book, m *MBook, d int, unit, ccy string) {
	v, k := b.GetPrice(book.Date(d), unit, ccy)
	w, wk := m.refPrice(d, unit, ccy)
	if v == nil || v.Cmp(w) != 0 {
		t.Failf("the price of %s in %s on %d is %v, should be %s", unit, ccy, d, v, w.RatString())
	}
	if priceKind(k) != wk {
		t.Failf("the price of %s in %s on %d is %s, should be %s", unit, ccy, d, k, wk)
	}
	t.Trans(1)
}

func runC07(w *W) {
	c := func(ps []mprice, days []int, seqLen int) {
		w.Case(func() string { return "prices" + priceDesc(ps) }, func(t *T) {
			b := buildBook(nil, ps)
			m := newMBook()
			for _, p := range ps {
				m.addPrice(p.date, p.unit, p.ccy, p.val)
			}
			pairs := [][2]string{{"X", "USD"}, {"USD", "X"}, {"X", "X"}, {"Y", "USD"}, {"X", "Y"}}
			asked := map[[2]string]bool{}
			for _, p := range pairs {
				asked[p] = true
			}
			for _, p := range ps {
				for _, pair := range [][2]string{{p.unit, p.ccy}, {p.ccy, p.unit}, {p.unit, "none"}} {
					if !asked[pair] {
						asked[pair] = true
						pairs = append(pairs, pair)
					}
				}
			}
			for _, d := range days {
				for _, pair := range pairs {
					checkPrice(t, b, m, d, pair[0], pair[1])
				}
			}
			t.State(fmt.Sprint(m.canonPrices()))
			t.Nontrivial(priceDesc(ps))
			// the lists themselves and sequential lookup
			for pair, rec := range m.Prices {
				l := b.GetPriceList(pair[0], pair[1])
				if len(l) != len(rec) {
					t.Failf("%d prices of %v recorded, %d listed", len(rec), pair, len(l))
				}
				for i := range l {
					v, k := refInterp(rec, int(l[i].GetDate()))
					if i > 0 && l[i].GetDate() <= l[i-1].GetDate() || k != "exact" || v.Cmp(l[i].GetPrice()) != 0 {
						t.Failf("the listed prices of %v differ from the recorded ones", pair)
					}
				}
				dd := days
				if len(dd) > 12 && seqLen > 1 {
					dd = nil
					for i := 0; i < 12; i++ {
						dd = append(dd, days[i*(len(days)-1)/11])
					}
				}
				var rec2 func(from int, it []int)
				rec2 = func(from int, it []int) {
					if len(it) > 0 {
						iter := l.GetIterator()
						for _, d := range it {
							v, k := iter.GetPrice(book.Date(d))
							wv, wk := refInterp(rec, d)
							if v.Cmp(wv) != 0 || priceKind(k) != wk {
								t.Failf("looked up in sequence %v, the price of %v on %d is %s (%s), should be %s (%s)", it, pair, d, v.RatString(), k, wv.RatString(), wk)
							}
							t.Trans(1)
						}
					}
					if len(it) == seqLen {
						return
					}
					for i := from; i < len(dd); i++ {
						rec2(i, append(it[:len(it):len(it)], dd[i]))
					}
				}
				if seqLen > 0 {
					rec2(0, nil)
				}
				// all days one after another
				iter := l.GetIterator()
				for _, d := range days {
					v, _ := iter.GetPrice(book.Date(d))
					if wv, _ := refInterp(rec, d); v.Cmp(wv) != 0 {
						t.Failf("looked up day by day, the price of %v on %d is %s, should be %s", pair, d, v.RatString(), wv.RatString())
					}
				}
			}
			// nothing above changed the tables
			if d := diffPrices(b, m); d != "" {
				t.Failf("after the lookups: %s", d)
			}
			t.Trace()
		})
	}

	grid := []int{19991231, 20000229, 20191231, 20200101, 20200228, 20200229, 20200301, 20201231, 20210101, 20210228, 20210301, 20240229, 21000301}
	days := []int{10101, 19990101, 19991230, 19991231, 20000101, 20000228, 20000229, 20000301, 20191230, 20191231, 20200101, 20200102, 20200227, 20200228, 20200229, 20200301, 20200302, 20200615, 20201230, 20201231, 20210101, 20210228, 20210301, 20240228, 20240229, 20240301, 21000228, 21000301, 99991231}
	vals := []*big.Rat{rat(2, 1), rat(1, 3), rat(5, 2), rat(1000000, 1), rat(7, 1000), rat(-3, 1), rat(0, 1)}

	w.Section("record sets in every order")
	max := 4
	if w.Thorough {
		max = 5
	}
	var rec func(from int, ps []mprice, rev bool)
	rec = func(from int, ps []mprice, rev bool) {
		if w.Done() {
			return
		}
		if len(ps) > 0 {
			permute(len(ps), func(ix []int) {
				var q []mprice
				for _, i := range ix {
					q = append(q, ps[i])
				}
				c(q, days, 2)
			})
		}
		if len(ps) == max {
			return
		}
		for i := from; i < len(grid); i++ {
			p := mprice{grid[i], "X", "USD", vals[(len(ps)*3+i)%len(vals)]}
			if rev {
				p.unit, p.ccy = p.ccy, p.unit
			}
			rec(i+1, append(ps[:len(ps):len(ps)], p), rev)
		}
	}
	rec(0, nil, false)
	rec(0, nil, true)
	c(nil, days, 1)

	w.Section("every value in every place")
	sel := []int{20191231, 20200229, 20210101}
	seqs(len(vals), 3, func(ix []int) {
		for _, rev := range []bool{false, true} {
			var ps []mprice
			for i, v := range ix {
				p := mprice{sel[i], "X", "USD", vals[v]}
				if rev {
					p.unit, p.ccy = p.ccy, p.unit
				}
				ps = append(ps, p)
			}
			c(ps, days, 3)
			// another pair, the opposite direction and unrelated pairs do not interfere
			for _, o := range []mprice{{20200115, "USD", "X", rat(9, 1)}, {20200115, "X", "USD", rat(9, 1)}, {20200115, "Y", "USD", rat(9, 1)}, {20200115, "X", "EUR", rat(9, 1)}} {
				c(append([]mprice{o}, ps...), days, 0)
				c(append(ps[:len(ps):len(ps)], o), days, 0)
			}
		}
	})

	w.Section("every subset of consecutive days")
	n := 13
	if w.Thorough {
		n = 15
	}
	var cons []int
	for _, d := range []int{20200224, 20200225, 20200226, 20200227, 20200228, 20200229, 20200301, 20200302, 20200303, 20200304, 20200305, 20200306, 20200307, 20200308, 20200309} {
		if len(cons) < n {
			cons = append(cons, d)
		}
	}
	look := append([]int{20200223}, append(append([]int{}, cons...), 20200310)...)
	for set := 1; set < 1<<uint(n); set++ {
		if w.Done() {
			break
		}
		var ps []mprice
		for i, d := range cons {
			if set>>uint(i)&1 == 1 {
				ps = append(ps, mprice{d, "X", "USD", rat(int64(i*i*7+3), int64(i+1))})
			}
		}
		c(ps, look, 1)
		// backwards and from the middle outwards
		var back, rot []mprice
		for i := range ps {
			back = append(back, ps[len(ps)-1-i])
			rot = append(rot, ps[(i+len(ps)/2)%len(ps)])
		}
		c(back, look, 0)
		c(rot, look, 0)
	}

	w.Section("many pairs")
	{
		var all [][2]string
		for i := 0; i < 12; i++ {
			for j := 1; j < 12; j++ {
				u, v := fmt.Sprint("C", i), fmt.Sprint("C", (i+j)%12)
				if (i*5+j*3)%2 == 0 { // a direction for each
					all = append(all, [2]string{u, v})
				}
			}
		}
		for n := 1; n <= len(all); n++ {
			for _, each := range []int{1, 2, 3} {
				var ps []mprice
				for k := 0; k < each; k++ {
					for i := 0; i < n; i++ {
						ps = append(ps, mprice{20200101 + (k*7+i)%5, all[(i*7)%len(all)][0], all[(i*7)%len(all)][1], rat(int64(i*each+k+1), 3)})
					}
				}
				if n > 30 && !w.Thorough && n%7 != 0 {
					continue
				}
				// one price for a pair and day
				seen := map[string]bool{}
				var one []mprice
				for _, p := range ps {
					if k := fmt.Sprint(p.date, p.unit, p.ccy); !seen[k] && !seen[fmt.Sprint(p.date, p.ccy, p.unit)] {
						seen[k] = true
						one = append(one, p)
					}
				}
				c(one, []int{20191231, 20200101, 20200102, 20200103, 20200104, 20200105, 20200106}, 0)
			}
		}
	}

	w.Section("long tables")
	for _, n := range []int{16, 17, 31, 40, 64, 100} {
		for _, step := range []int{1, 2, 5} {
			var ps []mprice
			var dd []int
			d := book.Date(20191101)
			cur := 20191101
			next := func(x int) int {
				y, mo, da := x/10000, x/100%100, x%100
				if da < daysIn(y, mo) {
					return x + 1
				}
				if mo < 12 {
					return y*10000 + (mo+1)*100 + 1
				}
				return (y+1)*10000 + 101
			}
			_ = d
			for i := 0; i < n*step; i++ {
				if i%step == 0 {
					ps = append(ps, mprice{cur, "X", "USD", rat(int64((i*37)%101+1), 7)})
				}
				dd = append(dd, cur)
				cur = next(cur)
			}
			dd = append(dd, cur, next(cur))
			for rot := 0; rot < 4; rot++ {
				q := append(append([]mprice{}, ps[rot*n/4:]...), ps[:rot*n/4]...)
				c(q, dd, 0)
			}
		}
	}
}

func runC08(w *W) {
	offs := []int{0, 1, -1, 2, 27, 28, 29, 30, 31, -31, 59, 60, 365, 366, -365, -366, 1460, 1461, -1461, 36524, 36525, 146096, 146097, -146097, 100000}
	pers := []int{0, 1, -1, 2, 3, -3, 4, -4, 11, 12, -12, 13, -13, 25, -25, 100, -100, 1199, -1200, 9999, -9999}
	// one case per month; every day inside
	type ym struct{ y, m int }
	floors := func(y, m int, typ string, diff int) (int, bool) {
		// months since year 1
		n := (y-1)*12 + m - 1
		switch typ {
		case "yearly":
			n = (y - 1 + diff) * 12
		case "quarterly":
			n = (n/3 + diff) * 3
		case "monthly":
			n += diff
		}
		if n < 0 || n >= 9999*12 {
			return 0, false
		}
		return (n/12+1)*10000 + (n%12+1)*100 + 1, true
	}
	lastDay := dayNo(99991231)
	_ = ym{}
	for y := 1; y <= 9999; y++ {
		if w.Done() {
			return
		}
		for m := 1; m <= 12; m++ {
			y, m := y, m
			w.Section("days")
			w.Case(func() string { return fmt.Sprintf("the days of %04d-%02d", y, m) }, func(t *T) {
				ylen := 365
				if daysIn(y, 2) == 29 {
					ylen = 366
				}
				prevYears := -1.0
				for d := 1; d <= daysIn(y, m); d++ {
					x := y*10000 + m*100 + d
					bd := book.GetDate(y, m, d)
					if int(bd) != x {
						t.Failf("GetDate(%d,%d,%d) is %d", y, m, d, int(bd))
					}
					n := dayNo(x)
					base := book.Date(10101).AsDays()
					if bd.AsDays()-base != n {
						t.Failf("%d is day %d, should be %d", x, bd.AsDays()-base, n)
					}
					if g := book.GetDateFromDays(bd.AsDays()); int(g) != x {
						t.Failf("day %d is %d, should be %d", bd.AsDays(), int(g), x)
					}
					if g := bd.DaysSince(book.Date(20000301)); g != n-dayNo(20000301) {
						t.Failf("%d is %d days after 2000-03-01, should be %d", x, g, n-dayNo(20000301))
					}
					for _, o := range offs {
						if n+o < 0 || n+o > lastDay {
							continue
						}
						r := bd.AddDays(o)
						if int(r) < 10101 || !validYMD(int(r)/10000, int(r)/100%100, int(r)%100) || dayNo(int(r)) != n+o {
							t.Failf("%d plus %d days is %d", x, o, int(r))
						}
					}
					// position in the year
					doy := n - dayNo(y*10000+101)
					want := float64(y-1) + float64(doy)/float64(ylen)
					got := bd.AsYears() - book.Date(10101).AsYears()
					if got-want > 1e-9 || want-got > 1e-9 {
						t.Failf("%d is at %v years, should be %v", x, got, want)
					}
					if got <= prevYears {
						t.Failf("the position of %d in years does not grow", x)
					}
					prevYears = got
					t.Trans(int64(len(offs)))
					// periods
					if d == 1 || d == 15 || d >= 28 {
						for _, typ := range []string{"yearly", "quarterly", "monthly"} {
							for _, p := range pers {
								wd, ok := floors(y, m, typ, p)
								if !ok {
									continue
								}
								if g := bd.FloorDiff(typ, p); int(g) != wd {
									t.Failf("%d floored %s %+d is %d, should be %d", x, typ, p, int(g), wd)
								}
								if p == 0 {
									if g := bd.Floor(typ); int(g) != wd {
										t.Failf("%d floored %s is %d, should be %d", x, typ, int(g), wd)
									}
								}
								var g book.Date
								switch typ {
								case "yearly":
									g = bd.FloorYear(p)
								case "quarterly":
									g = bd.FloorQuarter(p)
								default:
									g = bd.FloorMonth(p)
								}
								if int(g) != wd {
									t.Failf("%d floored %s %+d is %d, should be %d", x, typ, p, int(g), wd)
								}
							}
							t.Trans(int64(len(pers)))
						}
						if g := bd.Floor("none"); int(g) != x {
							t.Failf("%d floored none is %d", x, int(g))
						}
					}
					if s := bd.String(); s != fmt.Sprintf("%04d/%02d/%02d", y, m, d) {
						t.Failf("%d is written %q", x, s)
					}
				}
				// from month to month and year to year
				if m > 1 || y > 1 {
					pm, py := m-1, y
					if pm == 0 {
						pm, py = 12, y-1
					}
					p := book.GetDate(py, pm, daysIn(py, pm))
					if book.GetDate(y, m, 1).DaysSince(p) != 1 {
						t.Failf("%d-%02d-01 is not the day after %d", y, m, int(p))
					}
					if book.GetDate(y, m, 1).AsYears() <= p.AsYears() {
						t.Failf("the position of %d-%02d-01 in years is not after the day before", y, m)
					}
				}
				if y := book.GetDate(y, m, 1); y.GetYear() != fmt.Sprintf("%04d", int(y)/10000) || y.GetYearMonth() != fmt.Sprintf("%04d/%02d", int(y)/10000, m) || y.GetYearQuarter() != fmt.Sprintf("%04d Q%d", int(y)/10000, (m-1)/3+1) {
					t.Failf("%d is in year %q, month %q, quarter %q", int(y), y.GetYear(), y.GetYearMonth(), y.GetYearQuarter())
				}
				t.Nontrivial(fmt.Sprint(y, m))
			})
		}
	}
}
