//go:build verifmc

package main

import (
	"fmt"
	"math"

	"github.com/mescanne/goledger/book"
)

func init() {
	register(&Prop{ID: "C23", Level: "exploration",
		Rule:        "every cash flow with one change of sign of two to five (thorough: six) payments over the amount and date grids; the computed rate must be a root of the present-value equation (value within 1e-4, or a change of sign within 2e-4 of the rate), and the flows scaled and negated must give the same rate",
		Assumptions: []string{"the largest payment is at least one unit (the tolerance is absolute)", "time is measured in calendar years, the share of a year by its actual days"},
		Run:         runC23})
}

// yearPos is the position of a date in calendar years.
func yearPos(d int) float64 {
	y := d / 10000
	n := 365.0
	if daysIn(y, 2) == 29 {
		n = 366
	}
	return float64(y) + float64(dayNo(d)-dayNo(y*10000+101))/n
}

func presentValue(dates []int, cf []float64, r float64) float64 {
	s := 0.0
	t0 := yearPos(dates[0])
	for i, c := range cf {
		s += c * math.Exp(-(yearPos(dates[i])-t0)*math.Log1p(r))
	}
	return s
}

func isRoot(dates []int, cf []float64, r float64) bool {
	if math.IsNaN(r) || math.IsInf(r, 0) || r <= -1 {
		return false
	}
	if math.Abs(presentValue(dates, cf, r)) <= 1.01e-4 {
		return true
	}
	lo, hi := r-2e-4*math.Max(1, math.Abs(r)), r+2e-4*math.Max(1, math.Abs(r))
	if lo <= -1 {
		lo = -1 + 1e-12
	}
	a, b := presentValue(dates, cf, lo), presentValue(dates, cf, hi)
	return a*b <= 0
}

func runC23(w *W) {
	c := func(dates []int, cf []float64, scaled bool) {
		dates, cf = append([]int(nil), dates...), append([]float64(nil), cf...)
		w.Case(func() string { return fmt.Sprintf("payments %v on %v", cf, dates) }, func(t *T) {
			var bd []book.Date
			for _, d := range dates {
				bd = append(bd, book.Date(d))
			}
			in := append([]float64(nil), cf...)
			r := book.CalculateIRR(bd, in)
			t.Trans(1)
			if !isRoot(dates, cf, r) {
				t.Failf("the rate is %v, but the present value there is %v", r, presentValue(dates, cf, r))
			}
			for i := range in {
				if in[i] != cf[i] || int(bd[i]) != dates[i] {
					t.Failf("the payments were changed")
				}
			}
			if scaled {
				for _, k := range []float64{-1, 10, 1000, 1e6, 1.0 / 3} {
					v := make([]float64, len(cf))
					big := 0.0
					for i := range cf {
						v[i] = cf[i] * k
						big = math.Max(big, math.Abs(v[i]))
					}
					if big < 1 {
						continue
					}
					q := book.CalculateIRR(bd, v)
					t.Trans(1)
					if !isRoot(dates, cf, q) && !isRoot(dates, v, q) {
						t.Failf("scaled by %v the rate is %v instead of %v", k, q, r)
					}
				}
			}
			t.Nontrivial(fmt.Sprint(dates, cf))
			t.State(fmt.Sprintf("%.3f", r))
			switch {
			case r < -0.5:
				t.Outcome("large loss")
			case r < 0:
				t.Outcome("loss")
			case r < 1:
				t.Outcome("gain")
			default:
				t.Outcome("large gain")
			}
		})
	}
	amts := []float64{1, 10, 100, 250, 1000, 1000000}
	gaps := [][]int{{20190101, 20200101, 20200702, 20210301, 20240229, 20300101}, {20200229, 20200301, 20200331, 20200630, 20210228, 20220101}, {20191231, 20200101, 20250101, 20250102, 20350601, 20400101}, {20000301, 20100301, 20100401, 20100501, 20200229, 20230615}, {19991231, 20000229, 20000301, 20010301, 20010302, 20021231}}

	w.Section("two payments, all date pairs")
	var days []int
	for y := 2019; y <= 2024; y++ {
		for m := 1; m <= 12; m++ {
			for _, d := range []int{1, 2, 15, 28, 29, 30, 31} {
				if validYMD(y, m, d) && (w.Thorough || (m+d)%3 == 0 || m == 2) {
					days = append(days, y*10000+m*100+d)
				}
			}
		}
	}
	pairs := [][2]float64{{1000, 1100}, {1000, 900}, {1000, 400}, {1000, 1}, {1, 1000}, {100, 100}, {1000, 1000.01}, {1e6, 1e6 + 1}, {250, 251}, {100, 99.5}}
	for i, a := range days {
		for _, b := range days[i+1:] {
			if w.Done() {
				return
			}
			gap := yearPos(b) - yearPos(a)
			for _, p := range pairs {
				// rates beyond a million percent or within a millionth of a total loss have no use
				g := math.Log(p[1]/p[0]) / gap
				if math.Abs(g) > 9 {
					continue
				}
				c([]int{a, b}, []float64{-p[0], p[1]}, (a+b)%7 == 0)
				c([]int{a, b}, []float64{p[0], -p[1]}, false)
			}
		}
	}

	w.Section("three to five payments")
	max := 4
	if w.Thorough {
		max = 5
	}
	for _, g := range gaps {
		for n := 3; n <= max+1; n++ {
			al := amts
			if n >= 5 {
				al = []float64{1, 100, 1000}
			}
			// choose n dates of the grid in order
			var choose func(from int, ds []int)
			choose = func(from int, ds []int) {
				if w.Done() {
					return
				}
				if len(ds) == n {
					for ch := 1; ch < n; ch++ { // the sign changes before payment ch
						ix := make([]int, n)
						for {
							cf := make([]float64, n)
							for i := range cf {
								cf[i] = al[ix[i]]
								if i < ch {
									cf[i] = -cf[i]
								}
							}
							if rateInRange(ds, cf) {
								c(ds, cf, n == 3)
							}
							k := n - 1
							for k >= 0 {
								ix[k]++
								if ix[k] < len(al) {
									break
								}
								ix[k] = 0
								k--
							}
							if k < 0 {
								break
							}
						}
					}
					return
				}
				for i := from; i < len(g); i++ {
					choose(i+1, append(ds[:len(ds):len(ds)], g[i]))
				}
			}
			if n <= 4 || w.Thorough {
				choose(0, nil)
			} else {
				choose(1, []int{g[0]})
			}
		}
	}
	w.Section("long times")
	for _, years := range []int{10, 15, 20, 24, 25, 26, 30, 40, 50, 75, 100, 150, 200, 300, 500, 999} {
		for _, f := range []float64{1.01, 1.1, 1.5, 2, 5, 20, 100, 1e4, 0.99, 0.5, 0.1} {
			for _, mid := range []float64{0, 1, 50, 500} {
				ds := []int{18000315, (1800+years)*10000 + 315}
				cf := []float64{-1000, 1000 * f}
				if mid > 0 {
					ds = []int{ds[0], (1800+years/2)*10000 + 901, ds[1]}
					cf = []float64{-1000, mid, 1000 * f}
				}
				c(ds, cf, true)
				neg := make([]float64, len(cf))
				for i := range cf {
					neg[i] = -cf[i]
				}
				c(ds, neg, false)
			}
		}
	}
	w.Section("long regular plans")
	for _, n := range []int{12, 36, 120} {
		for _, last := range []float64{0.3, 0.9, 1, 1.1, 2, 10} {
			for _, sgn := range []float64{1, -1} {
				var ds []int
				var cf []float64
				d := 20150115
				for i := 0; i < n; i++ {
					ds = append(ds, d)
					cf = append(cf, -100*sgn)
					d = d/10000*10000 + (d/100%100)*100 + 15
					if d/100%100 == 12 {
						d = (d/10000+1)*10000 + 115
					} else {
						d += 100
					}
				}
				ds = append(ds, d)
				cf = append(cf, sgn*100*float64(n)*last)
				c(ds, cf, true)
				// the reverse: one payment, then instalments
				rc := make([]float64, len(cf))
				for i := range cf {
					rc[i] = cf[len(cf)-1-i]
				}
				c(ds, rc, true)
			}
		}
	}
}

// rateInRange: the root lies between -99.9% and +1000000%.
func rateInRange(ds []int, cf []float64) bool {
	a, b := presentValue(ds, cf, -0.999), presentValue(ds, cf, 10000)
	return a*b < 0
}
