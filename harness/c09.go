//go:build verifmc && verifhooks

package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/mescanne/goledger/book"
)

func init() {
	register(&Prop{ID: "C09", Level: "exploration", Fresh: true,
		Rule:        "every spelling year-separator-month-separator-day and day-separator-month-separator-year over all one- and two-digit parts, the stated years and separators; every day of every year 0000-9999 in each documented spelling; every string up to the stated length over the date alphabet; every one-byte change of documented spellings; every relative spelling on every current day of 1995-2032 and around century ends, in five time zones, at the first and last instant of the day, with a clock that stands still or runs over midnight between two readings; every such text through since=, asof=, register --begin and --asof and in ledger files: the result must be the day an independent reading gives, and nothing else may be accepted",
		Assumptions: []string{"spellings that are not documented but unmistakable (2020-1, 202012, 2020-) may be refused or read the natural way", "the current day is the local one"},
		Run:         runC09})
}

var rxYMD = regexp.MustCompile(`^([0-9]{4})(?:([-/.]?)([0-9]{1,2}))?(?:([-/.]?)([0-9]{1,2}))?[-/.]{0,2}$`)
var rxDMY = regexp.MustCompile(`^([0-9]{1,2})([-/.]?)([0-9]{1,2})([-/.]?)([0-9]{4})$`)
var rxMustYMD = regexp.MustCompile(`^([0-9]{4})([-/.])([0-9]{1,2})$|^([0-9]{4})([-/.])([0-9]{1,2})([-/.])([0-9]{1,2})$|^([0-9]{4})([0-9]{2})([0-9]{2})$|^([0-9]{4})$`)

// readDate gives the readings a text may have (0: refused); exactly one if it is documented.
func readDate(s string) []int {
	day := func(y, m, d int) int {
		if !validYMD(y, m, d) {
			return 0
		}
		return y*10000 + m*100 + d
	}
	n := func(s string) int { v, _ := strconv.Atoi(s); return v }
	if g := rxMustYMD.FindStringSubmatch(s); g != nil {
		switch {
		case g[1] != "":
			return []int{day(n(g[1]), n(g[3]), 1)}
		case g[4] != "" && g[5] == g[7]:
			return []int{day(n(g[4]), n(g[6]), n(g[8]))}
		case g[4] != "":
			return []int{0, day(n(g[4]), n(g[6]), n(g[8]))}
		case g[9] != "":
			return []int{day(n(g[9]), n(g[10]), n(g[11]))}
		default:
			return []int{day(n(g[12]), 1, 1)}
		}
	}
	if g := rxDMY.FindStringSubmatch(s); g != nil {
		v := day(n(g[5]), n(g[3]), n(g[1]))
		if g[2] == g[4] && g[2] != "" {
			return []int{v}
		}
		if g[2] != g[4] || len(s) < 8 {
			out := []int{0, v}
			return append(out, looseYMD(s)...)
		}
	}
	return append([]int{0}, looseYMD(s)...)
}

// looseYMD gives every way of dividing digits and optional separators into year, month and day.
func looseYMD(s string) (out []int) {
	for _, a := range []int{0, 1, 2} {
		for _, b := range []int{0, 1, 2} {
			pat := `^([0-9]{4})[-/.]?`
			if a > 0 {
				pat += fmt.Sprintf(`([0-9]{%d})`, a)
			} else {
				pat += "()"
			}
			pat += `[-/.]?`
			if b > 0 {
				pat += fmt.Sprintf(`([0-9]{%d})`, b)
			} else {
				pat += "()"
			}
			if g := looseRx(pat + "$").FindStringSubmatch(s); g != nil {
				y, m, d := g[1], g[2], g[3]
				if m == "" {
					m, d = d, ""
				}
				if m == "" {
					m = "1"
				}
				if d == "" {
					d = "1"
				}
				yy, _ := strconv.Atoi(y)
				mm, _ := strconv.Atoi(m)
				dd, _ := strconv.Atoi(d)
				if validYMD(yy, mm, dd) {
					out = append(out, yy*10000+mm*100+dd)
				}
			}
		}
	}
	return
}

var looseCache = map[string]*regexp.Regexp{}

func looseRx(p string) *regexp.Regexp {
	if looseCache[p] == nil {
		looseCache[p] = regexp.MustCompile(p)
	}
	return looseCache[p]
}

var rxRel = regexp.MustCompile(`^(this|last|next)([._ \t]+)(month|year|quarter)$`)
var relDiff = map[string]int{"this": 0, "last": -1, "next": 1}
var relSize = map[string]int{"month": 1, "quarter": 3, "year": 12}

func inInts(l []int, v int) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

// relDate is the meaning of a relative text on the given day; ok if it must have it.
func relDate(s string, today int) (v int, must bool) {
	f := rxRel.FindStringSubmatch(s)
	if f == nil {
		return 0, true
	}
	diff, size := relDiff[f[1]], relSize[f[3]]
	months := today/10000*12 + (today/100%100 - 1)
	months = months/size*size + diff*size
	return months/12*10000 + (months%12+1)*100 + 1, len(f[2]) == 1
}

// plainDay reads a date for the tests of the entrances: documented spellings only.
func plainDay(s string, today int) (int, bool) {
	if v, must := relDate(s, today); v != 0 {
		return v, must
	}
	r := readDate(s)
	return r[0], len(r) == 1
}

func runC09(w *W) {
	defer clearClock()
	bad := func(t *T, s string, got int) {
		t.Failf("text %q is read as %d, should be one of %v", s, got, readDate(s))
	}
	check := func(t *T, s string) {
		got := int(book.DateFromString(s))
		t.Trans(1)
		if !inInts(readDate(s), got) {
			bad(t, s, got)
		}
	}

	w.Section("all divisions into parts")
	years := []string{"0000", "0001", "0004", "0100", "0131", "0400", "1231", "1582", "1900", "1970", "1999", "2000", "2019", "2020", "2021", "2100", "2400", "2912", "3112", "9999"}
	var parts []string
	for i := 0; i < 100; i++ {
		parts = append(parts, fmt.Sprintf("%02d", i))
		if i < 10 {
			parts = append(parts, strconv.Itoa(i))
		}
	}
	seps := []string{"", "-", "/", ".", " ", "--", "_", ":", "T", ","}
	for _, y := range years {
		for _, s1 := range seps {
			for _, s2 := range seps {
				y, s1, s2 := y, s1, s2
				if !w.Thorough && s1 != s2 && (len(s1)+len(s2) > 2 || strings.ContainsAny(s1+s2, "_:T,")) {
					continue
				}
				w.Case(func() string {
					return fmt.Sprintf("all texts %s%sMM%sDD and DD%sMM%s%s", y, s1, s2, s1, s2, y)
				}, func(t *T) {
					for _, m := range parts {
						for _, d := range parts {
							check(t, y+s1+m+s2+d)
							check(t, d+s1+m+s2+y)
						}
						check(t, y+s1+m+s2)
						check(t, y+s1+m)
					}
					t.Nontrivial(y + s1 + "|" + s2)
					t.State(y + s1 + "|" + s2)
				})
			}
		}
	}

	w.Section("every day of every year")
	for c := 0; c < 10000; c += 20 {
		c := c
		w.Case(func() string { return fmt.Sprintf("every month 0-13 and day 0-32 of years %d to %d", c, c+19) }, func(t *T) {
			for y := c; y < c+20; y++ {
				for m := 0; m <= 13; m++ {
					for d := 0; d <= 32; d++ {
						want := 0
						if validYMD(y, m, d) {
							want = y*10000 + m*100 + d
						}
						for _, s := range []string{fmt.Sprintf("%04d-%02d-%02d", y, m, d), fmt.Sprintf("%04d%02d%02d", y, m, d), fmt.Sprintf("%02d/%02d/%04d", d, m, y), fmt.Sprintf("%04d.%d.%d", y, m, d)} {
							if got := int(book.DateFromString(s)); got != want {
								t.Failf("text %q is read as %d, should be %d", s, got, want)
							}
							t.Trans(1)
						}
						if want != 0 {
							// what it is printed as means the same day again
							if s := book.Date(want).String(); s != fmt.Sprintf("%04d/%02d/%02d", y, m, d) || int(book.DateFromString(s)) != want {
								t.Failf("%d is printed as %q", want, s)
							}
						}
					}
					check(t, fmt.Sprintf("%04d-%02d", y, m))
					check(t, fmt.Sprintf("%04d/%d", y, m))
				}
				check(t, fmt.Sprintf("%04d", y))
				check(t, fmt.Sprintf("%d", y))
				t.State(fmt.Sprint(y))
			}
			t.Nontrivial(fmt.Sprint(c))
		})
	}

	w.Section("all short strings")
	alpha := []string{"0", "1", "2", "3", "9", "-", "/", ".", " ", "a", "\n"}
	n := 5
	if w.Thorough {
		n = 7
	}
	for _, pre := range []string{"", "20", "2020-", "1/1/2"} {
		for _, a := range alpha {
			for _, b := range alpha {
				pre := pre + a + b
				w.Case(func() string {
					return fmt.Sprintf("%q followed by every string of up to %d characters of %q", pre, n-2, alpha)
				}, func(t *T) {
					words(alpha, n-2, func(s string) { check(t, pre+s) })
					check(t, pre)
					t.Nontrivial(pre)
				})
			}
		}
	}

	w.Section("one-byte changes")
	for _, base := range []string{"2020", "2020-02-29", "20200229", "29-02-2020", "2020/1", "1.2.2020", "this year", "last.month", "next_quarter", "today", "Jan 2020", "2020-13-01", "", "yesterday", "last week"} {
		base := base
		w.Case(func() string { return fmt.Sprintf("every one-byte change of %q", base) }, func(t *T) {
			now := 20200515
			setClock(time.Date(2020, 5, 15, 12, 0, 0, 0, time.Local), 0)
			defer clearClock()
			try := func(s string) {
				got := int(book.DateFromString(s))
				t.Trans(1)
				if v, must := relDate(s, now); v != 0 {
					if got != v && (must || got != 0) {
						t.Failf("text %q is read as %d on %d, should be %d", s, got, now, v)
					}
				} else if !inInts(readDate(s), got) {
					// another spelling of the words may be understood
					if k, _ := relDate(strings.ToLower(strings.TrimSpace(s)), now); k == 0 || k != got {
						bad(t, s, got)
					}
				}
			}
			try(base)
			for i := 0; i <= len(base); i++ {
				for c := 0; c < 256; c++ {
					try(base[:i] + string([]byte{byte(c)}) + base[i:])
					if i < len(base) {
						try(base[:i] + string([]byte{byte(c)}) + base[i+1:])
					}
				}
				if i < len(base) {
					try(base[:i] + base[i+1:])
					try(base[:i])
					try(base[i:] + base[:i])
				}
			}
			t.Nontrivial(base)
		})
	}

	w.Section("relative texts on every day")
	var rel []string
	for _, a := range []string{"this", "last", "next"} {
		for _, b := range []string{"month", "quarter", "year"} {
			for _, s := range []string{" ", ".", "_", "\t", "  ", " . ", "", "-"} {
				rel = append(rel, a+s+b)
			}
		}
	}
	zones := []*time.Location{time.UTC, time.FixedZone("e", 14*3600), time.FixedZone("w", -12*3600), time.FixedZone("i", 5*3600+1800), time.FixedZone("s", -9*3600-1800)}
	var spans [][2]int
	for y := 1995; y <= 2032; y++ {
		spans = append(spans, [2]int{y, y})
	}
	for _, y := range []int{2, 999, 1899, 1900, 1969, 1970, 2099, 2100, 2399, 2400, 9000} {
		spans = append(spans, [2]int{y, y})
	}
	if w.Thorough {
		for y := 1600; y < 2600; y++ {
			spans = append(spans, [2]int{y, y})
		}
	}
	for _, sp := range spans {
		for zi, z := range zones {
			sp, z, zi := sp, z, zi
			w.Case(func() string { return fmt.Sprintf("relative dates on every day of %d in time zone %s", sp[0], z) }, func(t *T) {
				old := time.Local
				time.Local = z
				defer func() { time.Local = old; clearClock() }()
				for day := time.Date(sp[0], 1, 1, 0, 0, 0, 0, z); day.Year() <= sp[1]; day = day.AddDate(0, 0, 1) {
					ymdOf := func(x time.Time) int { return x.Year()*10000 + int(x.Month())*100 + x.Day() }
					today, tomorrow := ymdOf(day), ymdOf(day.AddDate(0, 0, 1))
					for _, at := range []struct {
						off  time.Duration
						step time.Duration
					}{{0, 0}, {24*time.Hour - 1, 0}, {12 * time.Hour, time.Minute}, {24*time.Hour - 1, time.Second}} {
						setClock(day.Add(at.off), at.step)
						if got := int(book.GetToday()); got != today {
							t.Failf("current day is %d instead of %d", got, today)
						}
						for _, by := range []string{"today", "none", "monthly"} {
							setClock(day.Add(at.off), at.step)
							got := int(book.Date(20200515).Floor(by))
							want := map[string]int{"today": today, "none": 20200515, "monthly": 20200501}[by]
							if got != want {
								t.Failf("floor of 2020/05/15 by %s on %d is %d", by, today, got)
							}
						}
						for _, s := range rel {
							setClock(day.Add(at.off), at.step)
							got := int(book.DateFromString(s))
							t.Trans(1)
							a, must := relDate(s, today)
							b, _ := relDate(s, tomorrow)
							if a == 0 {
								must = false // not a documented spelling; relDate of the spelled words
							}
							ok := got == a || !must && got == 0
							if at.step == time.Second && got == b {
								ok = true
							}
							if !ok {
								t.Failf("%q on %d (%s, clock %v) is %d, should be %d", s, today, z, at, got, a)
							}
						}
					}
					t.State(fmt.Sprint(today, zi))
				}
				t.Nontrivial(fmt.Sprint(sp, zi))
			})
		}
	}

	w.Section("dates at every entrance")
	texts := []string{"2020", "2021", "2019-12", "2020-02", "2020-02-29", "2021-02-29", "20200229", "20200230", "2020/03/01", "2020.03.31", "29-02-2020", "1-3-2020", "01/03/2020", "31.4.2020",
		"2020-00-10", "2020-13-01", "13-13-2020", "00-01-2020", "0000-01-01", "0001-01-01", "9999-12-31", "x", "today", "2020-02-29x", " 2020", "2020 ", "20", "202", "20203", "2020-1-1-1", "2020-02-29 00:00", "29 Feb 2020", "2020-02-30", "-2020", "99999999", "2020-2-9", "２０２０",
		"this year", "last year", "next year", "this month", "last month", "next month", "this quarter", "last_quarter", "next.quarter", "this  week", "this", "year"}
	for _, s := range startBooks() {
		if s.name == "large" {
			continue
		}
		s := s
		text := ledgerText(s.ts, priceLines(s.prices))
		for _, today := range []int{20200301, 20200229, 20191231, 20200101, 20200515, 20210101, 20260630} {
			for _, txt := range texts {
				today, txt := today, txt
				w.Case(func() string {
					return fmt.Sprintf("book '%s', today %d, date text %q as since=, asof=, --begin and --asof", s.name, today, txt)
				}, func(t *T) {
					m := mbookOf(s.ts, s.prices)
					fn := w.write("m.ledger", text)
					setClock(time.Date(today/10000, time.Month(today/100%100), today%100, 12, 0, 0, 0, time.Local), time.Millisecond)
					defer clearClock()
					want, sure := plainDay(txt, today)
					for k, args := range [][]string{{"since=" + txt}, {"asof=" + txt}, {"since=" + txt, "asof=" + txt}} {
						c := w.cli("", append([]string{"-l", fn, "export", "--type", "Ledger"}, args...)...)
						t.Trans(1)
						if want == 0 {
							if c.err == nil && sure {
								t.Failf("%v is accepted", args)
							}
							continue
						}
						if c.err != nil {
							t.Failf("%v is refused: %v", args, c.err)
						}
						x := m.clone()
						if k != 1 {
							opSince("", want).Model(x)
						}
						if k != 0 {
							opAsof("", want).Model(x)
						}
						g, _, bad := refParse(map[string]string{"e": c.out}, "e")
						if bad != "" {
							t.Failf("export unreadable: %s", bad)
						}
						if d := sameBook(g, x); d != "" {
							t.Failf("%v: %s", args, d)
						}
					}
					for k, args := range [][]string{{"--begin", txt}, {"--asof", txt}, {"--begin", txt, "--asof", txt}, {"--begin", txt, "--asof", "2020-04"}, {"--begin", "2020-01", "--asof", txt}} {
						c := w.cli("", append(append([]string{"-l", fn, "--ccy", "USD", "register", "--type", "CSV", "--asc", "--combined"}, args...), ".")...)
						t.Trans(1)
						if want == 0 {
							if c.err == nil && sure {
								t.Failf("register %v is accepted", args)
							}
							continue
						}
						if c.err != nil {
							t.Failf("register %v is refused: %v", args, c.err)
						}
						lo := []int{want, 0, want, want, 20200101}[k]
						hi := []int{0, want, want, 20200401, want}[k]
						var es []string
						for _, e := range refRegister(m, "USD", regexp.MustCompile("."), false) {
							if (lo == 0 || e.date >= lo) && (hi == 0 || e.date < hi) {
								es = append(es, fmt.Sprint(e.date, e.acct, e.ccy))
							}
						}
						rows, err := readCSV(c.out)
						if err != nil || len(rows) == 0 {
							t.Failf("register %v prints %q", args, c.out)
						}
						var got []string
						for _, r := range rows[1:] {
							got = append(got, fmt.Sprint(ymd(strings.ReplaceAll(r[0], "-", "/"), "/"), r[2], r[4]))
						}
						if strings.Join(got, "\n") != strings.Join(es, "\n") {
							t.Failf("register %v shows\n%s\nshould be\n%s", args, strings.Join(got, "\n"), strings.Join(es, "\n"))
						}
					}
					t.Nontrivial(fmt.Sprint(s.name, today, txt))
					t.State(m.canon() + txt + fmt.Sprint(today))
					t.Trace()
				})
			}
		}
	}

	w.Section("combining by today")
	for _, s := range startBooks() {
		s := s
		text := ledgerText(s.ts, priceLines(s.prices))
		for _, today := range []int{20200301, 20200229, 20191231, 20211231, 10101} {
			for _, step := range []time.Duration{0, time.Nanosecond, time.Hour} {
				for _, ops := range [][]string{{"combine=today"}, {"combine=Today", "since=this month"}, {"combine=monthly", "combine=today"}, {"combine=today", "combine=yearly"}, {"asof=this year", "combine=today"}} {
					today, step, ops := today, step, ops
					w.Case(func() string {
						return fmt.Sprintf("book '%s', %v at the last instant of %d with the clock advancing %v at each reading", s.name, ops, today, step)
					}, func(t *T) {
						fn := w.write("m.ledger", text)
						at := time.Date(today/10000, time.Month(today/100%100), today%100, 23, 59, 59, 999999999, time.Local)
						nd := at.AddDate(0, 0, 1)
						tomorrow := nd.Year()*10000 + int(nd.Month())*100 + nd.Day()
						for k, args := range [][]string{{"export", "--type", "Ledger"}, {"report", "--type", "Ledger", "--sum=false", "--convert=false", "--splitby", "today"}} {
							setClock(at, step)
							c := w.cli("", append(append([]string{"-l", fn}, args...), ops...)...)
							clearClock()
							t.Trans(1)
							if c.err != nil {
								t.Failf("%v %v fails: %v", args, ops, c.err)
							}
							g, _, bad := refParse(map[string]string{"e": c.out}, "e")
							if bad != "" {
								t.Failf("%v: unreadable: %s\n%s", args, bad, c.out)
							}
							var firstDiff string
							match := false
							for _, days := range [][2]int{{today, today}, {today, tomorrow}, {tomorrow, tomorrow}} {
								if step == 0 && days[1] != today {
									continue
								}
								x := mbookOf(s.ts, s.prices)
								used := 0
								clock := func() int { used++; return days[(used-1)%2] }
								for _, o := range ops {
									k, a, _ := strings.Cut(o, "=")
									switch {
									case k == "since":
										v, _ := relDate(a, clock())
										opSince("", v).Model(x)
									case k == "asof":
										v, _ := relDate(a, clock())
										opAsof("", v).Model(x)
									case strings.EqualFold(a, "today"):
										combineOn(x, clock())
									default:
										opCombine(a).Model(x)
									}
								}
								if k == 1 {
									x.Prices = map[[2]string][]MPrice{}
									combineOn(x, days[1])
								}
								if d := sameBook(g, x); d == "" {
									match = true
								} else if firstDiff == "" {
									firstDiff = d
								}
							}
							if !match {
								t.Failf("%v %v: %s\n%s", args, ops, firstDiff, c.out)
							}
						}
						t.Nontrivial(fmt.Sprint(s.name, today, step, ops))
						t.Trace()
					})
				}
			}
		}
	}

	w.Section("dates in ledger files")
	for _, y := range []int{0, 1, 4, 100, 400, 999, 1900, 2000, 2019, 2020, 2100, 9999} {
		for m := 0; m <= 14; m++ {
			y, m := y, m
			w.Case(func() string { return fmt.Sprintf("ledgers with every day 0 to 33 of %d/%d", y, m) }, func(t *T) {
				for d := 0; d <= 33; d++ {
					for _, f := range []string{"%04d/%02d/%02d", "%d/%d/%d", "%04d-%02d-%02d", "%04d/%02d%.0s%d", "%04d%02d%02d"} {
						s := fmt.Sprintf(f, y, m, d)
						diffLoad(t, map[string]string{"m.ledger": s + " p\n  A  1 X\n  B  -1 X\n"}, "m.ledger")
						diffLoad(t, map[string]string{"m.ledger": "P " + s + " 00:00:00 X USD 1.5\n" + s + " p ; n\n  A  1 X\n  B\n"}, "m.ledger")
						t.Trans(2)
					}
				}
				t.Nontrivial(fmt.Sprint(y, m))
			})
		}
	}
}

func combineOn(m *MBook, day int) {
	for i := range m.Posts {
		m.Posts[i].Date = day
		m.Posts[i].Payee = ""
	}
	m.normalise()
}
