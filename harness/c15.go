//go:build verifmc && verifhooks

package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/mescanne/goledger/book"
)

func init() {
	register(&Prop{ID: "C15", Level: "model_checking",
		Rule:        "every command line of the table x every ledger and configuration of the table, run on the real program under every map iteration order explored (all combinations of walks of maps of up to eight entries where there are few, else every walk everywhere and all single deviations, with pairs up to the run limit) and several hash seeds; the same for sequences of book operations through the API; output and status must be byte-identical throughout. States: distinct (command, ledger, configuration); transitions: executions",
		Assumptions: []string{"maps longer than eight entries are walked from eight starts under four hash seeds", "the documented temporary scratch paths of the harness are the same in all runs of a case"},
		Run:         runC15})
}

type c15ledger struct{ name, text string }

func c15Ledgers() []c15ledger {
	var out []c15ledger
	for _, s := range startBooks() {
		out = append(out, c15ledger{s.name, ledgerText(s.ts, priceLines(s.prices))})
	}
	out = append(out,
		c15ledger{"empty", ""},
		c15ledger{"four currencies, ties and elision", `P 2020/01/01 00:00:00 EUR USD 1.5
P 2020/01/01 00:00:00 GBP USD 1.5
P 2020/01/01 00:00:00 USD EUR 0.75
P 2020/01/01 00:00:00 CHF EUR 2
P 2020/02/01 00:00:00 GBP EUR 2
2020/01/05 shop
  A:X  5 USD
  A:Y  5 EUR
  B:X  5 GBP
  B:Y  5 CHF
  C
2020/01/05 shop
  A:X  -5 USD
  A:Y  5.50 EUR
  D
2020/02/05 Shop
  A:X  1 USD
  B:X  -1 GBP
  A:Z  -1 USD
  E:Y  1 GBP
2020/02/05 shops
  A:X  1 USD
  E:Y  -1 USD
2021/02/05 shops
  A:X  1 USD
  E:Z  -1 USD
`},
		c15ledger{"payees seen more or less often", "2020/01/01 shop\n  A:X  -1 USD\n  E:Y  1 USD\n2020/01/02 shop\n  A:X  -1 USD\n  E:Y  1 USD\n2020/01/03 shop\n  A:X  -1 USD\n  E:Y  1 USD\n2020/01/04 shops\n  A:X  -1 USD\n  E:Z  1 USD\n2020/01/05 Shop\n  A:X  -1 USD\n  E:W  1 USD\n2020/01/06 Shop\n  A:X  -2 USD\n  E:W  2 USD\n2020/01/07 cinema\n  A:X  -2 USD\n  E:V  2 USD\n"},
		c15ledger{"unbalanced", "2020/01/01 p\n  A  1 USD\n  B  2 EUR\n  C  3 GBP\n  D  4 CHF\n"},
		c15ledger{"unbalanced last", "2020/01/01 p\n  A  1 USD\n  A  -1 USD\n  A  1 EUR\n  B  2 GBP\n\n; end\n"},
		c15ledger{"malformed", "2020/01/01 p\n  A  1 USD\n  B  -1 USD\nxyz\n"},
	)
	return out
}

var c15Confs = []string{"", `
[macros]
inc = ["map=/^A/Z/"]
bal = ["inc", "since=2020-01-01"]
loopa = ["loopb"]
loopb = ["loopa"]
q = ["combine=quarterly"]
bad = ["nothing=1"]
[ImportDefs.bank]
Description = "Bank"
Account = "A:X"
CounterAccount = "E:New"
CCY = "USD"
Code = "[add(date=r[0],desc=r[1],amt=r[2]) for r in data]"
ConfigType = "csv"
Dedup = true
Reclassify = true
[ImportDefs.other]
Description = "Other"
Code = "[add(date=r['d'],desc=r['n'],amt=r['a'],note=','.join(r.keys()),ccy=str(r.get('c','USD'))) for r in data]"
ConfigType = "json"
Account = "A:X"
CounterAccount = "E:New"
[ImportDefs.badfmt]
Description = "Bad"
Code = "1"
ConfigType = "xsv"
[ImportDefs.badfmt.Params]
a = "1"
b = "2"
c = "3"
header = "true"
[Generate.mirror]
Description = "Mirror"
Code = "[add(date=t.date,desc=t.payee+'x',amt=t[0].amount,account=t[0].account,caccount='M',ccy=t[0].ccy) for t in data.transactions]"
Dedup = true
[Generate.zero]
Description = "Zero"
Code = "print(data)"
`, "[macros]\nx = [1]\n", "nonsense = 1\nrubbish = 2\n[Report]\nfoo = 3\nbar = 4\n"}

func c15Commands(thorough bool) (out [][]string) {
	a := func(x ...string) { out = append(out, x) }
	for _, ty := range []string{"Text", "Ledger", "Json", "HTML", "Beancount"} {
		a("report", "--type", ty)
		a("report", "--type", ty, "--sum", "--convert")
		a("report", "--type", ty, "--sum", "--splitby", "yearly", "map=/^B/A/")
		a("report", "--type", ty, "--sum=false", "--convert=false", "--splitby", "skip", "move=/^A:(.*)$/W:$1/0.5/", "mapccy=/EUR/USD/")
		if thorough {
			a("report", "--type", ty, "--sum", "--convert=false", "--splitby", "monthly", "--credit", "^B", "--hidden", "C", "depreciate=/^A/D/5/", "combine=monthly")
		}
	}
	for _, ty := range []string{"Ledger", "Json", "Beancount", "CSV"} {
		a("export", "--type", ty)
		a("export", "--type", ty, "mapccy=/^(EUR|GBP)$/Q/", "combine=quarterly")
		a("export", "--type", ty, "bal")
		a("export", "--type", ty, "loopa")
		a("export", "--type", ty, "mapccy=/.*/Q/")
	}
	for _, ty := range []string{"Text", "Json", "CSV"} {
		a("register", "--type", ty, "A")
		a("register", "--type", ty, "--combined", "--split", ".")
		a("register", "--type", ty, "--combined", "--convert", ".")
		a("register", "--type", ty, "--split", "mapccy=/GBP/EUR/", ".")
	}
	a("accts")
	a("accts", ".")
	a("accts", "--all", ".")
	a("accts", "--type", "Json", ".")
	a("ccy")
	a("ccy", "--ccy", "EUR")
	a("import", "bank", "$T/i.csv")
	a("import", "bank", "$T/i.csv", "$T/i.csv", "$T/i.json")
	a("import", "other", "$T/i.json")
	a("import", "other", "$T/i2.json")
	a("import", "badfmt", "$T/i2.json")
	a("import", "--format", "xsv:a=1,b=2,c,d=4", "--code", "1", "-a", "A", "-c", "B", "$T/i.json")
	a("import", "--format", "csv:delim=;,header=true", "--code", "[add(date=r['d'],desc=r['n'],amt=r['a'],note=' '.join(r.keys())) for r in data]", "-a", "A:X", "-c", "B", "$T/h.csv")
	a("import", "--format", "json", "--code", "print(data)\nprint(dir(data[0]))\nprint(data[0])", "-a", "A", "-c", "B", "$T/i.json")
	a("generate", "mirror")
	a("generate", "zero")
	a("generate", "--code", "d = {}\nfor t in data.transactions:\n  for p in t:\n    d[p.account] = d.get(p.account, 0) + p.amount\nprint(d)\nprint(dir(data))")
	a("generate", "--code", "error('x')")
	a("generate", "--code", "data.nothing")
	a("help")
	for _, c := range []string{"report", "export", "register", "accts", "ccy", "import", "generate", "download", "macros", "config", "format", "code", "shell", "docs", "ops"} {
		a(c, "--help")
		a("help", c)
	}
	a("import", "bank", "--help")
	a("import", "badfmt", "--help")
	a("import", "nosuch")
	a("generate", "mirror", "--help")
	a("shell", "--type", "bash")
	a("shell", "--type", "zsh")
	for _, c := range []string{"report", "export", "register", "import", "generate", ""} {
		if c == "" {
			a("__complete", "")
		} else {
			a("__complete", c, "")
			a("__complete", c, "--type", "")
			a("__complete", c, "--")
		}
	}
	a("nosuch")
	a("--nosuch")
	a("report", "--type", "nosuch")
	a("report", "nosuch")
	a("report", "bad")
	a("--help")
	a("--version")
	a("docs", "--type", "markdown", "--dir", "$T/docs")
	a("docs", "--type", "manpage", "--dir", "$T/docs")
	a("docs", "--type", "yaml", "--dir", "$T/docs")
	a("docs", "--type", "rest", "--dir", "$T/docs")
	return
}

func runC15(w *W) {
	defer setMapHook(nil)
	defer clearClock()
	limit := 110
	if w.Thorough {
		limit = 1500
	}
	seeds := []uint64{0x9E3779B97F4A7C15, 1, 0xDEADBEEFCAFE, 0x123456789ABCDEF}

	w.Section("commands")
	for ci, conf := range c15Confs {
		for _, l := range c15Ledgers() {
			if ci > 1 && l.name != "two-currency" {
				continue
			}
			for _, args := range c15Commands(w.Thorough) {
				ci, conf, l, args := ci, conf, l, args
				ledgerFree := map[string]bool{"help": true, "shell": true, "docs": true, "__complete": true, "nosuch": true, "--nosuch": true, "--help": true, "--version": true}[args[0]] || args[len(args)-1] == "--help"
				if ledgerFree && l.name != "two-currency" {
					continue
				}
				w.Case(func() string {
					return fmt.Sprintf("ledger '%s', configuration %d, command %q", l.name, ci, args)
				}, func(t *T) {
					fn := w.write("m.ledger", l.text)
					w.write("i.csv", "2021-03-01,shop,-5\n2021-03-01,shops,-7.5\n2021-03-02,Shop,1\n2021-02-05,shops,1\n")
					w.write("i.json", `[{"d":"2021-03-01","n":"shop","a":-5.25,"c":"EUR","z":1,"y":2,"x":null,"q":{"b":1,"a":2,"n":3,"m":4,"l":5,"k":6,"j":7,"i":8,"h":9,"g":10}},{"a":1,"n":"x","d":"2020-01-01"}]`)
					w.write("i2.json", `[{"d":"2021-03-01","n":"shop"}]`)
					w.write("h.csv", "d;n;a;z;y;x;w\n2021-03-01;shop;1;1;2;3;4\n")
					docs := filepath.Join(w.Scratch, "docs")
					var full []string
					full = append(full, "-l", fn)
					if args[0] == "__complete" || strings.HasPrefix(args[0], "--") {
						full = nil
					}
					usesDocs := args[0] == "docs"
					for _, x := range args {
						full = append(full, strings.ReplaceAll(x, "$T", w.Scratch))
					}
					w.cli(conf, "ccy", "-l", fn) // settle the configuration file
					first, firstAt := "", ""
					var calls []time.Time
					defer setMapSeed(seeds[0])
					lim := limit
					if usesDocs || args[0] == "shell" {
						lim = 40
					}
					for _, seed := range seeds {
						setMapSeed(seed)
						runs, full := mapOrders(lim, func(order string) {
							if usesDocs {
								quietMaps(func() {
									os.RemoveAll(docs)
									os.MkdirAll(docs, 0755)
								})
							}
							// any time of the same day
							at := time.Date(2020, 5, 15, 12, 0, 0, 0, time.Local)
							if len(calls)%2 == 1 {
								at = time.Date(2020, 5, 15, (len(calls)*7)%24, (len(calls)*11)%60, (len(calls)*13)%60, len(calls)*1000003%1000000000, time.Local)
							}
							calls = append(calls, at)
							setClock(at, time.Microsecond)
							c := w.cli(conf, full...)
							clearClock()
							setMapHook(nil)
							got := fmt.Sprintf("output:\n%s\nerrors:\n%s\nresult: %v", c.out, c.errout, c.err)
							if usesDocs {
								got += readTree(docs)
							}
							if firstAt == "" {
								first, firstAt = got, order
							} else if got != first {
								t.Failf("at %v, map order %s prints\n%s\n\nat %v, map order %s (seed %x) prints\n%s", calls[0], firstAt, clip(first, 3000), at, order, seed, clip(got, 3000))
							}
						})
						t.Trans(int64(runs))
						if full {
							t.Outcome("all orders")
						}
						lim = 30
					}
					k := fmt.Sprint(ci, l.name, args)
					t.State(k)
					if strings.Contains(first, "result: <nil>") {
						t.Nontrivial(k)
						t.Outcome("succeeds")
					} else {
						t.Outcome("refused")
					}
					t.Trace()
				})
			}
		}
	}

	w.Section("operation sequences")
	ops := opAlphabet()
	depth := 1
	if w.Thorough {
		depth = 2
	}
	for _, s := range startBooks() {
		s := s
		eachSeq(ops, depth, func(seq []Op) {
			w.Case(seqDesc(s, seq), func(t *T) {
				first, firstAt := "", ""
				runs, _ := mapOrders(limit, func(order string) {
					b := buildBook(s.ts, s.prices)
					for _, o := range seq {
						if err := o.run(b); err != nil {
							t.Failf("%v", err)
						}
					}
					got := apiView(b)
					setMapHook(nil)
					if firstAt == "" {
						first, firstAt = got, order
					} else if got != first {
						t.Failf("map order %s gives\n%s\nmap order %s gives\n%s", firstAt, first, order, got)
					}
				})
				t.Trans(int64(runs))
				t.State(s.name + strings.Join(opTexts(seq), " "))
				t.Nontrivial(first)
			})
		})
	}
}

// apiView is everything a book shows.
func apiView(b *book.Book) string {
	var sb strings.Builder
	show := func(tr []book.Transaction) {
		for _, x := range tr {
			for _, p := range x {
				fmt.Fprintf(&sb, "%d|%q|%q|%s|%s|%d|%s|%q|%s|%s\n", p.GetDate(), p.GetPayee(), p.GetTransactionNote(), p.GetAccount(), p.GetAccountTerm(), p.GetAccountLevel(), p.GetCCY(), p.GetPostNote(), p.GetAmount().RatString(), p.GetBalance().RatString())
			}
			fmt.Fprintln(&sb)
		}
	}
	show(b.Transactions())
	fmt.Fprintln(&sb, b.GetPricePairs())
	for _, pp := range b.GetPricePairs() {
		r, k := b.GetPrice(20200215, pp.Unit, pp.CCY)
		fmt.Fprintln(&sb, r.RatString(), k)
	}
	fmt.Fprintln(&sb, modelOf(b).canonPrices())
	fmt.Fprintln(&sb, sortedInt(b.GetCCYDecimals()))
	fmt.Fprintln(&sb, b.Accounts(".", true), b.Accounts(".", false))
	for _, r := range b.ExtractRegister("USD", regexp.MustCompile("."), true) {
		fmt.Fprintln(&sb, r.Date, r.Payee, r.Account, r.CounterAccount, r.CCY, r.Amount.RatString(), r.Balance.RatString(), r.BaseAmount.RatString())
	}
	d := b.Duplicate()
	d.MapAmount(func(day book.Date, c string) (*big.Rat, string) {
		r, _ := d.GetPrice(day, c, "USD")
		return r, "USD"
	})
	show(d.Accumulate("USD", ":", regexp.MustCompile("^B"), ""))
	return sb.String()
}

func readTree(dir string) string {
	var out []string
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		out = append(out, "--- "+e.Name()+"\n"+string(b))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}
