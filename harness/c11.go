//go:build verifmc

package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
)

func init() {
	register(&Prop{ID: "C11", Level: "model_checking",
		Rule:        "the real import and generate commands on scripts and data files: every pair of field values of a record, every failing field, every CSV table of the alphabet in every writing style and delimiter, every JSON value of the alphabet, every ledger x file x file, and every history of runs whose output is appended to the ledger, up to the stated sizes; the output is read back with the program's loader and with the reference reading and compared with a reference model; states are distinct results, transitions are commands run",
		Assumptions: []string{"amounts are finite decimals other than zero, account and counter-account differ, texts have no line breaks or outer spaces, a payee has not both a semicolon and a double quote", "JSON numbers are floating-point numbers"},
		Run:         runC11})
}

// withStdin runs a command line with the given standard input.
func (w *W) withStdin(stdin string, f func() cliOut) cliOut {
	fn := w.write(".in", stdin)
	g, err := os.Open(fn)
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer g.Close()
	saved := devnull
	devnull = g
	defer func() { devnull = saved }()
	return f()
}

// field is one argument of a record.
type field struct {
	name, lit string
	set       func(r *irec)
}

type irec struct {
	date               int
	desc               string
	amt, amt2          *big.Rat
	denom, denom2      int64
	ccy, ccy2          string
	acct, acct2, cacct string
	note, lnote        string
}

// txn is the transaction of a record.
func (r irec) txn() MTxn {
	v := new(big.Rat).Quo(r.amt, big.NewRat(r.denom, 1))
	t := MTxn{Date: r.date, Payee: r.desc, Note: r.note, Posts: []MLine{{r.acct, r.ccy, r.lnote, v}, {r.cacct, r.ccy, "", new(big.Rat).Neg(v)}}}
	if r.acct2 != "" {
		v2 := new(big.Rat).Quo(r.amt2, big.NewRat(r.denom2, 1))
		t.Posts = append(t.Posts, MLine{r.acct2, r.ccy2, "", v2}, MLine{r.cacct, r.ccy2, "", new(big.Rat).Neg(v2)})
	}
	return t
}

// readAs checks that a printed result is exactly these transactions.
func (t *T) readAs(out string, m *MBook, what string) {
	b, err := t.w.loadText(out)
	if err != nil {
		t.Failf("%s: the output cannot be read: %v\n%s", what, err, out)
	}
	if d := diffTrans(b, m); d != "" {
		t.Failf("%s: read back, %s\n%s", what, d, out)
	}
	rm, _, e := refParse(map[string]string{"m": out}, "m")
	if e != "" || rm.canon() != m.canon() {
		t.Failf("%s: the output says (%s)\n%s\nwanted\n%s", what, e, out, m.canon())
	}
	t.State(m.canon())
}

func strq(s string) string { return strconv.Quote(s) }

// recordFields are the values a field can have, the first being the usual one.
func recordFields(thorough bool) [][]field {
	var out [][]field
	text := func(name string, set func(r *irec, s string), omit bool, vals ...string) {
		var fs []field
		if omit {
			fs = append(fs, field{"", "", func(r *irec) {}})
		}
		for _, v := range vals {
			v := v
			fs = append(fs, field{name, strq(v), func(r *irec) { set(r, v) }})
		}
		out = append(out, fs)
	}
	var ds []field
	for _, d := range []struct {
		s string
		v int
	}{{"2020-01-15", 20200115}, {"2020/02/29", 20200229}, {"0001-01-01", 10101}, {"9999.12.31", 99991231}, {"20200301", 20200301}, {"31/12/2019", 20191231}, {"2020-6", 20200601}, {"2021", 20210101}} {
		d := d
		ds = append(ds, field{"date", strq(d.s), func(r *irec) { r.date = d.v }})
	}
	out = append(out, ds)
	text("desc", func(r *irec, s string) { r.desc = s }, false, "p", "", "p (2)", "a;b", "* star", "*", "! x", "é à", "a  b", "include", "P 2020", "2020/01/01", "(1) x", "a \"b", "; x", "= 1", "*a\"b", "\U0001F600")
	amts := []struct{ lit, val string }{{`5`, "5"}, {`-7.25`, "-7.25"}, {`"3"`, "3"}, {`"-0.001"`, "-0.001"}, {`0.1`, "0.1"}, {`0.1+0.2`, "0.30000000000000004"}, {`"1e3"`, "1000"}, {`123456789012345678901234567890`, "123456789012345678901234567890"}, {`"123456789.123456789123"`, "123456789.123456789123"}, {`1e-7`, "0.0000001"}, {`1e22`, "10000000000000000000000"}, {`"+4"`, "4"}, {`"1/4"`, "0.25"}, {`"100.00"`, "100"}, {`float("2.5")`, "2.5"}}
	amount := func(name string, set func(r *irec, v *big.Rat), omit bool) {
		var fs []field
		if omit {
			fs = append(fs, field{"", "", func(r *irec) {}})
		}
		for _, a := range amts {
			a := a
			fs = append(fs, field{name, a.lit, func(r *irec) { set(r, ratS(a.val)) }})
		}
		out = append(out, fs)
	}
	amount("amt", func(r *irec, v *big.Rat) { r.amt = v }, false)
	denom := func(name string, set func(r *irec, v int64)) {
		fs := []field{{"", "", func(r *irec) {}}}
		for _, d := range []int64{100, 1, -1, -100, 8, 1000000, 1 << 31, -1 << 32, 1000000000000000000} {
			d := d
			fs = append(fs, field{name, fmt.Sprint(d), func(r *irec) { set(r, d) }})
		}
		out = append(out, fs)
	}
	denom("denom", func(r *irec, v int64) { r.denom = v })
	ccys := []string{"X", "USD", "$", "£", "A B", "X1", "-", "x;y", "é", "X/Y"}
	text("ccy", func(r *irec, s string) { r.ccy = s }, true, ccys...)
	text("account", func(r *irec, s string) { r.acct = s }, true, "B", "Asset:B_1:c", "A&B:d'e", "1:2")
	text("caccount", func(r *irec, s string) { r.cacct = s }, true, "K", "Expense:K", "A:1")
	text("note", func(r *irec, s string) { r.note = s }, true, "n", "a ; b", "x = 1", "\"q\"", "@ 3", "é", "2020/01/01 z")
	text("lnote", func(r *irec, s string) { r.lnote = s }, true, "n", "a ; b", "x = 1", "\"q\"", "@ 3", "é", "A  USD 5")
	// the second amount
	snd := []field{{"", "", func(r *irec) {}}}
	for _, a := range []struct {
		lit string
		set func(r *irec)
	}{
		{`amt2="2.50", account2="S"`, func(r *irec) { r.amt2, r.acct2 = ratS("2.5"), "S" }},
		{`amt2=-3, account2="S:T", ccy2="EUR"`, func(r *irec) { r.amt2, r.acct2, r.ccy2 = ratS("-3"), "S:T", "EUR" }},
		{`amt2=0.1, account2="S", denom2=10, ccy2="X"`, func(r *irec) { r.amt2, r.acct2, r.denom2, r.ccy2 = ratS("0.1"), "S", 10, "X" }},
		{`amt2="-1e2", account2="S", denom2=-4`, func(r *irec) { r.amt2, r.acct2, r.denom2 = ratS("-100"), "S", -4 }},
		{`amt2=1000001, account2="D", ccy2="$"`, func(r *irec) { r.amt2, r.acct2, r.ccy2 = ratS("1000001"), "D", "$" }},
	} {
		a := a
		snd = append(snd, field{"second", a.lit, a.set})
	}
	out = append(out, snd)
	return out
}

func (f field) arg() string {
	if f.name == "second" {
		return f.lit
	}
	return f.name + "=" + f.lit
}

func dfltRec() irec {
	return irec{date: 20200115, desc: "p", amt: ratS("5"), denom: 1, denom2: 1, ccy: "DEF", ccy2: "DEF", acct: "D", cacct: "E:C"}
}

func runC11(w *W) {
	const conf = "[importdefs.dd]\naccount = \"D\"\ncounteraccount = \"E:C\"\nccy = \"DEF\"\nconfigtype = \"json\"\n"
	empty := w.write("empty.ledger", "")
	old := w.write("old.ledger", "2010/01/01 old\n  A  3.12345 DEF\n  B  -3.12345 DEF\n2020/01/15 other\n  D  1 $\n  E:C  -1 $\n")
	data := w.write("d.json", "[]")
	imp := func(t *T, l, code string, more ...string) cliOut {
		t.Trans(1)
		return w.cli(conf, append([]string{"-l", l, "import", "dd", "--code", code, data}, more...)...)
	}
	judgeRecs := func(t *T, c cliOut, recs []irec, what string) {
		if c.err != nil {
			t.Failf("%s fails: %v", what, c.err)
		}
		var ts []MTxn
		for _, r := range recs {
			ts = append(ts, r.txn())
		}
		t.readAs(c.out, mbookOf(ts, nil), what)
	}

	w.Section("records")
	fields := recordFields(w.Thorough)
	one := func(picks []field) {
		var args []string
		r := dfltRec()
		for _, f := range picks {
			f.set(&r)
			if f.name != "" {
				args = append(args, f.arg())
			}
		}
		if r.acct == r.cacct || r.acct2 == r.cacct {
			return
		}
		code := "add(" + strings.Join(args, ", ") + ")"
		w.Case(func() string { return code }, func(t *T) {
			for _, l := range []string{empty, old} {
				judgeRecs(t, imp(t, l, code), []irec{r}, "import")
			}
			if r.acct != "D" && r.cacct != "E:C" && r.ccy != "DEF" && (r.acct2 == "" || r.ccy2 != "DEF") {
				c := w.cli("", "-l", old, "generate", "--code", code)
				t.Trans(1)
				judgeRecs(t, c, []irec{r}, "generate")
			}
			t.Nontrivial(code)
			t.Trace()
		})
	}
	base := make([]field, len(fields))
	for i := range fields {
		base[i] = fields[i][0]
	}
	for i := range fields {
		for j := i + 1; j < len(fields); j++ {
			for a := range fields[i] {
				for b := range fields[j] {
					if a == 0 && b > 0 && i > 0 || b == 0 && a > 0 && j != len(fields)-1 {
						continue // seen with another pair
					}
					if w.Done() {
						return
					}
					p := append([]field{}, base...)
					p[i], p[j] = fields[i][a], fields[j][b]
					one(p)
				}
			}
		}
	}
	if w.Thorough {
		for i := range fields {
			for j := i + 1; j < len(fields); j++ {
				for k := j + 1; k < len(fields); k++ {
					for a := 1; a < len(fields[i]); a++ {
						for b := 1; b < len(fields[j]); b++ {
							for c := 1; c < len(fields[k]); c++ {
								if w.Done() {
									return
								}
								if (a+b+c)%3 != 0 && (len(fields[i])*len(fields[j])*len(fields[k]) > 300) {
									continue // a Latin square of the large products
								}
								p := append([]field{}, base...)
								p[i], p[j], p[k] = fields[i][a], fields[j][b], fields[k][c]
								one(p)
							}
						}
					}
				}
			}
		}
	}

	w.Section("several records and printing")
	small := []struct {
		arg string
		rec irec
	}{}
	for _, a := range []string{"date=\"2020-01-15\", desc=\"p\"", "date=\"2020-01-15\", desc=\"q\"", "date=\"2020-01-14\", desc=\"p\"", "date=\"2020-01-15\", desc=\"p (2)\"", "date=\"2020-01-15\", desc=\"\""} {
		r := dfltRec()
		fmt.Sscanf(strings.Replace(a[6:16], "-", "", -1), "%d", &r.date)
		r.desc, _ = strconv.Unquote(a[strings.Index(a, "desc=")+5:])
		small = append(small, struct {
			arg string
			rec irec
		}{a, r})
	}
	max := 3
	if w.Thorough {
		max = 5
	}
	for n := 0; n <= max; n++ {
		seqs(len(small), n, func(s []int) {
			var code []string
			var recs []irec
			for i, k := range s {
				r := small[k].rec
				r.amt = rat(int64(i+1), 1)
				recs = append(recs, r)
				code = append(code, fmt.Sprintf("add(%s, amt=%d)", small[k].arg, i+1))
				if i == 0 {
					code = append(code, `print("a\n2020/01/01 x\n  A  1 X", 1)`, `print("b\r2020/01/01 y")`, `print("")`)
				}
			}
			src := strings.Join(code, "\n")
			w.Case(func() string { return src }, func(t *T) {
				judgeRecs(t, imp(t, old, src), recs, "import")
				c := w.cli(conf, "-l", old, "import", "dd", "--code", "file:"+w.write("code.star", src), data)
				judgeRecs(t, c, recs, "import with a code file")
				t.Trans(1)
				t.Nontrivial(src)
				t.Trace()
			})
		})
	}

	w.Section("records that are refused")
	bad := [][2]string{
		{"amt", ""}, {"amt", `amt=None`}, {"amt", `amt=""`}, {"amt", `amt="abc"`}, {"amt", `amt="1,000"`}, {"amt", `amt="5 USD"`}, {"amt", `amt=" 5"`}, {"amt", `amt=float("inf")`}, {"amt", `amt=float("-inf")`}, {"amt", `amt=float("nan")`}, {"amt", `amt="inf"`}, {"amt", `amt="NaN"`}, {"amt", `amt="1/0"`}, {"amt", `amt=[5]`}, {"amt", `amt={}`}, {"amt", `amt=True`}, {"amt", `amt=(1,)`}, {"amt", `amt="1.2.3"`}, {"amt", `amt="--5"`}, {"amt", `amt="1e999999999999"`},
		{"denom", `denom=0`}, {"denom", `denom="100"`}, {"denom", `denom=1.5`}, {"denom", `denom=None`}, {"denom", `denom=1<<70`},
		{"date", ""}, {"date", `date=""`}, {"date", `date="2020-02-30"`}, {"date", `date="2019-02-29"`}, {"date", `date="2020-13-01"`}, {"date", `date="2020-00-01"`}, {"date", `date="2020-01-00"`}, {"date", `date="0000-01-01"`}, {"date", `date="yesterday"`}, {"date", `date="12020-01-01"`}, {"date", `date=20200101`}, {"date", `date=None`}, {"date", `date="2020-01-01 "`}, {"date", `date="32/01/2020"`}, {"date", `date="2020-01-01T00:00:00"`},
		{"desc", ""}, {"desc", `desc=None`}, {"desc", `desc=5`},
		{"ccy", `ccy=""`}, {"ccy", `ccy=None`}, {"ccy", `ccy=3`},
		{"account", `account=None`}, {"note", `note=1`}, {"lnote", `lnote=[]`}, {"caccount", `caccount=1`},
		{"account", `account=""`}, {"account", `account="A B"`}, {"account", `account="A-B"`}, {"account", `account="A;B"`}, {"account", `account="é"`}, {"account", `account="A\n  B"`}, {"account", `account="A]"`}, {"account", `account="[A]"`}, {"account", `account=" A"`}, {"account", `account="A "`}, {"account", `account="A  5 X"`},
		{"caccount", `caccount=""`}, {"caccount", `caccount="A B"`}, {"caccount", `caccount="é"`},
		{"ccy", `ccy="a\"b"`}, {"ccy", `ccy="a\nb"`},
		{"x", `amt2="abc", account2="S"`}, {"x", `amt2=None, account2="S"`}, {"x", `account2="S"`}, {"x", `amt2=5`}, {"x", `amt2=5, account2=""`}, {"x", `amt2=5, account2="S", denom2=0`}, {"x", `amt2=5, account2="S", ccy2=""`}, {"x", `amt2=float("inf"), account2="S"`}, {"x", `amt2="", account2="S"`}, {"x", `amt2=5, account2="A B"`}, {"x", `amt2=5, account2="S", ccy2="a\"b"`},
		{"x", `amount=5`}, {"x", `"x", "y", 5, 6`},
	}
	for _, b := range bad {
		for pos := 0; pos < 3; pos++ {
			b, pos := b, pos
			var args []string
			for _, d := range [][2]string{{"date", `date="2020-01-15"`}, {"desc", `desc="p"`}, {"amt", `amt=5`}} {
				if d[0] != b[0] {
					args = append(args, d[1])
				}
			}
			if b[1] != "" {
				args = append(args, b[1])
			}
			good := `add("2020-01-01", "good", 3)`
			l := []string{"add(" + strings.Join(args, ", ") + ")"}
			if pos > 0 {
				l = append([]string{good}, l...)
			}
			if pos > 1 {
				l = append(l, good)
			}
			src := strings.Join(l, "\n")
			w.Case(func() string { return src }, func(t *T) {
				refused := func(c cliOut, what string) {
					t.Trans(1)
					if c.err == nil {
						t.Failf("%s succeeds: %s", what, c)
					}
					if strings.Contains(c.out, "20") {
						t.Failf("%s prints transactions: %s", what, c)
					}
				}
				refused(imp(t, old, src), "import")
				refused(w.cli("", "-l", old, "generate", "--code", src), "generate")
				t.Nontrivial(src)
			})
		}
	}

	// texts that a ledger cannot hold as they are: refused, or one transaction that is known the next time
	w.Section("texts that a ledger line cannot hold")
	pieces := []string{"a", " ", "\"", ";", "\n", "\r", "*", "\t", "\x00", "\xff", "\u2028", "'", "  A  5 X", "\n2020/02/02 b"}
	depth := 2
	if w.Thorough {
		depth = 3
	}
	for n := 1; n <= depth; n++ {
		seqs(len(pieces), n, func(s []int) {
			var sb strings.Builder
			for _, k := range s {
				sb.WriteString(pieces[k])
			}
			txt := sb.String()
			w.Case(func() string { return fmt.Sprintf("text %q", txt) }, func(t *T) {
				fc := w.write("t.csv", "\""+strings.Replace(txt, "\"", "\"\"", -1)+"\"\n")
				for _, field := range []string{"desc=x", "desc='p', note=x", "desc='p', lnote=x"} {
					args := []string{"import", "--format", "csv", "--ccy", "DEF", "-a", "D", "-c", "E:C", "--reclassify=false", "--code",
						"x = data[0][0]\nadd(date='2020-01-01', amt=5, " + field + ")\nadd(date='2020-01-01', amt=6, " + field + ")", fc}
					c := w.cli("", append([]string{"-l", empty}, args...)...)
					t.Trans(2)
					if c.err != nil {
						t.Failf("%s: import fails: %v", field, c.err)
					}
					b, err := w.loadText(c.out)
					if err != nil {
						t.Failf("%s: the output cannot be read: %v\n%s", field, err, c.out)
					}
					trs := b.Transactions()
					if len(trs) != 2 || trs[0][0].GetDate() != 20200101 || trs[1][0].GetDate() != 20200101 {
						t.Failf("%s: %d transactions instead of two\n%s", field, len(trs), c.out)
					}
					sum := new(big.Rat)
					for _, tr := range trs {
						if len(tr) != 2 || tr[0].GetAccount() != "D" || tr[0].GetCCY() != "DEF" || tr[1].GetAccount() != "E:C" {
							t.Failf("%s: other postings\n%s", field, c.out)
						}
						sum.Add(sum, tr[0].GetAmount())
					}
					if sum.Cmp(rat(11, 1)) != 0 {
						t.Failf("%s: other amounts\n%s", field, c.out)
					}
					c2 := w.cli("", append([]string{"-l", w.write("l2.ledger", c.out)}, args...)...)
					if c2.err != nil || strings.TrimSpace(c2.out) != "" {
						t.Failf("%s: importing again: %s\nbehind\n%s", field, c2, c.out)
					}
				}
				t.Nontrivial(txt)
				t.Trace()
			})
		})
	}

	w.Section("CSV tables")
	const dump = `
def enc(s):
  return ".".join([str(o) for o in s.codepoint_ords()])
def row(i, r):
  if type(r) == "dict":
    t = ",".join([enc(k)+"="+enc(r[k]) for k in sorted(r.keys())])
  else:
    t = ",".join([enc(x) for x in r])
  add(date="2020-01-01", desc="r%d" % i, amt=i+1, note=t+"|")
def all(d):
  for i in range(len(d)):
    row(i, d[i])
all(data)
print(file)
`
	ords := func(s string) string {
		var o []string
		for _, r := range s {
			o = append(o, fmt.Sprint(int(r)))
		}
		return strings.Join(o, ".")
	}
	tableModel := func(rows [][]string, hdr []string) *MBook {
		var ts []MTxn
		for i, r := range rows {
			var c []string
			for j, x := range r {
				if hdr != nil {
					c = append(c, hdr[j]+"\x00"+ords(x))
				} else {
					c = append(c, ords(x))
				}
			}
			if hdr != nil {
				sort.Strings(c)
				for k := range c {
					p := strings.SplitN(c[k], "\x00", 2)
					c[k] = ords(p[0]) + "=" + p[1]
				}
			}
			ts = append(ts, noted(tx(20200101, fmt.Sprintf("r%d", i), ln("D", fmt.Sprint(i+1), "DEF"), ln("E:C", fmt.Sprint(-i-1), "DEF")), strings.Join(c, ",")+"|"))
		}
		return mbookOf(ts, nil)
	}
	cells := []string{"a", "", "b c", "x,y", "q\"q", "l\nm", " s", "t ", "é", "1;2", "u\tv", "#h", "|", "'"}
	styles := []string{"needed", "always", "crlf", "noeol", "blank", "spaced"}
	delims := []string{",", ";", "\t", "|", ":", " ", "é", "#", "="}
	write := func(rows [][]string, delim, style string) (string, bool) {
		nl := "\n"
		if style == "crlf" {
			nl = "\r\n"
		}
		var ls []string
		for _, r := range rows {
			var c []string
			for _, x := range r {
				q := style == "always" || x == "" && len(r) == 1 || strings.ContainsAny(x, "\"\n\r") || strings.Contains(x, delim) || strings.HasPrefix(x, " ")
				if q {
					x = "\"" + strings.Replace(x, "\"", "\"\"", -1) + "\""
				}
				if style == "spaced" {
					if strings.TrimSpace(delim) == "" {
						return "", false
					}
					x = " " + x
				}
				c = append(c, x)
			}
			ls = append(ls, strings.Join(c, delim))
			if style == "blank" {
				ls = append(ls, "")
			}
		}
		out := strings.Join(ls, nl)
		if style != "noeol" && len(ls) > 0 {
			out += nl
		}
		return out, true
	}
	table := func(rows [][]string, hdr []string, delim, style string) {
		all := rows
		if hdr != nil {
			all = append([][]string{hdr}, rows...)
		}
		text, ok := write(all, delim, style)
		if !ok {
			return
		}
		w.Case(func() string { return fmt.Sprintf("delimiter %q, header %v: %q", delim, hdr != nil, text) }, func(t *T) {
			f := w.write("t.csv", text)
			m := tableModel(rows, hdr)
			format := "csv:delim=" + delim
			if delim == "," {
				format = "csv"
			}
			if hdr != nil {
				format = strings.Replace(format+",header=true", "csv,", "csv:", 1)
			}
			c := w.cli("", "-l", old, "--ccy", "DEF", "import", "--format", format, "--code", dump, "-a", "D", "-c", "E:C", "--reclassify=false", f)
			if c.err != nil {
				t.Failf("import fails: %v", c.err)
			}
			t.readAs(c.out, m, "import")
			if !strings.Contains(c.out, "; "+f+"\n") {
				t.Failf("the file name is missing: %s", c)
			}
			c2 := w.withStdin(text, func() cliOut {
				return w.cli(fmt.Sprintf("[importdefs.b]\ncode = %s\naccount = \"D\"\ncounteraccount = \"E:C\"\nccy = \"DEF\"\nconfigtype = \"csv\"\n[importdefs.b.params]\ndelim = %s\nheader = \"%v\"\n", tomlStr(dump), tomlStr(delim), hdr != nil), "-l", old, "import", "b", "-")
			})
			if c2.err != nil || !strings.HasSuffix(c2.out, c.out[strings.Index(c.out, "\n")+1:]) || !strings.HasPrefix(c2.out, "; -\n") {
				t.Failf("configured import from standard input gives %s instead of %s", c2, c)
			}
			t.Trans(2)
			t.Nontrivial(format + text)
			t.Trace()
		})
	}
	for _, delim := range delims {
		for _, style := range styles {
			for _, a := range cells {
				for _, b := range cells {
					if w.Done() {
						return
					}
					table([][]string{{a, b}}, nil, delim, style)
					if w.Thorough || style == "needed" || a == "a" {
						table([][]string{{a, b}}, []string{"h1", "A h"}, delim, style)
						table([][]string{{a, "k", b}, {"z", b, a}}, nil, delim, style)
					}
					if w.Thorough {
						for _, c := range cells {
							table([][]string{{a, b, c}, {c, a, b}}, []string{"c", "b", "é"}, delim, style)
							table([][]string{{a}, {b}, {c}}, nil, delim, style)
						}
					}
				}
			}
			table(nil, nil, delim, style)
			table(nil, []string{"h"}, delim, style)
			table([][]string{{"a"}, {"b"}, {"c"}}, []string{"h"}, delim, style)
		}
	}
	for _, n := range []int{4, 9, 17, 33, 64, 65, 100, 129, 257, 300, 301, 513, 1025, 3000} {
		for _, cols := range []int{1, 3, 20, 70} {
			if n*cols > 20000 {
				continue
			}
			var rows [][]string
			var hdr []string
			for j := 0; j < cols; j++ {
				hdr = append(hdr, fmt.Sprint("h", j*31%100))
			}
			for i := 0; i < n; i++ {
				var r []string
				for j := 0; j < cols; j++ {
					r = append(r, fmt.Sprint(i, "x", j))
				}
				rows = append(rows, r)
			}
			table(rows, nil, ",", "needed")
			table(rows, hdr, ";", "always")
		}
	}
	for _, text := range []string{"a,b\nc\n", "a\nb,c\n", "a,\"b\n", "a,b\"c\n", "a,\"b\"c\n", "\"\n"} {
		for _, h := range []string{"csv", "csv:header=true", "csv:header"} {
			text, h := text, h
			w.Case(func() string { return fmt.Sprintf("%s: damaged table %q", h, text) }, func(t *T) {
				c := w.cli("", "-l", old, "--ccy", "DEF", "import", "--format", h, "--code", dump, "-a", "D", "-c", "E:C", w.write("t.csv", text))
				if c.err == nil || strings.Contains(c.out, "20") {
					t.Failf("import succeeds: %s", c)
				}
				t.Trans(1)
				t.Nontrivial(h + text)
			})
		}
	}
	for _, f := range []string{"csv:delim=", "csv:delim=ab", "csv:header=maybe", "xml", "", "csv:header=true,header=true", "csv:delim=\"", "csv:delim=\n", ":", "CSV"} {
		f := f
		w.Case(func() string { return fmt.Sprintf("format %q", f) }, func(t *T) {
			c := w.cli("", "-l", old, "--ccy", "DEF", "import", "--format", f, "--code", dump, "-a", "D", "-c", "E:C", w.write("t.csv", "a,b\n"))
			if c.err == nil || strings.Contains(c.out, "20") {
				t.Failf("import succeeds: %s", c)
			}
			t.Trans(1)
			t.Nontrivial("f" + f)
		})
	}
	for _, f := range []struct {
		format string
		header bool
	}{
		{"csv:header=true,delim=;", true}, {"csv:header=True,delim=;", true}, {"csv:header=TRUE,delim=;", true}, {"csv:delim=;,header", true}, {"csv:header,delim=;", true},
		{"csv:header=false,delim=;", false}, {"csv:header=False,delim=;", false}, {"csv:delim=;,header=FALSE", false}, {"csv:delim=;", false},
	} {
		f := f
		w.Case(func() string { return "format " + f.format }, func(t *T) {
			file := w.write("t.csv", "h;k\na;b\n")
			m := tableModel([][]string{{"h", "k"}, {"a", "b"}}, nil)
			if f.header {
				m = tableModel([][]string{{"a", "b"}}, []string{"h", "k"})
			}
			c := w.cli("", "-l", old, "--ccy", "DEF", "import", "--format", f.format, "--code", dump, "-a", "D", "-c", "E:C", "--reclassify=false", file)
			if c.err != nil {
				t.Failf("import fails: %v", c.err)
			}
			t.readAs(c.out, m, "import")
			conf := "[importdefs.b]\ncode = " + tomlStr(dump) + "\naccount = \"D\"\ncounteraccount = \"E:C\"\nccy = \"DEF\"\nconfigtype = \"csv\"\n[importdefs.b.params]\n"
			for _, kv := range strings.Split(strings.TrimPrefix(f.format, "csv:"), ",") {
				if i := strings.Index(kv, "="); i < 0 {
					conf += kv + " = \"true\"\n"
				} else {
					conf += kv[:i] + " = " + tomlStr(kv[i+1:]) + "\n"
				}
			}
			if c2 := w.cli(conf, "-l", old, "import", "b", "--reclassify=false", file); c2.err != nil || c2.out != c.out {
				t.Failf("configured import gives %s instead of %s", c2, c)
			}
			// given twice, the last one counts
			if c3 := w.cli("", "-l", old, "--ccy", "DEF", "import", "--format", "csv:header=true,delim=b", "--format", f.format, "--code", dump, "-a", "D", "-c", "E:C", "--reclassify=false", file); c3.err != nil || c3.out != c.out {
				t.Failf("as the second format of two it gives %s instead of %s", c3, c)
			}
			t.Trans(3)
			t.Nontrivial("f" + f.format)
		})
	}
	w.Case(func() string {
		return "an empty file with a header expected; a missing file; a missing file behind a good one"
	}, func(t *T) {
		a := []string{"-l", old, "--ccy", "DEF", "import", "--format", "csv:header=true", "--code", dump, "-a", "D", "-c", "E:C"}
		if c := w.cli("", append(a, w.write("t.csv", ""))...); c.err == nil {
			t.Failf("no header: %s", c)
		}
		if c := w.cli("", append(a, w.Scratch+"/none")...); c.err == nil {
			t.Failf("missing file: %s", c)
		}
		if c := w.cli("", append(a, w.write("t.csv", "a\nb\n"), w.Scratch+"/none")...); c.err == nil {
			t.Failf("second file missing: %s", c)
		}
		if c := w.cli("", append([]string{"-l", w.Scratch + "/none"}, append(a[2:], w.write("t.csv", "a\nb\n"))...)...); c.err == nil {
			t.Failf("ledger missing: %s", c)
		}
	})

	w.Section("JSON values")
	const jdump = `
def enc(v):
  t = type(v)
  if t == "dict":
    return "{" + "".join([enc(k)+":"+enc(v[k])+"," for k in sorted(v.keys())]) + "}"
  if t == "list":
    return "[" + "".join([enc(x)+"," for x in v]) + "]"
  if t == "string":
    return "s" + ".".join([str(o) for o in v.codepoint_ords()])
  if t == "float":
    if v == int(v):
      return "n%d" % int(v)
    return "n%d/4" % int(v*4)
  return str(v)
add(date="2020-01-01", desc="p", amt=1, note=enc(data))
`
	type jval struct{ text, enc string }
	atoms := []jval{{`1`, "n1"}, {`-0.75`, "n-3/4"}, {`25e-2`, "n1/4"}, {`1e3`, "n1000"}, {`"a"`, "s97"}, {`""`, "s"}, {`"\u00e9\n\""`, "s233.10.34"}, {`"\ud83d\ude00"`, "s128512"}, {`true`, "True"}, {`false`, "False"}, {`null`, "None"}, {`[]`, "[]"}, {`{}`, "{}"}}
	level := atoms
	arr := func(vs ...jval) jval {
		var t, e []string
		for _, v := range vs {
			t, e = append(t, v.text), append(e, v.enc+",")
		}
		return jval{"[" + strings.Join(t, ", ") + "]", "[" + strings.Join(e, "") + "]"}
	}
	objv := func(keys []string, vs ...jval) jval {
		var t, order []string
		e := map[string]string{}
		for i, v := range vs {
			t = append(t, strq(keys[i])+": "+v.text)
			if v.text != "null" {
				order = append(order, keys[i])
				e[keys[i]] = "s" + ords(keys[i]) + ":" + v.enc + ","
			}
		}
		sort.Strings(order)
		enc := ""
		for _, k := range order {
			enc += e[k]
		}
		return jval{"{" + strings.Join(t, ",") + "}", "{" + enc + "}"}
	}
	var vals []jval
	vals = append(vals, atoms...)
	for _, a := range level {
		vals = append(vals, arr(a), objv([]string{"k"}, a))
		for _, b := range level {
			vals = append(vals, arr(a, b), objv([]string{"k", "a"}, a, b), arr(objv([]string{"x"}, a), b), objv([]string{""}, arr(a, b)), arr(arr(a), objv([]string{"y"}, b)))
			if w.Thorough {
				for _, c := range level {
					vals = append(vals, arr(a, b, c), objv([]string{"b", "a", "c"}, a, b, c), arr(objv([]string{"x", "w"}, a, b), objv([]string{"x"}, c)), objv([]string{"z"}, objv([]string{"x", "y"}, a, arr(b, c))))
				}
			}
		}
	}
	jrun := func(t *T, text string) cliOut {
		t.Trans(1)
		return w.cli(conf, "-l", old, "import", "dd", "--code", jdump, w.write("j.json", text))
	}
	for _, v := range vals {
		v := v
		w.Case(func() string { return v.text }, func(t *T) {
			for _, text := range []string{v.text, "\n " + v.text + "\r\n\t "} {
				c := jrun(t, text)
				if c.err != nil {
					t.Failf("import fails: %v", c.err)
				}
				t.readAs(c.out, mbookOf([]MTxn{noted(tx(20200101, "p", ln("D", "1", "DEF"), ln("E:C", "-1", "DEF")), v.enc)}, nil), "import")
			}
			for _, text := range []string{v.text + "]", v.text + "[]", v.text + " x", "x" + v.text, v.text + "\n" + v.text} {
				if c := jrun(t, text); c.err == nil {
					t.Failf("%q is accepted: %s", text, c)
				}
			}
			for i := 1; i < len(v.text); i++ {
				if (v.text[0] == '[' || v.text[0] == '{' || v.text[0] == '"') && i < len(v.text) {
					if c := jrun(t, v.text[:i]); c.err == nil {
						t.Failf("the cut %q is accepted: %s", v.text[:i], c)
					}
				}
				if !w.Thorough && i > 3 {
					i += 5
				}
			}
			t.Nontrivial(v.text)
			t.Trace()
		})
	}
	for _, n := range []string{"1", "-1", "0.1", "12.34", "-99999999.99", "1e-3", "1E+2", "123456789012345", "0.000001", "1.10"} {
		n := n
		w.Case(func() string { return "amount " + n }, func(t *T) {
			r := dfltRec()
			r.amt = ratS(n)
			c := w.cli(conf, "-l", old, "import", "dd", "--code", `add("2020-01-15", "p", data["a"])`, w.write("j.json", `{"a": `+n+`}`))
			judgeRecs(t, c, []irec{r}, "number")
			c = w.cli(conf, "-l", old, "import", "dd", "--code", `add("2020-01-15", "p", data["a"])`, w.write("j.json", `{"a": "`+n+`"}`))
			judgeRecs(t, c, []irec{r}, "text")
			t.Trans(2)
			t.Nontrivial("n" + n)
		})
	}

	for n := 1; n <= 40; n++ {
		n := n
		w.Case(func() string { return fmt.Sprintf("an object of %d keys", n) }, func(t *T) {
			var ks, fs []string
			for i := 0; i < n; i++ {
				k := fmt.Sprintf("k%d", i*7%n)
				if n%7 == 0 {
					k = fmt.Sprintf("k%d", n-i)
				}
				ks = append(ks, k)
				fs = append(fs, fmt.Sprintf("%q: {%q: 1, %q: 2}", k, k, "a"))
			}
			sort.Strings(ks)
			t.Trans(1)
			code := `add("2020-01-15", "p", 5, note=",".join([k for k in data if data[k]["a"] == 2 and data[k][k] == 1]))`
			d := w.cli(conf, "-l", old, "import", "dd", "--code", strings.Replace(code, "in data if", "in sorted(data) if", 1), w.write("j.json", "{"+strings.Join(fs, ",")+"}"))
			t.readAs(d.out, mbookOf([]MTxn{noted(tx(20200115, "p", ln("D", "5", "DEF"), ln("E:C", "-5", "DEF")), strings.Join(ks, ","))}, nil), "import")
			t.Nontrivial(fmt.Sprint("keys", n))
		})
	}

	w.Section("defaults, configuration and flags")
	for bits := 0; bits < 64; bits++ {
		for flags := 0; flags < 8; flags++ {
			bits, flags := bits, flags
			w.Case(func() string { return fmt.Sprintf("configured %06b, flags %03b", bits, flags) }, func(t *T) {
				cf := "baseccy = \"BAS\"\n[importdefs.x]\nconfigtype = \"json\"\n"
				r := dfltRec()
				r.ccy, r.acct, r.cacct = "BAS", "", ""
				set := func(k int, key, val string, f func(s string)) {
					if bits>>k&1 == 1 {
						cf += key + " = " + tomlStr(val) + "\n"
						if f != nil {
							f(val)
						}
					}
				}
				code := `add("2020-01-15", "p", 5)`
				set(0, "account", "CA", func(s string) { r.acct = s })
				set(1, "counteraccount", "CC", func(s string) { r.cacct = s })
				set(2, "ccy", "CCC", func(s string) { r.ccy = s })
				set(3, "code", code, nil)
				if bits>>4&1 == 1 {
					cf += "dedup = true\n"
				}
				args := []string{"-l", w.write("dd.ledger", "2020/01/15 p\n  A  1 X\n  B  -1 X\n")}
				if bits>>5&1 == 1 {
					args = append(args, "--ccy", "FCY")
					if r.ccy == "BAS" {
						r.ccy = "FCY"
					}
				}
				args = append(args, "import", "x")
				if flags&1 == 1 {
					args = append(args, "-a", "FA")
					r.acct = "FA"
				}
				if flags&2 == 2 {
					args = append(args, "--cacct", "FC")
					r.cacct = "FC"
				}
				dedup := bits>>4&1 == 1
				if flags&4 == 4 {
					dedup = !dedup
					args = append(args, fmt.Sprintf("--dedup=%v", dedup))
				}
				mustFail := r.acct == "" || r.cacct == ""
				if bits>>3&1 == 0 {
					args = append(args, "--code", code)
				}
				c := w.cli(cf, append(args, data)...)
				t.Trans(1)
				t.Nontrivial(fmt.Sprint(bits, flags))
				if mustFail {
					if c.err == nil {
						t.Failf("no account: %s", c)
					}
					return
				}
				if dedup {
					judgeRecs(t, c, nil, "import of what is there")
				} else {
					judgeRecs(t, c, []irec{r}, "import")
				}
			})
		}
	}

	// ---- duplicate removal
	type rec struct {
		date  int
		payee string
	}
	pool := []rec{{20200101, "p"}, {20200101, "q"}, {20200102, "p"}, {20200101, "p (2)"}, {20200102, ""}, {20191231, "z"}}
	num := func(rs []rec) (keys []rec) {
		seen := map[rec]bool{}
		for _, r := range rs {
			k := r
			for n := 2; seen[k]; n++ {
				k.payee = strings.TrimSpace(fmt.Sprintf("%s (%d)", r.payee, n))
			}
			seen[k] = true
			keys = append(keys, k)
		}
		return
	}
	pick := func(s []int) (rs []rec) {
		for _, k := range s {
			rs = append(rs, pool[k])
		}
		return
	}
	// entries have amounts of their own so that what is kept can be told
	entry := func(r rec, v int) MTxn {
		return tx(r.date, r.payee, ln("D", fmt.Sprint(v), "DEF"), ln("E:C", fmt.Sprint(-v), "DEF"))
	}
	jsonOf := func(rs []rec, from int) string {
		var l []string
		for i, r := range rs {
			l = append(l, fmt.Sprintf(`["%04d-%02d-%02d", %s, "%d"]`, r.date/10000, r.date/100%100, r.date%100, strq(r.payee), from+i))
		}
		return "[" + strings.Join(l, ",") + "]"
	}
	const code = "[add(date=r[0], desc=r[1], amt=r[2]) for r in data]"
	ledgerOf := func(rs []rec) string {
		var ts []MTxn
		for i, r := range rs {
			ts = append(ts, entry(r, i+1))
		}
		return ledgerText(ts, nil)
	}
	printed := func(have map[rec]bool, rs []rec, from int, dedup bool, prev map[rec]bool) []MTxn {
		var out []MTxn
		var fresh []rec
		for i, k := range num(rs) {
			if dedup && have[k] || prev[k] {
				continue
			}
			out = append(out, entry(k, from+i))
			fresh = append(fresh, k)
		}
		for _, k := range fresh {
			prev[k] = true
		}
		return out
	}
	keysOf := func(rs []rec) map[rec]bool {
		m := map[rec]bool{}
		for _, k := range num(rs) {
			m[k] = true
		}
		return m
	}
	name := func(rs []rec) string { return fmt.Sprint(rs) }
	run := func(t *T, l, dd string, files ...string) cliOut {
		t.Trans(1)
		return w.cli(conf, append([]string{"-l", w.write("l.ledger", l), "import", "dd", "--code", code, dd}, files...)...)
	}

	w.Section("import twice")
	nl, nf := 2, 3
	if w.Thorough {
		nl, nf = 3, 4
	}
	for a := 0; a <= nl; a++ {
		seqs(len(pool), a, func(sl []int) {
			lr := pick(sl)
			for b := 0; b <= nf; b++ {
				if a == 3 && b == 4 {
					continue
				}
				seqs(len(pool), b, func(sf []int) {
					if w.Done() {
						return
					}
					fr := pick(sf)
					w.Case(func() string { return fmt.Sprintf("ledger %s, file %s", name(lr), name(fr)) }, func(t *T) {
						l := ledgerOf(lr)
						f := w.write("f.json", jsonOf(fr, 100))
						c := run(t, l, "--dedup=true", f)
						if c.err != nil {
							t.Failf("import fails: %v", c.err)
						}
						t.readAs(c.out, mbookOf(printed(keysOf(lr), fr, 100, true, map[rec]bool{}), nil), "import")
						c2 := run(t, l+"\n"+c.out, "--dedup", f)
						if c2.err != nil || strings.TrimSpace(c2.out) != "" {
							t.Failf("importing again: %s", c2)
						}
						c3 := run(t, l, "--dedup=false", f)
						if c3.err != nil {
							t.Failf("import fails: %v", c3.err)
						}
						t.readAs(c3.out, mbookOf(printed(nil, fr, 100, false, map[rec]bool{}), nil), "import without duplicate removal")
						if b <= 2 {
							gcode := "for_ = " + jsonOf(fr, 100) + "\n[add(date=r[0], desc=r[1], amt=r[2], ccy='DEF', account='D', caccount='E:C') for r in for_]"
							g := w.cli(conf, "-l", w.write("l.ledger", l), "generate", "--code", gcode)
							t.Trans(1)
							if g.err != nil || g.out != c.out {
								t.Failf("generate gives %s instead of\n%s", g, c.out)
							}
							g = w.cli(conf, "-l", w.write("l.ledger", l), "generate", "--dedup=false", "--code", gcode)
							if g.err != nil || g.out != c3.out {
								t.Failf("generate without duplicate removal gives %s instead of\n%s", g, c3.out)
							}
						}
						t.Nontrivial(name(lr) + name(fr))
						t.Trace()
					})
				})
			}
		})
	}

	w.Section("many records")
	for _, n := range []int{10, 49, 50, 51, 64, 65, 100, 129, 257, 1000, 2049} {
		for _, same := range []bool{false, true} { // on the same days
			for _, at := range [][]int{{0}, {n - 1}, {n / 2}, {0, n - 1}, {0, 1, n / 2, n - 2, n - 1}} {
				n, same, at := n, same, at
				w.Case(func() string {
					return fmt.Sprintf("%d records in the ledger, few days %v; the file has those of %v and new ones", n, same, at)
				}, func(t *T) {
					var lr, fr []rec
					for i := 0; i < n; i++ {
						d := 20200101 + i%20
						if !same {
							d = 20000101 + (i/28)%12*100 + i%28 + i/336*10000
						}
						lr = append(lr, rec{d, fmt.Sprintf("payee %d", i*7919%n)})
					}
					for _, k := range at {
						fr = append(fr, lr[k], rec{lr[k].date, lr[k].payee + "b"})
					}
					for _, x := range [][2][]rec{{lr, fr}, {fr, lr}, {lr, lr}, {nil, lr}} {
						l := ledgerOf(x[0])
						f := w.write("f.json", jsonOf(x[1], 100))
						c := run(t, l, "--dedup=true", f)
						if c.err != nil {
							t.Failf("import fails: %v", c.err)
						}
						t.readAs(c.out, mbookOf(printed(keysOf(x[0]), x[1], 100, true, map[rec]bool{}), nil), "import")
					}
					t.Nontrivial(fmt.Sprint(n, same, at))
				})
			}
		}
	}

	w.Section("several files")
	nl, nf = 1, 2
	lists := [][]rec{}
	for b := 0; b <= nf; b++ {
		seqs(4, b, func(s []int) { lists = append(lists, pick(s)) })
	}
	for a := 0; a <= nl; a++ {
		seqs(4, a, func(sl []int) {
			lr := pick(sl)
			for _, f1 := range lists {
				for _, f2 := range lists {
					for k3 := -1; k3 < 4; k3++ {
						if w.Done() {
							return
						}
						f1, f2 := f1, f2
						var f3 []rec
						if k3 >= 0 {
							f3 = pool[k3 : k3+1]
							if !w.Thorough && len(f1)+len(f2) > 3 {
								continue
							}
						}
						w.Case(func() string {
							return fmt.Sprintf("ledger %s, files %s, %s, %s", name(lr), name(f1), name(f2), name(f3))
						}, func(t *T) {
							l := ledgerOf(lr)
							files := []string{w.write("f1.json", jsonOf(f1, 100)), w.write("f2.json", jsonOf(f2, 200))}
							if f3 != nil {
								files = append(files, w.write("f3.json", jsonOf(f3, 300)))
							}
							for _, dd := range []bool{true, false} {
								c := run(t, l, fmt.Sprintf("--dedup=%v", dd), files...)
								if c.err != nil {
									t.Failf("import fails: %v", c.err)
								}
								prev := map[rec]bool{}
								want := printed(keysOf(lr), f1, 100, dd, prev)
								want = append(want, printed(keysOf(lr), f2, 200, dd, prev)...)
								want = append(want, printed(keysOf(lr), f3, 300, dd, prev)...)
								t.readAs(c.out, mbookOf(want, nil), fmt.Sprintf("import, duplicate removal %v", dd))
								if dd {
									c2 := run(t, l+"\n"+c.out, "--dedup", files...)
									if c2.err != nil || strings.TrimSpace(c2.out) != "" {
										t.Failf("importing again: %s", c2)
									}
								}
							}
							t.Nontrivial(name(lr) + name(f1) + name(f2) + name(f3))
							t.Trace()
						})
					}
				}
			}
		})
	}

	w.Section("many files")
	seqs(4, 5, func(sl []int) {
		if w.Done() || len(sl) < 4 {
			return
		}
		fs := pick(sl)
		for _, lr := range [][]rec{nil, pool[:1]} {
			lr := lr
			w.Case(func() string { return fmt.Sprintf("ledger %s, one file each for %s", name(lr), name(fs)) }, func(t *T) {
				var files []string
				var want []MTxn
				prev := map[rec]bool{}
				for i, r := range fs {
					files = append(files, w.write(fmt.Sprintf("f%d.json", i), jsonOf([]rec{r}, 100*i+1)))
					want = append(want, printed(keysOf(lr), []rec{r}, 100*i+1, true, prev)...)
				}
				c := run(t, ledgerOf(lr), "--dedup", files...)
				if c.err != nil {
					t.Failf("import fails: %v", c.err)
				}
				t.readAs(c.out, mbookOf(want, nil), "import")
				t.Nontrivial(name(lr) + "|" + name(fs))
				t.Trace()
			})
		}
	})

	w.Section("histories of runs")
	steps := 3
	if w.Thorough {
		steps = 4
	}
	var fs [][]rec
	for b := 1; b <= 2; b++ {
		seqs(3, b, func(s []int) {
			var rs []rec
			for _, k := range s {
				rs = append(rs, pool[[]int{0, 2, 3}[k]])
			}
			fs = append(fs, rs)
		})
	}
	seqs(len(fs), steps, func(h []int) {
		if w.Done() {
			return
		}
		w.Case(func() string {
			var o []string
			for _, k := range h {
				o = append(o, name(fs[k]))
			}
			return "runs " + strings.Join(o, ", then ")
		}, func(t *T) {
			l := ""
			have := map[rec]bool{}
			var all []MTxn
			for i, k := range h {
				c := run(t, l, "--dedup", w.write("f.json", jsonOf(fs[k], 100*(i+1))))
				if c.err != nil {
					t.Failf("run %d fails: %v", i, c.err)
				}
				prev := map[rec]bool{}
				want := printed(have, fs[k], 100*(i+1), true, prev)
				t.readAs(c.out, mbookOf(want, nil), fmt.Sprintf("run %d", i))
				for x := range prev {
					have[x] = true
				}
				all = append(all, want...)
				l += c.out
				t.readAs(l, mbookOf(all, nil), fmt.Sprintf("ledger after run %d", i))
			}
			t.Nontrivial(fmt.Sprint(h))
			t.Trace()
		})
	})
}
