//go:build verifmc

package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

func init() {
	register(&Prop{ID: "C01", Level: "exploration",
		Rule:        "every ledger of the enumerated grammar (amount and currency spellings x order x spacing x notes x line ends, header spellings, all small transaction shapes with elision, alias/include/price programs over nested files, size sweeps) is written to disk, loaded through App.LoadBook and compared with what the generator meant; non-trivial: loads and has at least one posting or price; distinct by file contents",
		Assumptions: []string{"which note survives when postings merge is not specified", "the time of day and '@' price are not kept (documented limits of the format)"},
		Run:         runC01})
}

// diffLoad loads the files and compares with the reference reading.
func diffLoad(t *T, files map[string]string, main string) (ok bool, txns []MTxn, m *MBook) {
	w := t.w
	m, txns, errs := refParse(files, main)
	b, err := w.loadFiles(files, main)
	t.Trans(1)
	if errs != "" {
		t.Outcome("refused")
		if err == nil {
			t.Failf("accepted although: %s; loaded as:\n%s", errs, clip(modelOf(b).canon(), 800))
		}
		if b != nil {
			t.Failf("an error and a book at the same time")
		}
		return false, nil, nil
	}
	if err != nil {
		t.Failf("refused: %v", err)
	}
	if d := diffBook(b, m); d != "" {
		t.Failf("%s", d)
	}
	t.Outcome("loaded")
	return true, txns, m
}

func filesDesc(files map[string]string) func() string {
	return func() string {
		var ns []string
		for n := range files {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		var sb strings.Builder
		for _, n := range ns {
			fmt.Fprintf(&sb, "%s: %q ", n, clip(files[n], 3000))
		}
		return strings.TrimSpace(sb.String())
	}
}

func (w *W) loadCase(files map[string]string, must bool) {
	w.Case(filesDesc(files), func(t *T) {
		ok, txns, m := diffLoad(t, files, "m.ledger")
		if must && !ok {
			t.Failf("harness: the reference reading refuses a well-formed file")
		}
		if ok && (len(m.Posts) > 0 || len(m.Prices) > 0 || len(txns) > 0) {
			t.Nontrivial(m.canon() + files["m.ledger"])
		}
	})
}

type spelled struct {
	text string
	val  *big.Rat
}

func amountSpellings(thorough bool) []spelled {
	ints := []string{"", "0", "5", "00", "12", "007", "1,234", "1234567890", "999999999999999999", "9223372036854775807", "9223372036854775808", "18446744073709551617", "123456789012345678901234567890", "1,2,3", "5,"}
	fracs := []string{"-", "", "0", "5", "05", "50", "25", "125", "000001", "000000000000000001", "1234567890123456789012345", "1,5"}
	var out []spelled
	for _, i := range ints {
		for _, f := range fracs {
			s := i
			digits := strings.ReplaceAll(i, ",", "")
			fd := ""
			if f != "-" {
				s += "." + f
				fd = strings.ReplaceAll(f, ",", "")
			}
			if digits+fd == "" {
				continue
			}
			v := new(big.Rat)
			v.SetString("0" + digits + "." + fd + "0")
			out = append(out, spelled{s, v})
		}
	}
	return out
}

type ccySpelling struct{ text, val string }

var ccySpellings = []ccySpelling{{"USD", "USD"}, {"$", "$"}, {`"A B"`, "A B"}, {"€", "€"}, {"a_b", "a_b"}, {`"1x"`, "1x"}, {"X'Y", "X'Y"}, {"G/T", "G/T"}, {"(U)", "(U)"}, {`"-"`, "-"}, {"%", "%"}, {"usd", "usd"}}

func runC01(w *W) {
	amts := amountSpellings(w.Thorough)

	w.Section("amount and currency spellings")
	type ctx struct{ indent, pre, post, eol string }
	var ctxs []ctx
	for _, in := range []string{"  ", "\t", " "} {
		for _, pr := range []string{"", " @ 2 EUR", "@2.5EUR", " @ $3", " @ -4 EUR", " @ $0", "@ $-1.5"} {
			for _, n := range []string{"", " ; n", ";n t", " ;"} {
				for _, e := range []string{"\n", "\r\n", " \n"} {
					ctxs = append(ctxs, ctx{in, pr, n, e})
				}
			}
		}
	}
	for ai, a := range amts {
		for ci, c := range ccySpellings {
			for _, first := range []bool{false, true} {
				for _, sp := range []string{"", " ", "\t", "  ", "\u00a0"} {
					for _, sign := range []string{"", "-", "x-", "-x-"} {
						for xi, x := range ctxs {
							if !w.Thorough && xi != (ai*7+ci*3)%len(ctxs) && !(ai < 3 && ci < 3 && (sp == " ")) {
								continue
							}
							if w.Thorough && xi%3 != (ai+ci)%3 {
								continue
							}
							if first && strings.HasSuffix(a.text, ",") && strings.HasPrefix(x.eol, "") && a.text == "" {
								continue
							}
							a, c, first, sp, sign, x := a, c, first, sp, sign, x
							neg := sign == "-" || sign == "x-"
							inner, outer := "", ""
							if sign == "x-" || sign == "-x-" {
								inner = "-"
							}
							if sign == "-" || sign == "-x-" {
								outer = "-"
							}
							var body string
							if first {
								if c.text == "a_b" && false {
									continue
								}
								if strings.HasPrefix(a.text, ",") {
									continue
								}
								body = outer + c.text + sp + inner + a.text
							} else {
								body = outer + inner + a.text + sp + c.text
							}
							note := ""
							if i := strings.IndexByte(x.post, ';'); i >= 0 {
								note = strings.TrimLeft(x.post[i+1:], " ")
								if x.eol == " \n" && note != "" {
									note += " "
								}
							}
							v := new(big.Rat).Set(a.val)
							if neg {
								v.Neg(v)
							}
							text := "2021/02/03 P" + x.eol + x.indent + "Acc:One" + x.indent + body + x.pre + x.post + x.eol + x.indent + "Other" + x.eol
							w.Case(func() string { return fmt.Sprintf("m.ledger: %q", text) }, func(t *T) {
								_, txns, m := diffLoad(t, map[string]string{"m.ledger": text}, "m.ledger")
								// what the generator meant
								if len(txns) != 1 || len(txns[0].Posts) != 2 || txns[0].Posts[0].Amt == nil || txns[0].Posts[0].Amt.Cmp(v) != 0 || txns[0].Posts[0].CCY != c.val || txns[0].Posts[0].Note != note || txns[0].Posts[1].Amt != nil {
									t.Failf("harness: the reference reading disagrees with the generator: %+v", txns)
								}
								if v.Sign() != 0 {
									t.Nontrivial(m.canon() + text)
								}
							})
						}
					}
				}
			}
		}
	}

	w.Section("transaction headers")
	for _, d := range []struct {
		s string
		v int
	}{{"2020/01/02", 20200102}, {"2020/1/2", 20200102}, {"2020/02/29", 20200229}, {"20/1/2", 200102}, {"9999/12/31", 99991231}, {"0001/01/01", 10101}, {"1900/02/28", 19000228}, {"2000/2/29", 20000229}, {"2021/4/30", 20210430}} {
		for _, flag := range []string{" ", " * ", "*", " *", "\t", "  *\t", ""} {
			for _, py := range []struct{ s, v string }{{"Shop", "Shop"}, {"A B  C", "A B  C"}, {`"Q ; r"`, "Q ; r"}, {`"  sp "`, "sp"}, {"", ""}, {`""`, ""}, {"ünïcode €", "ünïcode €"}, {"x\ufeffy", "x\ufeffy"}, {"\u200bz\u00ad", "\u200bz\u00ad"}, {"(12) x", "(12) x"}, {`a "b" c`, `a "b" c`}, {"! y", "! y"}, {"=x", "=x"}, {"A/B@C", "A/B@C"}, {"x\ty", "x\ty"}, {"Zed (2)", "Zed (2)"}} {
				if (flag == "" || flag == "*" || flag == " *") && (py.s != "" && py.s[0] >= '0' && py.s[0] <= '9') {
					continue
				}
				for _, note := range []struct{ s, v string }{{"", ""}, {" ; no\ufeffte\u200d", "no\ufeffte\u200d"}, {" ; note", "note"}, {";n", "n"}, {" ;  two  words; more", "two  words; more"}, {" ;", ""}, {"  ", ""}} {
					for _, eol := range []string{"\n", "\r\n"} {
						text := d.s + flag + py.s + note.s + eol + "  A 1 X" + eol + "  B" + eol
						d, py, note := d, py, note
						w.Case(func() string { return fmt.Sprintf("m.ledger: %q", text) }, func(t *T) {
							_, txns, _ := diffLoad(t, map[string]string{"m.ledger": text}, "m.ledger")
							if len(txns) != 1 || txns[0].Date != d.v || txns[0].Payee != py.v || txns[0].Note != note.v {
								t.Failf("harness: the reference reading disagrees with the generator: %+v", txns)
							}
							t.Nontrivial(text)
						})
					}
				}
			}
		}
	}

	w.Section("texts in every place")
	{
		toks := []string{"a", "B", " ", "  ", "\t", "\r", ";", "\"", "@", "=", "*", "(2)", "\u00e9", "\ufeff", "0", "/", "\\", "'", "-", "\u00a0", "[", "!"}
		places := []string{"2020/01/02 %s\n  A 1 X\n  B\n", "2020/01/02 \"%s\"\n  A 1 X\n  B\n", "2020/01/02 p ;%s\n  A 1 X\n  B\n", "2020/01/02 p\n  A 1 X ;%s\n  B\n", "2020/01/02 p\n  A 1 X\n  B ; %s\n", "2020/01/02 p\n  A 1 \"%s\"\n  B\n", "2020/01/02 p\n  A%s 1 X\n  B\n", "P 2020/01/01 0:0:0 \"%s\" 5 X ;%[1]s\n2020/01/02 p\n  A 1 X\n  B\n", "2020/01/02 p\n;%s\n  A 1 X\n  ;%[1]s\n  B\n%[1]s", "alias Q%s = R\n2020/01/02 p\n  Q%[1]s 1 X\n  Q\n"}
		n := 3
		if w.Thorough {
			n = 4
		}
		seqs(len(toks), n, func(ix []int) {
			if w.Done() {
				return
			}
			txt := ""
			for _, i := range ix {
				txt += toks[i]
			}
			for _, pl := range places {
				w.loadCase(map[string]string{"m.ledger": fmt.Sprintf(pl, txt)}, false)
			}
		})
	}

	w.Section("transaction shapes")
	{
		alpha := []string{"A 1 X", "A -1 X", "B 1 X", "B -2 X", "A 1 Y", "B -1 Y", "C", "A:B 1 X ; n1", "C ; n2", "A -3 Y ; n3"}
		max := 4
		if w.Thorough {
			max = 5
		}
		var rec func(ls []string)
		rec = func(ls []string) {
			if w.Done() {
				return
			}
			text := "2020/01/01 p ; tn\n"
			for _, l := range ls {
				text += "  " + l + "\n"
			}
			w.loadCase(map[string]string{"m.ledger": text}, false)
			if len(ls) < max {
				for _, a := range alpha {
					rec(append(ls[:len(ls):len(ls)], a))
				}
			}
		}
		rec(nil)
	}

	w.Section("transaction sequences")
	{
		tx := []string{
			"2020/01/02 p\n  A 1 X\n  B -1 X\n", "2020/01/02 p ; t\n  A 2 X\n  C\n", "2020/01/01 q\n  A 1 X\n  B 1 Y\n  C\n",
			"2020/01/02 p (2)\n  D 5 X\n  B -5 X\n", "2020/01/01 p\n  A 0 X\n", "2020/01/02 \"p\"\n", "2020/01/03 P\n  A -3 X\n  A 1 X ; n\n  B 2 X\n", "2019/12/31 p (3)\n  A .5 X\n  B\n", "2020/01/02\n  A 9 X\n  B\n", "2020/01/02 (2)\n  A 11 X\n  B\n"}
		n := 4
		if w.Thorough {
			n = 5
		}
		seqs(len(tx), n, func(s []int) {
			text := ""
			for _, i := range s {
				text += tx[i]
			}
			w.loadCase(map[string]string{"m.ledger": text}, true)
		})
	}

	w.Section("alias, include and price programs")
	{
		lines := []string{"alias a=Long:One", "alias a = b", "alias b=Deep:Two ; c", "include c1", "include \"sub/c2\"", "include sub/deep/c3", "2020/01/01 t", "  a 1 X\n  b", "  a", "  [b] 2 X\n  !a", "P 2020/01/01 0:0:0 X Y 2", "P 2020/02/01 10:20:30 \"X\" $1.5 ; c", "; comment", "D $1,000", "= /x/"}
		kids := map[string]string{"c1": "2021/01/01 c1\n  a 5 X\n  b\n", "sub/c2": "alias a=Child\ninclude ../c1\n2021/02/02 c2\n  a 3 X\n  b -3 X\ninclude c4\n", "sub/c4": "alias b=Four\n  a 1 Z\n  b\n", "sub/deep/c3": "alias b=Three\nP 2020/01/05 1:1:1 X Z 3\ninclude ../c2\ninclude ../../c1"}
		n := 3
		if w.Thorough {
			n = 5
		}
		cnt := 0
		seqs(len(lines), n, func(s []int) {
			if w.Thorough && len(s) == 5 {
				// the longest programs must use an include
				inc := false
				for _, i := range s {
					inc = inc || (i >= 3 && i <= 5)
				}
				if !inc {
					return
				}
			}
			text := ""
			for _, i := range s {
				text += lines[i] + "\n"
			}
			cnt++
			f := map[string]string{"m.ledger": text}
			for k, v := range kids {
				f[k] = v
			}
			w.loadCase(f, false)
		})
		// programs that start inside a transaction
		seqs(len(lines), n-1, func(s []int) {
			text := "2019/01/01 t0\n  a 7 X\n"
			for _, i := range s {
				text += lines[i] + "\n"
			}
			text += "  Bal\n"
			f := map[string]string{"m.ledger": text}
			for k, v := range kids {
				f[k] = v
			}
			w.loadCase(f, false)
		})
	}

	w.Section("prices")
	{
		for _, sp := range []string{" ", "  ", "\t"} {
			for _, a := range amts {
				for ci, c := range ccySpellings {
					for fi, first := range []bool{false, true} {
						u := ccySpellings[(ci+3)%len(ccySpellings)]
						for _, tm := range []string{"00:00:00", "1:2:3", "23:59:59"} {
							for _, end := range []string{"", " ", " ; c", "\r"} {
								if !w.Thorough && (fi+len(tm)+len(end)+ci)%3 != 0 {
									continue
								}
								body := a.text + sp + c.text
								if first {
									body = c.text + sp + a.text
								}
								w.loadCase(map[string]string{"m.ledger": "P" + sp + "2020/02/29" + sp + tm + sp + u.text + sp + body + end + "\nP 2019/01/01 0:0:0 " + u.text + " 7 " + c.text + "\n2020/01/01 p\n  A 1 X\n  B\n"}, true)
							}
						}
					}
				}
			}
		}
		// recording order
		ps := []string{"P 2020/01/01 0:0:0 X Y 1", "P 2020/01/03 0:0:0 X Y 3", "P 2020/01/02 0:0:0 X Y 2", "P 2020/01/02 0:0:0 Y X 5", "P 2019/01/01 0:0:0 X Z -1"}
		seqs(len(ps), 4, func(s []int) {
			text := ""
			for _, i := range s {
				text += ps[i] + "\n"
			}
			w.loadCase(map[string]string{"m.ledger": text}, true)
		})
	}

	w.Section("accounts")
	for _, a := range []string{"A", "a:b", "A1", "1A", "A&B", "O'N", "A_B", "::", "A:", ":A", "[A]", "!A", "[A", "A]", "A1b&2", "Z9:Y8:X7:W6:V5", strings.Repeat("Long:", 60) + "x", "A''b", "9", "a9&'b:c_d"} {
		for _, rest := range []string{" 1 X", "\t1 X", "  X1", " -1 X", " $1", ";n", "", " ", "  ; n", "\u00a01 X"} {
			w.loadCase(map[string]string{"m.ledger": "2020/01/01 p\n Start 1 X\n " + a + rest + "\n Bal\n"}, true)
		}
	}

	w.Section("size sweeps")
	for n := 1; n <= 40; n++ {
		// n transactions in reverse date order, n postings each, n repeated payees
		var a, b, c, d strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&a, "%04d/%02d/%02d p%d ; t%d\n  A%d  %d.%02d X ; n%d\n  B\n", 2030-i/12, 12-i%12, 1+i%28, i, i, i, i, i, i)
			fmt.Fprintf(&c, "2020/01/01 same ; t%d\n  A %d X ; n%d\n  B\n", i, i+1, i)
		}
		b.WriteString("2020/01/01 big\n")
		d.WriteString("2020/01/01 many ccy\n")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "  A%02d  %d X ; n%d\n", (i*7)%n, i+1, i)
			fmt.Fprintf(&d, "  A  %d C%c%c ; n%d\n", i+1, 'a'+i%26, 'a'+i/26, i)
		}
		b.WriteString("  Bal\n")
		d.WriteString("  Bal ; all\n")
		for _, s := range []string{a.String(), b.String(), c.String(), d.String()} {
			w.loadCase(map[string]string{"m.ledger": s}, true)
		}
	}
	for _, n := range []int{50, 100, 199, 200, 201, 250, 300, 500} {
		var a, b strings.Builder
		b.WriteString("2020/01/01 big\n")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&a, "%04d/%02d/%02d p%d\n  Acc:%d  %d.5 X\n  B\n", 2000+(i*13)%50, 1+i%12, 1+i%28, i%7, i%11, i)
			fmt.Fprintf(&b, "  A%03d  %d.25 X ; n%d\n", (i*37)%n, i+1, i)
		}
		b.WriteString("  Bal\n")
		w.loadCase(map[string]string{"m.ledger": a.String()}, true)
		w.loadCase(map[string]string{"m.ledger": b.String()}, true)
	}
	// many of everything else
	ns := []int{64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257}
	for n := 1; n <= 40; n++ {
		ns = append(ns, n)
	}
	if w.Thorough {
		ns = append(ns, 300, 500, 512, 513, 1000, 1024, 1025)
	}
	for _, n := range ns {
		// one below the other, and side by side
		deep := map[string]string{}
		wide := map[string]string{}
		var main strings.Builder
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("f%d", i)
			if i == 0 {
				name = "m.ledger"
			}
			deep[name] = fmt.Sprintf("alias x%d=Level:%d\n2020/01/01 before %d\n  x%d %d X\n  x0\ninclude f%d\n2020/01/01 after %d\n  x%d %d X\n  x%d\n", i, i, i, i, i+1, i+1, i, i, i+2, i/2)
			wide[fmt.Sprintf("d%d/f", i)] = fmt.Sprintf("alias a=Own:%d\n2020/01/01 in %d\n  a %d X\n  b\n", i, i, i+1)
			fmt.Fprintf(&main, "include d%d/f\n", (i*7)%n)
			wide[fmt.Sprintf("d%d/f", (i*7)%n)] = fmt.Sprintf("alias a=Own:%d\n2020/01/01 in %d\n  a %d X\n  b\n", i, i, i+1)
		}
		deep[fmt.Sprintf("f%d", n)] = "2020/01/02 last\n  x0 1 X\n  y\n"
		main.WriteString("2020/01/01 main\n  a 1 X\n  b\n")
		wide["m.ledger"] = main.String()
		if n <= 257 {
			w.loadCase(deep, true)
		}
		w.loadCase(wide, true)
		var al, pr, bl, di strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&al, "alias s%d=Full:Name:%d\n", i, i)
			fmt.Fprintf(&pr, "P 2020/01/%02d 0:0:0 U%c%c V%c %d.5\n", 1+i%28, 'a'+i%26, 'a'+i/26%26, 'a'+(i/5)%26, i+1)
			bl.WriteString([]string{"\n", "; c\n", " \n", "\t\n"}[i%4])
			fmt.Fprintf(&di, "2020/%02d/%02d p\n  A -%d.%s X\n  B\n", 1+i%12, 1+i%28, i, strings.Repeat("9", i%60+1))
		}
		for i := 0; i < n; i++ {
			fmt.Fprintf(&al, "2020/01/01 t%d\n  s%d %d X\n  s%d\n", i, (i*3)%n, i+1, (i*3+1)%n+n/2)
		}
		for _, s := range []string{al.String(), pr.String(), di.String(), bl.String() + "2020/01/01 p\n" + bl.String() + "  A 1 X\n" + bl.String() + "  B\n" + bl.String() + "2020/01/02 q\n  A 2 X\n  B\n"} {
			w.loadCase(map[string]string{"m.ledger": s}, !strings.Contains(s, "\n\n") && !strings.Contains(s, "\n;"))
		}
	}
	w.Section("long lines")
	for _, n := range []int{1, 100, 1000, 4000, 4090, 4094, 4095, 4096, 4097, 4098, 4100, 8191, 8192, 8193, 20000, 70000} {
		pad := strings.Repeat("x", n)
		digits := strings.Repeat("7", n)
		w.loadCase(map[string]string{"m.ledger": "2020/01/01 " + pad + " ; " + pad + "\n  A 1 X ; " + pad + "\n  B\n"}, true)
		w.loadCase(map[string]string{"m.ledger": ";" + pad + "\r\n2020/01/01 p\r\n  A 1 X ; e\r\n  B\r\n"}, true)
		w.loadCase(map[string]string{"m.ledger": ";" + pad + "é\n2020/01/01 pé\n  A 1 €\n  B\n"}, true)
		w.loadCase(map[string]string{"m.ledger": "2020/01/01 p\n  A " + digits + "." + digits + " X\n  B\n"}, true)
		w.loadCase(map[string]string{"m.ledger": "2020/01/01 p\n  A" + strings.Repeat(":b", n/2) + " 1 X\n" + strings.Repeat("\n", n) + "  B\n"}, true)
	}
}

// seqs calls f for every sequence of length 1..n over 0..k-1, shortest first.
func seqs(k, n int, f func(s []int)) {
	for l := 1; l <= n; l++ {
		s := make([]int, l)
		for {
			f(s)
			i := l - 1
			for i >= 0 {
				s[i]++
				if s[i] < k {
					break
				}
				s[i] = 0
				i--
			}
			if i < 0 {
				break
			}
		}
	}
}
