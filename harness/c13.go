//go:build verifmc

package main

import (
	"fmt"
	"strings"
	"unicode"
)

func init() {
	register(&Prop{ID: "C13", Level: "exploration", Fresh: true,
		Rule:        "every payee, note, currency and amount spelling over the character alphabets up to the stated lengths, and every operation sequence up to the depth bound on the start books, in every display language: the Ledger export is read by an independent reader and by the real loader, both have to give the exact book (operations applied by the reference model), and exporting again has to reproduce the text",
		Assumptions: []string{"amounts with a finite decimal form, accounts and currencies that can be written in the format", "where postings are merged one of their notes is kept"},
		Run:         runC13})
}

var langs = []string{"en", "de", "fr", "nl", "", "en_GB.UTF-8", "xx", "sv"}

// writable tells whether the book can be written in the file format at all.
func writable(m *MBook) bool {
	ccyOK := func(c string) bool {
		return c != "" && !strings.ContainsAny(c, "\"\n\r") && strings.TrimSpace(c) != ""
	}
	for _, p := range m.Posts {
		if p.Acct == "" || decimalsOf(p.Val) < 0 || !ccyOK(p.CCY) {
			return false
		}
		for _, r := range p.Acct {
			if !(r < 128 && (unicode.IsLetter(r) || unicode.IsDigit(r)) || strings.ContainsRune("&':_", r)) {
				return false
			}
		}
	}
	for k, l := range m.Prices {
		if !ccyOK(k[0]) || !ccyOK(k[1]) {
			return false
		}
		for _, p := range l {
			if decimalsOf(p.Val) < 0 {
				return false
			}
		}
	}
	return true
}

// sameBook compares two books of the model; notes of want are the allowed ones.
func sameBook(got, want *MBook) string {
	for i := 0; i < len(got.Posts) || i < len(want.Posts); i++ {
		if i >= len(got.Posts) {
			return "posting " + mpost(want.Posts[i]) + " is missing"
		}
		if i >= len(want.Posts) {
			return "extra posting " + mpost(got.Posts[i])
		}
		g, x := got.Posts[i], want.Posts[i]
		if mpost(g) != mpost(x) {
			return "posting " + mpost(g) + " should be " + mpost(x)
		}
		for _, n := range g.Notes {
			if !member(n, x.Notes) {
				return fmt.Sprintf("posting %s has note %q, should be one of %q", mpost(g), n, x.Notes)
			}
		}
		for _, n := range g.TNotes {
			if !member(n, x.TNotes) {
				return fmt.Sprintf("transaction of %s has note %q, should be one of %q", mpost(g), n, x.TNotes)
			}
		}
	}
	if a, b := got.canonPrices(), want.canonPrices(); a != b {
		return fmt.Sprintf("prices are\n%s should be\n%s", a, b)
	}
	return ""
}

// roundTrip exports the ledger text after the operations and checks what comes back.
func roundTrip(t *T, text string, ops []Op, lang string) bool {
	w := t.w
	m, _, bad := refParse(map[string]string{"m.ledger": text}, "m.ledger")
	if bad != "" {
		t.Outcome("not a ledger")
		return false
	}
	args := []string{"-l", w.write("m.ledger", text), "--lang", lang, "export", "--type", "Ledger"}
	for _, o := range ops {
		o.Model(m)
		args = append(args, o.Text)
	}
	if !writable(m) {
		t.Outcome("outside the domain")
		return false
	}
	t.State(m.canonAll())
	out := w.cli("", args...)
	if out.err != nil {
		t.Failf("export fails: %v", out.err)
	}
	got, _, bad := refParse(map[string]string{"e.ledger": out.out}, "e.ledger")
	if bad != "" {
		t.Failf("the export is not a ledger file: %s\n%s", bad, out.out)
	}
	if d := sameBook(got, m); d != "" {
		t.Failf("the export says something else: %s\n%s", d, out.out)
	}
	b, err := w.loadText(out.out)
	if err != nil {
		t.Failf("the export is refused: %v\n%s", err, out.out)
	}
	if d := diffBook(b, got); d != "" {
		t.Failf("the export loads as something else: %s\n%s", d, out.out)
	}
	// from the loaded export on, the text is stable; its numbers may lose trailing zeroes once
	prev := out.out
	for round := 0; round < 2; round++ {
		again := w.cli("", "-l", w.write("e.ledger", prev), "--lang", lang, "export")
		if again.err != nil {
			t.Failf("exporting the export fails: %v", again.err)
		}
		if round == 1 && again.out != prev || round == 0 && trimZeroes(again.out) != trimZeroes(prev) {
			t.Failf("exporting the export gives another text:\n%s\nfirst:\n%s", again.out, prev)
		}
		prev = again.out
	}
	t.Trans(3)
	t.Trace()
	return true
}

// trimZeroes rewrites the number at the end of each posting and price line without trailing zeroes.
func trimZeroes(s string) string {
	ls := strings.Split(s, "\n")
	for i, l := range ls {
		head, note := l, ""
		if strings.HasPrefix(l, "  ") {
			for j := 0; j < len(l); j++ { // a currency with a semicolon is quoted
				if l[j] == '"' {
					k := strings.IndexByte(l[j+1:], '"')
					if k < 0 {
						break
					}
					j += k + 1
				} else if l[j] == ';' {
					head, note = l[:j], l[j:]
					break
				}
			}
		} else if !strings.HasPrefix(l, "P ") {
			continue
		}
		head = strings.TrimRight(head, " ")
		k := len(head)
		for k > 0 && (head[k-1] >= '0' && head[k-1] <= '9' || head[k-1] == '.') {
			k--
		}
		if strings.Contains(head[k:], ".") {
			head = strings.TrimRight(strings.TrimRight(head, "0"), ".")
		}
		ls[i] = head + note
	}
	return strings.Join(ls, "\n")
}

// words calls f for every string of length 0..n over the alphabet.
func words(alpha []string, n int, f func(s string)) {
	f("")
	seqs(len(alpha), n, func(s []int) {
		x := ""
		for _, i := range s {
			x += alpha[i]
		}
		f(x)
	})
}

func runC13(w *W) {
	one := func(text string, lang string) {
		w.Case(func() string { return fmt.Sprintf("language %q, ledger:\n%s", lang, text) }, func(t *T) {
			if roundTrip(t, text, nil, lang) {
				t.Nontrivial(text)
			}
		})
	}

	w.Section("payees")
	pa := []string{"a", " ", "\"", ";", "*", "'", "!", "\\", "é", "\t", "(2)", "%", "=", "/"}
	n := 3
	if w.Thorough {
		n = 4
	}
	posts := "  A  1.25 USD\n  B  -1.25 USD\n"
	words(pa, n, func(s string) {
		one("2020/01/02 "+s+"\n"+posts, "en")
		one("2020/01/02 * "+s+" ; tn\n"+posts, "de")
		one("2020/01/02 "+s+" ; tn\n"+posts, "de")
		if !strings.Contains(s, "\"") {
			one("2020/01/02 \""+s+"\"\n"+posts, "en")
			one("2020/01/02 * \""+s+"\" ; tn\n"+posts+"2020/01/02 \""+s+"\"\n"+posts+"2020/01/02 \""+s+"\"\n"+posts, "nl")
		}
	})

	w.Section("notes")
	na := []string{"a", " ", "\"", ";", "=", "\\", "é", "\t", "%", "@", "-1"}
	words(na, n, func(s string) {
		one("2020/01/02 p ; "+s+"\n  A  1.25 USD ;"+s+"x\n  B  -1.25 USD ; "+s+"\n", "en")
		one("2020/01/02 ;"+s+"\n  A  \";\" 1.25 ;; "+s+"\n  B  -1.25 \";\"\n", "en")
	})

	w.Section("currencies")
	ca := []string{"A", "a", "$", "€", " ", "\"", "1", "-", ".", ";", "@", "'", ",", "=", "*", "!", "(", "]", "%", "/", ":"}
	cn := 2
	if w.Thorough {
		cn = 3
	}
	words(ca, cn, func(s string) {
		forms := []string{s}
		if !strings.Contains(s, "\"") {
			forms = append(forms, "\""+s+"\"")
		}
		for _, f := range forms {
			for _, l := range []string{"en", "fr"} {
				one("2020/01/02 p\n  A  "+f+" 1.25\n  B  -1.25 "+f+" ; n\n", l)
				one("2020/01/02 p\n  A  1.25 "+f+"\n  B  -1.25 "+f+"\nP 2020/01/02 00:00:00 "+f+" USD 0.5\nP 2020/01/02 0:0:0 X "+f+" -0.5\n", l)
				one("P 2020/01/02 00:00:00 "+f+" 0.123 "+f+"\n", l)
			}
		}
	})

	w.Section("accounts")
	words([]string{"A", "z", "9", ":", "_", "&", "'"}, n, func(s string) {
		one("2020/01/02 p\n  "+s+"  1.25 USD\n  X:"+s+"  -1.25 USD\n", "en")
	})

	w.Section("amounts and languages")
	var amts []string
	for _, i := range []string{"0", "1", "12", "999", "1000", "1234567", "123456789012345678", "9007199254740993", "100000000000000000000000000"} {
		for _, f := range []string{"", ".5", ".05", ".25", ".125", ".000001", ".0000001", ".123456789012345678", ".9999999999999999999", ".10"} {
			amts = append(amts, i+f)
		}
	}
	neg := func(s string) string { return "-" + s }
	for _, l := range langs {
		for _, a := range amts {
			one("2020/01/02 p\n  A  "+a+" USD\n  B  "+neg(a)+" USD\n", l)
			one("2020/01/02 p\n  A  $"+neg(a)+"\n  B  $"+a+"\n2020/01/03 p\n  A  $0.125\n  B  $-0.125\n", l)
			one("P 2020/01/02 00:00:00 X USD "+a+"\nP 2020/01/03 00:00:00 X USD "+neg(a)+"\nP 2020/01/03 00:00:00 X USD 1\n2020/01/02 p\n  A  7.1 USD\n  B  -7.1 USD\n", l)
		}
		for i, a := range amts {
			for j, b := range amts {
				if (i+j)%7 == 0 || w.Thorough {
					one("2020/01/02 p\n  A  "+a+" USD\n  A  "+b+" EUR\n  B  "+neg(a)+" USD\n  B  "+neg(b)+" EUR\n0001/01/01 q\n  A:B  "+b+" USD\n  B  "+neg(b)+" USD\n", l)
				}
			}
		}
	}

	w.Section("operation sequences")
	ops := opAlphabet()
	depth := 2
	if w.Thorough {
		depth = 3
	}
	quoted := start{"odd names", []MTxn{
		noted(tx(20200115, "\"a;b\"", ln("A", "1.5", "\"A 1\""), ln("E:C", "-1.5", "\"A 1\"")), "; t", "x ; y", "=z"),
		tx(20200115, "\"a;b\"", ln("A", "2", "$"), ln("E:C", "-2", "$")),
		tx(20200115, "*x", ln("A", "2", "€"), ln("E:C", "-2", "€")),
	}, []mprice{pr(20200101, "\"A 1\"", "€", "0.123")}}
	for _, s := range append(startBooks(), quoted) {
		s := s
		text := ledgerText(s.ts, priceLines(s.prices))
		run := func(seq []Op, lang string) {
			w.Case(func() string { return seqDesc(s, seq)() + " language " + lang }, func(t *T) {
				if roundTrip(t, text, seq, lang) {
					t.Nontrivial(s.name + strings.Join(opTexts(seq), " "))
				}
			})
		}
		for _, l := range langs {
			run(nil, l)
		}
		eachSeq(ops, depth, func(seq []Op) {
			if w.Done() {
				return
			}
			run(seq, langs[len(seq[0].Text)%3])
		})
	}
}
