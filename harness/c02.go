//go:build verifmc

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

func init() {
	register(&Prop{ID: "C02", Level: "fault_enumeration",
		Rule:        "every string up to a length over an alphabet of the characters the reader distinguishes, in every syntactic context; every single-byte truncation, deletion, insertion, replacement and every line deletion, duplication and swap in well-formed ledgers; every unbalanced perturbation at every transaction; every day/month combination; include faults and cycles. Each is loaded through App.LoadBook: it must be refused exactly when an independent strict reading refuses it, and otherwise have exactly the contents of that reading. Non-trivial: the text is not blank; distinct by text",
		Assumptions: []string{"bytes that are not UTF-8 are read as U+FFFD", "lines starting with 'D' or '=' and balance assertions are skipped by design", "reading the file itself does not fail half-way"},
		Run:         runC02})
}

func (w *W) faultCase(text string) {
	w.Case(func() string { return fmt.Sprintf("m.ledger: %q", clip(text, 3000)) }, func(t *T) {
		ok, _, _ := diffLoad(t, map[string]string{"m.ledger": text}, "m.ledger")
		if strings.TrimSpace(text) != "" {
			t.Nontrivial(fmt.Sprint(ok) + text)
		}
	})
}

func allStrings(alpha []string, n int, f func(s string)) {
	f("")
	for l := 1; l <= n; l++ {
		idx := make([]int, l)
		for {
			s := ""
			for _, i := range idx {
				s += alpha[i]
			}
			f(s)
			i := l - 1
			for i >= 0 {
				idx[i]++
				if idx[i] < len(alpha) {
					break
				}
				idx[i] = 0
				i--
			}
			if i < 0 {
				break
			}
		}
	}
}

var faultBases = []string{
	"alias a=Long:One\nP 2020/01/01 00:00:00 X Y 1.5\n2020/02/29 * Shop ; note\n  a  -1,000.50 USD @ 2 EUR ; pn\n  Bank:Main 1000.50 USD\n",
	"2020/01/01 \"Q;x\"\n\tA 1 X\n\tB\n\n2020/01/02 r ; t\n  [A] $-5\n  !B $5 = $10\n; comment\nP 2020/1/1 1:2:3 \"A B\" $1.5 ; c\n",
	"D $1,000.00\n= /x/\n2020/01/01 p\r\n  A 1 X\r\n  A -1 X ; n\r\n2019/12/31 p\r\n  C 1 X\r\n  C 2 Y\r\n  D\r\n",
	"2020/01/01 é€\n  A 1 €\n  B -1 €\n2020/01/01 é€\n  A 12345678901234567890.123 €\n  B",
	"include kid\n2020/01/01 a\n  A 1 X\nalias B=C\n  B\ninclude \"kid\"\n  A 2 X\n  A -2 X\n",
}

func runC02(w *W) {
	kid := "2021/05/05 kid\n  K 1 X\n  L -1 X\n"
	os.WriteFile(filepath.Join(w.Scratch, "kid"), []byte(kid), 0644)

	alpha := []string{"a", "1", " ", "\n", ";", "\"", "-", ".", ",", "@", "=", "/", ":", "P", "*", "[", "]", "$", "\r", "\x00", "é", "\xff", "0", "\t", "!", "D"}
	ctxs := []struct{ name, pre, post string }{
		{"whole file", "", ""},
		{"behind a header date", "2020/01/01", "\n  A 1 X\n  B\n"},
		{"posting behind the account", "2020/01/01 p\n  A 1 X\n  B", "\n"},
		{"posting line", "2020/01/01 p\n ", "\n  A 1 X\n  A -1 X\n"},
		{"posting amount at the end of the file", "2020/01/01 p\n A 1 X\n B -1 ", ""},
		{"price behind the time", "P 2020/01/01 0:0:0", "\n"},
		{"price line", "P", "\n"},
		{"between transactions", "2020/01/01 p\n A 1 X\n B\n", "2020/01/02 q\n A 1 X\n B\n"},
		{"alias", "alias", "\n2020/01/01 p\n a 1 X\n B\n"},
		{"include", "include", "\n2020/01/01 p\n a 1 X\n B\n"},
		{"quoted payee", "2020/01/01 \"p\"", "\n  A 1 X\n  B\n"},
	}
	for _, c := range ctxs {
		w.Section("all strings: " + c.name)
		n := 3
		if w.Thorough || c.name == "posting behind the account" {
			n = 4
		}
		allStrings(alpha, n, func(s string) {
			if w.Done() {
				return
			}
			w.faultCase(c.pre + s + c.post)
		})
	}
	if w.Thorough {
		w.Section("long strings over a small alphabet")
		small := []string{"a", "1", " ", ";", "\"", "-", ".", "@", "\n"}
		for _, c := range []int{2, 4, 5, 10} {
			allStrings(small, 6, func(s string) {
				if w.Done() || len(s) < 5 {
					return
				}
				w.faultCase(ctxs[c].pre + s + ctxs[c].post)
			})
		}
	}

	w.Section("single faults in well-formed files")
	ins := append([]string{"2", "USD", "  ", "A", "#", "'", "(", "|", "\u00a0", "\\", "<"}, alpha...)
	for _, b := range faultBases {
		files := func(s string) {
			w.Case(func() string { return fmt.Sprintf("m.ledger: %q kid: %q", s, kid) }, func(t *T) {
				ok, _, _ := diffLoad(t, map[string]string{"m.ledger": s, "kid": kid}, "m.ledger")
				t.Nontrivial(fmt.Sprint(ok) + s)
			})
		}
		files(b)
		for i := 0; i <= len(b); i++ {
			files(b[:i]) // truncation
			files(b[i:])
			if i < len(b) {
				files(b[:i] + b[i+1:])
				files(b[:i+1] + b[i:])
				if i+1 < len(b) {
					files(b[:i] + b[i+1:i+2] + b[i:i+1] + b[i+2:])
				}
			}
			for _, x := range ins {
				files(b[:i] + x + b[i:])
				if i < len(b) {
					files(b[:i] + x + b[i+1:])
				}
			}
		}
		ls := strings.SplitAfter(b, "\n")
		for i := range ls {
			for j := range ls {
				c := append([]string(nil), ls...)
				c[i], c[j] = c[j], c[i]
				files(strings.Join(c, ""))
				c = append(append(append([]string(nil), ls[:i]...), ls[j]), ls[i:]...)
				files(strings.Join(c, ""))
				c = append(append([]string(nil), ls[:i]...), ls[j]+ls[i])
				files(strings.Join(append(c, ls[i+1:]...), ""))
			}
			files(strings.Join(append(append([]string(nil), ls[:i]...), ls[i+1:]...), ""))
		}
		if w.Thorough {
			// two faults: every pair of single-byte deletions and truncation behind a deletion
			for i := 0; i < len(b); i++ {
				for j := i + 1; j < len(b); j++ {
					files(b[:i] + b[i+1:j] + b[j+1:])
					files(b[:i] + b[i+1:j])
					files(b[:i] + b[j:])
				}
			}
		}
	}

	w.Section("unbalanced transactions")
	for n := 1; n <= 5; n++ {
		for at := 0; at < n; at++ {
			for posts := 1; posts <= 14; posts++ {
				for pi := 0; pi < posts; pi++ {
					for _, pert := range []string{"+1 X", "tiny", "Y", "huge", "ok", "-"} {
						if posts > 4 && pi > 1 && pi < posts-1 {
							continue
						}
						var sb strings.Builder
						for k := 0; k < n; k++ {
							fmt.Fprintf(&sb, "2020/01/%02d p%d\n", k+1, k)
							for q := 0; q < posts; q++ {
								amt := fmt.Sprintf("%d.25 X", q+1)
								if q == posts-1 {
									amt = fmt.Sprintf("-%d.%02d X", (posts-1)*posts/2+((posts-1)*25)/100, ((posts-1)*25)%100)
								}
								if posts == 1 {
									amt = "0 X"
								}
								if k == at && q == pi {
									switch pert {
									case "+1 X":
										amt = "77 X"
									case "tiny":
										i := strings.IndexByte(amt, ' ')
										if !strings.Contains(amt[:i], ".") {
											amt = amt[:i] + "." + amt[i:]
											i++
										}
										amt = amt[:i] + "00000000000000000000001" + amt[i:]
									case "Y":
										amt = strings.Replace(amt, "X", "Y", 1)
									case "huge":
										i := strings.IndexAny(amt, ". ")
										if amt[0] == '-' {
											amt = "-18446744073709551616" + amt[1:i] + amt[i:]
										} else {
											amt = "18446744073709551616" + amt[i:]
										}
									case "-":
										if amt[0] == '-' {
											amt = amt[1:]
										} else {
											amt = "-" + amt
										}
									}
								}
								fmt.Fprintf(&sb, "  A%d  %s\n", q, amt)
							}
						}
						w.faultCase(sb.String())
					}
				}
			}
		}
	}

	w.Section("dates")
	for _, y := range []string{"0", "1", "4", "100", "400", "0000", "0001", "1900", "1904", "1999", "2000", "2019", "2020", "2021", "2100", "9999", "10000"} {
		for m := 0; m <= 14; m++ {
			for d := 0; d <= 33; d++ {
				for _, f := range []string{"%s/%d/%d", "%s/%02d/%02d"} {
					ds := fmt.Sprintf(f, y, m, d)
					w.faultCase(ds + " p\n  A 1 X\n  B\n")
					w.faultCase("P " + ds + " 0:0:0 X Y 1\n")
				}
			}
		}
	}
	for _, ds := range []string{"2020/01/001", "2020/001/01", "2020-01-01", "2020/01", "2020", "2020/", "2020/01/", "2020//01", "20200101", "2020/1/1/1", "2020/01/1x", "99999999999999999999/01/01", "2020/99999999999999999999/01", "2020 /01/01", "2020/01/01/", "+2020/01/01", "-2020/01/01", "٢٠٢٠/01/01"} {
		w.faultCase(ds + " p\n  A 1 X\n  B\n")
		w.faultCase("P " + ds + " 0:0:0 X Y 1\n")
	}

	w.Section("includes")
	inc := func(files map[string]string) {
		w.Case(filesDesc(files), func(t *T) {
			// start from a clean directory: names of other cases must not be found
			os.RemoveAll(filepath.Join(w.Scratch, "inc"))
			os.MkdirAll(filepath.Join(w.Scratch, "inc", "dir"), 0755)
			g := map[string]string{}
			for n, c := range files {
				g["inc/"+n] = c
			}
			ok, _, _ := diffLoad(t, g, "inc/m.ledger")
			t.Nontrivial(fmt.Sprint(ok) + filesDesc(files)())
		})
	}
	good := "2020/01/01 g\n A 1 X\n B\n"
	bad := []string{"2020/01/01 g\n A 1 X\n", "x\n", "2020/01/01 g\n A 1\n B\n", "\x00", "P 2020/01/01 0:0:0 X 1\n", " A 1 X\n", "2020/02/30 g\n A 1 X\n B\n"}
	inc(map[string]string{"m.ledger": "include m.ledger\n"})
	inc(map[string]string{"m.ledger": "include ./m.ledger\n"})
	inc(map[string]string{"m.ledger": good + "include dir/../m.ledger\n"})
	inc(map[string]string{"m.ledger": "include k\n", "k": "include m.ledger\n"})
	inc(map[string]string{"m.ledger": good + "include k\n", "k": "include k\n"})
	inc(map[string]string{"m.ledger": good + "include k\n", "k": good + "include l\n", "l": "include dir/k\n", "dir/k": "include ../k\n"})
	inc(map[string]string{"m.ledger": "include k\ninclude k\n", "k": good})
	inc(map[string]string{"m.ledger": "include k\ninclude l\n", "k": "include l\n", "l": good})
	for _, f := range []string{"none", "dir", "dir/", ".", "..", "", "\"\"", "\"none", "none\"", "\"", "dir/none", "m.ledger/x", "k ; c", "  k  ", "k", "\"k\"", "\" k\"", "k\r", "\"k\"\r"} {
		inc(map[string]string{"m.ledger": good + "include " + f + "\n" + good, "k": good})
		inc(map[string]string{"m.ledger": good + "include j\n" + good, "j": "include " + f, "k": good})
	}
	for _, b := range bad {
		for depth := 0; depth <= 3; depth++ {
			for _, tail := range []string{"", good} {
				files := map[string]string{"m.ledger": good + "include k0\n" + tail}
				for i := 0; i < depth; i++ {
					files[fmt.Sprintf("k%d", i)] = fmt.Sprintf("%sinclude k%d\n%s", good, i+1, tail)
				}
				files[fmt.Sprintf("k%d", depth)] = b
				inc(files)
			}
		}
	}
	for _, n := range []int{5, 20, 60, 200} {
		files := map[string]string{"m.ledger": good + "include k0\n"}
		for i := 0; i < n; i++ {
			files[fmt.Sprintf("k%d", i)] = fmt.Sprintf("%sinclude k%d\n", good, i+1)
		}
		files[fmt.Sprintf("k%d", n)] = good
		inc(files)
		files2 := map[string]string{}
		for k, v := range files {
			files2[k] = v
		}
		files2[fmt.Sprintf("k%d", n)] = "include m.ledger\n"
		inc(files2)
	}
	w.Section("missing or unreadable main file")
	for _, m := range []string{"absent", "dir", "dir/absent", "kid/x"} {
		m := m
		w.Case(func() string { return "main file " + m }, func(t *T) {
			os.MkdirAll(filepath.Join(w.Scratch, "dir"), 0755)
			os.WriteFile(filepath.Join(w.Scratch, "kid"), []byte(kid), 0644)
			b, err := w.loadFiles(nil, m)
			if err == nil || b != nil {
				t.Failf("loading %s succeeds", m)
			}
			t.Nontrivial(m)
		})
	}
}
