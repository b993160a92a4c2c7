//go:build verifmc

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/mescanne/goledger/cmd"
	"github.com/mescanne/goledger/cmd/app"
)

func init() {
	register(&Prop{ID: "C18", Level: "exploration",
		Rule:        "every text over an alphabet of letters, accents, wide digits, blanks, tabs, control characters, complete and broken colour codes and broken UTF-8 up to a length, at every width and side; every table of up to three columns and rows over a cell alphabet; every number over digit patterns, scales, decimals and languages; and the register and report tables of the real program on a terminal of every width",
		Assumptions: []string{"a visible character is a printable character or a space of any kind; wide characters count as one", "half-way values may be shown as either neighbour", "in a terminal that is too narrow, only payees and accounts are shortened, by any split that fits"},
		Run:         runC18})
	if os.Getenv("VERIF_AS_GOLEDGER") != "" {
		if os.Getenv("VERIF_AS_GOLEDGER") == "tables" {
			printTables()
			os.Exit(0)
		}
		if cmd.Execute() != nil {
			os.Exit(1)
		}
		os.Exit(0)
	}
}

// refRender is the text as it is to be written: at most max visible characters (all if negative),
// every colour code in its place, nothing else.
func refRender(s string, max int) string {
	var sb strings.Builder
	n := 0
	for s != "" {
		loc := colourCode.FindStringIndex(s)
		part := s
		if loc != nil {
			part = s[:loc[0]]
		}
		for _, r := range visible(part) {
			if n < max || max < 0 {
				sb.WriteRune(r)
			}
			n++
		}
		if loc == nil {
			break
		}
		sb.WriteString(s[loc[0]:loc[1]])
		s = s[loc[1]:]
	}
	return sb.String()
}

func refPad(s string, width int, left bool) string {
	l := len(visible(s))
	out := refRender(s, width)
	if l < width {
		if left {
			return out + strings.Repeat(" ", width-l)
		}
		return strings.Repeat(" ", width-l) + out
	}
	return out
}

func blanks(n int) string {
	if n < 0 {
		n = 0
	}
	return strings.Repeat(" ", n)
}

// ---- tables -------------------------------------------------------------------------------------

type tcell struct {
	name  string
	cell  cell
	value func(b *app.BookPrinter) app.ColumnValue
}

func str(s string) tcell {
	return tcell{fmt.Sprintf("%q", s), cell{text: s}, func(b *app.BookPrinter) app.ColumnValue { return app.ColumnString(s) }}
}

func rstr(s string) tcell {
	return tcell{fmt.Sprintf("right %q", s), cell{text: s, right: true}, func(b *app.BookPrinter) app.ColumnValue { return app.ColumnRightString(s) }}
}

func moneyCell(ccy, amt string, colour bool) tcell {
	v, _ := new(big.Rat).SetString(amt)
	c := cell{sym: refSymbol(ccy), text: refNumber(v, 2, "en"), right: true}
	if colour {
		code := string(app.Blue)
		if v.Sign() < 0 {
			code = string(app.Red)
		}
		c.sym, c.text = string(app.Blue)+c.sym+string(app.Reset), code+c.text+string(app.Reset)
	}
	return tcell{fmt.Sprintf("%s%s(%v)", ccy, amt, colour), c, func(b *app.BookPrinter) app.ColumnValue { return b.GetColumnMoney(ccy, v) }}
}

func tableCells(colour bool) []tcell {
	return []tcell{
		str(""), str("a"), str("\u00e9\tb\x07"), str("\x1b[4mund\x1b[0m"), str("Caf\x1b \u0663\uff13\xff"),
		rstr("xy"), rstr("\x1b[0;34m12\u00a0345\x1b[0m"),
		moneyCell("\u00a3", "1.5", colour), moneyCell("EUR", "-1234567", colour), moneyCell("", "0", colour),
	}
}

// refLayout writes the rows with the given column widths.
func refLayout(rows [][]cell, widths []int) string {
	var sb strings.Builder
	for _, r := range rows {
		for j, c := range r {
			if j > 0 {
				sb.WriteString(" ")
			}
			switch {
			case c.sym != "":
				sb.WriteString(refRender(c.sym, -1) + refPad(c.text, widths[j]-len(visible(c.sym)), false))
			default:
				sb.WriteString(refPad(c.text, widths[j], !c.right))
			}
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

func naturalWidths(rows [][]cell) []int {
	n := 0
	for _, r := range rows {
		if len(r) > n {
			n = len(r)
		}
	}
	width := make([]int, n)
	for _, r := range rows {
		for j, c := range r {
			if l := len(visible(c.sym)) + len(visible(c.text)); l > width[j] {
				width[j] = l
			}
		}
	}
	return width
}

// fits says how the output relates to the table on a terminal of the given width: the columns that
// may shrink have together shrunk by what is needed and no more, and the rest is complete.
func fits(out string, rows [][]cell, shrink []bool, term int) string {
	nat := naturalWidths(rows)
	total, room := len(nat)-1, 0
	for j, n := range nat {
		total += n
		if shrink[j] {
			room += n
		}
	}
	need := 0
	if term > 0 && total > term {
		need = total - term
		if need > room {
			need = room
		}
	}
	widths := append([]int{}, nat...)
	var try func(j, need int) bool
	try = func(j, need int) bool {
		if j == len(nat) {
			return need == 0 && refLayout(rows, widths) == out
		}
		if !shrink[j] {
			return try(j+1, need)
		}
		for k := 0; k <= nat[j] && k <= need; k++ {
			widths[j] = nat[j] - k
			if try(j+1, need-k) {
				return true
			}
		}
		widths[j] = nat[j]
		return false
	}
	if try(0, need) {
		return ""
	}
	return fmt.Sprintf("on a terminal of width %d the table is\n%s\nits columns need %v (shrinkable %v), %d too much", term, out, nat, shrink, need)
}

// wideTables are printed by a child process on a terminal.
func wideTables(colour bool) (rows [][][]tcell, shrink [][]bool) {
	cs := tableCells(colour)
	long := str("a quite long payee, with \x1b[0;31mred\x1b[0m in it")
	for _, a := range []tcell{cs[1], cs[3], long} {
		for _, b := range []tcell{cs[2], cs[5], long} {
			for _, c := range []tcell{cs[0], cs[4], cs[6], long} {
				for _, sh := range [][]bool{{true, false, false}, {true, true, false}, {false, true, true}, {true, true, true}, {false, false, true}, {false, false, false}} {
					rows = append(rows, [][]tcell{{a, b, c, cs[8]}, {long, cs[1], str("Counteraccount"), cs[7]}})
					shrink = append(shrink, append(append([]bool{}, sh...), false))
				}
			}
		}
	}
	return
}

const tableMark = "\x1e"

func printTables() {
	colour := os.Getenv("VERIF_COLOUR") != ""
	a := app.DefaultApp
	a.Output, a.Lang, a.Colour = os.Stdout, "en", colour
	rows, shrink := wideTables(colour)
	for i := range rows {
		b := a.NewBookPrinter(map[string]int{})
		b.PrintColumns(columnValues(b, rows[i]), shrink[i])
		os.Stdout.WriteString(tableMark)
	}
}

func columnValues(b *app.BookPrinter, rows [][]tcell) [][]app.ColumnValue {
	var out [][]app.ColumnValue
	for _, r := range rows {
		if r == nil {
			out = append(out, nil)
			continue
		}
		var o []app.ColumnValue
		for _, c := range r {
			o = append(o, c.value(b))
		}
		out = append(out, o)
	}
	return out
}

func cellRows(rows [][]tcell) [][]cell {
	var out [][]cell
	for _, r := range rows {
		var o []cell
		for _, c := range r {
			o = append(o, c.cell)
		}
		out = append(out, o)
	}
	return out
}

// ---- terminals ----------------------------------------------------------------------------------

func ioctl(f *os.File, req, arg uintptr) {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, arg); e != 0 {
		panic(fmt.Sprintf("harness: ioctl %x: %v", req, e))
	}
}

// onTerminal runs this program as the real one with standard output a terminal of the given width,
// without a pager.
func (w *W) onTerminal(width int, mode string, colour bool, args ...string) (string, error) {
	out, err := w.onScreen(10000, width, mode, colour, "", args...)
	return out, err
}

var errHang = errors.New("the command does not end")

// onScreenEnd is called as soon as the command has ended.
var onScreenEnd func()

// onScreen is onTerminal for any size and search path. After errHang everything it started is ended.
func (w *W) onScreen(height, width int, mode string, colour bool, path string, args ...string) (string, error) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer m.Close()
	var unlock, n int32
	ioctl(m, 0x40045431, uintptr(unsafe.Pointer(&unlock)))
	ioctl(m, 0x80045430, uintptr(unsafe.Pointer(&n)))
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		panic("harness: " + err.Error())
	}
	var tio syscall.Termios
	ioctl(s, syscall.TCGETS, uintptr(unsafe.Pointer(&tio)))
	tio.Oflag &^= syscall.OPOST
	tio.Lflag &^= syscall.ECHO
	ioctl(s, syscall.TCSETS, uintptr(unsafe.Pointer(&tio)))
	ws := [4]uint16{uint16(height), uint16(width), 0, 0}
	ioctl(s, syscall.TIOCSWINSZ, uintptr(unsafe.Pointer(&ws)))
	c := exec.Command("/proc/self/exe", args...)
	c.Args[0] = "goledger"
	c.Dir = w.Scratch
	c.Env = []string{"VERIF_AS_GOLEDGER=" + mode, "HOME=" + w.Scratch, "GOLEDGER_CONF=" + filepath.Join(w.Scratch, "conf.toml"), "TERM=xterm", "LANG=en"}
	if colour {
		c.Env = append(c.Env, "VERIF_COLOUR=1")
	}
	if path != "" {
		c.Env = append(c.Env, "PATH="+path)
	}
	errout, err := os.Create(filepath.Join(w.Scratch, ".errout")) // a file: not waited for when a pager keeps it
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer errout.Close()
	c.Stdin, c.Stdout, c.Stderr = nil, s, errout
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := c.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	s.Close()
	var out bytes.Buffer
	done := make(chan bool)
	go func() { io.Copy(&out, m); close(done) }()
	hang := time.AfterFunc(15*time.Second, func() { syscall.Kill(-c.Process.Pid, syscall.SIGKILL) })
	err = c.Wait()
	if !hang.Stop() {
		<-done
		return out.String(), errHang
	}
	if onScreenEnd != nil {
		onScreenEnd()
	}
	select {
	case <-done:
	case <-time.After(15 * time.Second):
		syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
		<-done
		return out.String(), errHang
	}
	if err != nil {
		err = fmt.Errorf("%v: %s", err, readBack(errout))
	}
	return out.String(), err
}

// ---- numbers ------------------------------------------------------------------------------------

// roundings are the decimal forms of v with dec decimals that are nearest to it.
func roundings(v *big.Rat, dec int) []string {
	sc := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(dec)), nil)
	x := new(big.Rat).Mul(new(big.Rat).Abs(v), new(big.Rat).SetInt(sc))
	q, r := new(big.Int).QuoRem(x.Num(), x.Denom(), new(big.Int))
	c := new(big.Int).Mul(r, big.NewInt(2)).Cmp(x.Denom())
	var out []string
	add := func(n *big.Int) {
		s := new(big.Rat).SetFrac(n, sc).FloatString(dec)
		if v.Sign() < 0 {
			out = append(out, "-"+s)
		}
		if v.Sign() >= 0 || n.Sign() == 0 {
			out = append(out, s)
		}
	}
	if c <= 0 {
		add(q)
	}
	if c >= 0 {
		add(new(big.Int).Add(q, big.NewInt(1)))
	}
	return out
}

func runC18(w *W) {
	// texts
	w.Section("texts")
	toks := []string{"a", "m", "[", "3", "\u00e9", "\u0663", "\uff13", " ", "\u00a0", "\t", "\n", "\x07", "\u200b", "\x1b[0;34m", "\x1b[0m", "\x1b[4:3m", "\x1b", "\x1b[", "\xff", "\xc3", ";"}
	depth := 3
	if w.Thorough {
		depth = 4
	}
	for n := depth; n <= depth; n++ {
		seqs(len(toks), n, func(ix []int) {
			var sb strings.Builder
			for _, i := range ix {
				sb.WriteString(toks[i])
			}
			s := sb.String()
			w.Case(func() string { return fmt.Sprintf("text %q", s) }, func(t *T) {
				l := len(visible(s))
				if g := app.Length(s); g != l {
					t.Failf("the measured length is %d, there are %d visible characters", g, l)
				}
				for width := 0; width <= l+2; width++ {
					for _, left := range []bool{true, false} {
						got, want := app.PadString(s, width, left), refPad(s, width, left)
						if got != want {
							t.Failf("padded to %d (left %v) it is %q, should be %q", width, left, got, want)
						}
						if app.Length(got) != width {
							t.Failf("padded to %d (left %v) the measured length is %d", width, left, app.Length(got))
						}
						t.Trans(1)
						t.State(got)
					}
				}
				t.Nontrivial(s)
			})
		})
	}
	w.Done()
	w.Section("long texts")
	for _, n := range []int{40, 130, 300, 5000} {
		for _, a := range toks {
			for _, b := range toks {
				n, a, b := n, a, b
				if n > 300 && (!w.Thorough && b != "a") {
					continue
				}
				w.Case(func() string { return fmt.Sprintf("text of %d times %q with %q in front, between and behind", n, a, b) }, func(t *T) {
					s := b + strings.Repeat(a, n/2) + b + strings.Repeat(a, n/2) + b
					l := len(visible(s))
					if g := app.Length(s); g != l {
						t.Failf("the measured length is %d, there are %d visible characters", g, l)
					}
					for _, width := range []int{0, 1, l / 2, l - 1, l, l + 1, 2*l + 7} {
						if width < 0 {
							continue
						}
						for _, left := range []bool{true, false} {
							if got, want := app.PadString(s, width, left), refPad(s, width, left); got != want {
								t.Failf("padded to %d (left %v) it is %q, should be %q", width, left, got, want)
							}
							t.Trans(1)
						}
					}
					t.Nontrivial(fmt.Sprint(n, a, b))
					t.State(s)
				})
			}
		}
	}
	// lists
	w.Section("lists")
	words := []string{"", "a", "\u00e9\tb", "\x1b[4mund\x1b[0m", "\x1b x", "\uff13\uff13\uff13\uff13\uff13"}
	for n := 1; n <= 3; n++ {
		seqs(len(words), 2*n, func(ix []int) {
			if len(ix) != 2*n {
				return
			}
			cols := [][]string{nil, nil}
			for i, x := range ix {
				cols[i%2] = append(cols[i%2], words[x])
			}
			w.Case(func() string { return fmt.Sprintf("lists %q", cols) }, func(t *T) {
				for max := -4; max <= 4; max++ {
					lim := max
					if lim < 0 {
						lim = -lim
					}
					wide := 0
					for _, c := range cols {
						l := 0
						for _, s := range c {
							if v := len(visible(s)); v > l {
								l = v
							}
						}
						if lim > 0 && l > lim {
							l = lim
						}
						if g := app.ListLength(c, max); g != l {
							t.Failf("the width of %q limited to %d is %d, should be %d", c, max, g, l)
						}
						if l > wide {
							wide = l
						}
					}
					got, err := app.Combine(cols, max)
					if err != nil {
						t.Failf("combining fails: %v", err)
					}
					for i := range cols[0] {
						want := refPad(cols[0][i], wide, false) + " " + refPad(cols[1][i], wide, false)
						if got[i] != want {
							t.Failf("line %d combined is %q, should be %q", i, got[i], want)
						}
					}
					t.Trans(1)
				}
				t.Nontrivial(fmt.Sprint(ix))
			})
		})
	}
	w.Done()
	// tables
	w.Section("tables")
	a := app.DefaultApp
	var buf bytes.Buffer
	a.Output, a.Lang = &buf, "en"
	table := func(rows [][]tcell, colour bool) {
		w.Case(func() string {
			var ns [][]string
			for _, r := range rows {
				var n []string
				for _, c := range r {
					n = append(n, c.name)
				}
				ns = append(ns, n)
			}
			return fmt.Sprintf("table %q", ns)
		}, func(t *T) {
			buf.Reset()
			a.Colour = colour
			b := a.NewBookPrinter(map[string]int{})
			vals := columnValues(b, rows)
			for sh := 0; sh < 2; sh++ { // not a terminal: nothing shrinks
				buf.Reset()
				shrink := make([]bool, len(rows[0]))
				for j := range shrink {
					shrink[j] = sh == 1
				}
				b.PrintColumns(vals, shrink)
				cr := cellRows(rows)
				if want := refLayout(cr, naturalWidths(cr)); buf.String() != want {
					t.Failf("the table is\n%q\nshould be\n%q", buf.String(), want)
				}
			}
			for _, r := range rows {
				for _, c := range r {
					v := c.value(b)
					l := len(visible(c.cell.sym)) + len(visible(c.cell.text))
					if v.Length() != l {
						t.Failf("the length of %s is %d, should be %d", c.name, v.Length(), l)
					}
				}
			}
			t.Trans(1)
			t.Nontrivial(buf.String())
		})
	}
	for _, colour := range []bool{true, false} {
		cs := tableCells(colour)
		shapes := [][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 1}, {1, 3}}
		if w.Thorough {
			shapes = append(shapes, [2]int{4, 1}, [2]int{2, 3})
		}
		for _, sh := range shapes {
			k := len(cs)
			if sh[0]*sh[1] > 5 {
				k = 9
			}
			seqs(k, sh[0]*sh[1], func(ix []int) {
				if len(ix) != sh[0]*sh[1] {
					return
				}
				var rows [][]tcell
				for i := 0; i < sh[0]; i++ {
					var r []tcell
					for j := 0; j < sh[1]; j++ {
						r = append(r, cs[ix[i*sh[1]+j]])
					}
					rows = append(rows, r)
					if i == 0 && ix[0]%2 == 1 && sh[0] > 1 {
						rows = append(rows, nil)
					}
				}
				table(rows, colour)
			})
		}
	}
	w.Section("long tables")
	for _, colour := range []bool{true, false} {
		cs := tableCells(colour)
		for _, n := range []int{10, 49, 50, 51, 64, 100, 101, 128, 129, 257, 1000, 1025, 5000} {
			for _, at := range []int{0, n / 2, n - 1} {
				for wide := range cs {
					rows := make([][]tcell, n)
					for i := range rows {
						rows[i] = []tcell{cs[0], cs[wide/2%len(cs)], cs[0]}
						if i%97 == 5 {
							rows[i] = nil
						}
					}
					rows[0] = []tcell{cs[0], cs[0], cs[0]}
					rows[at] = []tcell{cs[0], cs[wide], cs[wide]}
					table(rows, colour)
				}
			}
		}
	}
	for _, n := range []int{4, 7, 8, 9, 16, 17, 33, 65, 129} { // columns
		cs := tableCells(true)
		for wide := range cs {
			row := make([]tcell, n)
			for j := range row {
				row[j] = cs[j*wide%len(cs)]
			}
			table([][]tcell{row, row}, true)
		}
	}
	w.Done()
	// numbers
	w.Section("numbers")
	langs := []string{"en", "nl", "de", "fr", "en_GB.UTF-8", "de_DE", "xx", ""}
	digits := []string{"0", "1", "4", "5", "9"}
	nd := 4
	if w.Thorough {
		nd = 6
	}
	var mants []string
	for n := nd; n <= nd; n++ {
		seqs(len(digits), n, func(ix []int) {
			s := ""
			for _, i := range ix {
				s += digits[i]
			}
			if len(s) == 1 || s[0] != '0' {
				mants = append(mants, s)
			}
		})
	}
	for n := 7; n <= 34; n++ {
		for _, d := range []string{"1", "4", "5", "9", "12", "49", "950", "100000000000000", "00000000000000"} {
			for _, last := range digits[1:] {
				if d[0] == '0' {
					d, last = "9"+d, last+"0"
				}
				mants = append(mants, strings.Repeat(d, 34)[:n-1]+last)
			}
		}
	}
	for n := 36; n <= 260; n += 8 {
		for _, d := range []string{"1", "9", "1234567890", "4999"} {
			mants = append(mants, strings.Repeat(d, 260)[:n])
		}
	}
	for _, mant := range mants {
		w.Case(func() string { return "number " + mant }, func(t *T) {
			for li, lang := range langs {
				dec := map[string]int{}
				for d := 0; d <= 6; d++ {
					dec[fmt.Sprint("C", d)] = d
				}
				a.Lang = lang
				b := a.NewBookPrinter(dec)
				for scale := -2; scale <= 15; scale++ {
					if (scale > 6 || scale < 0) && li > 0 {
						continue
					}
					v, ok := new(big.Rat).SetString(fmt.Sprintf("%se%d", mant, -scale))
					if !ok {
						panic("harness: bad number")
					}
					for d := 0; d <= 6; d++ {
						for sign := 0; sign < 2; sign++ {
							sym := fmt.Sprint("C", d)
							if d == 2 {
								sym = "EUR" // not in the list: two decimals
							}
							got := b.FormatNumber(sym, v)
							ok := false
							var want []string
							for _, r := range roundings(v, d) {
								want = append(want, refGroup(r, lang))
								ok = ok || want[len(want)-1] == got
							}
							if !ok {
								t.Failf("%s with %d decimals in %q is shown as %q, should be %q", v.RatString(), d, lang, got, want)
							}
							v = new(big.Rat).Neg(v)
							t.Trans(1)
						}
					}
				}
			}
			t.Nontrivial(mant)
		})
	}
	w.Done()
	w.Section("many decimals")
	for d := 7; d <= 80; d++ {
		for _, lang := range []string{"en", "de"} {
			d, lang := d, lang
			w.Case(func() string { return fmt.Sprintf("numbers with %d decimals in %q", d, lang) }, func(t *T) {
				a.Lang = lang
				b := a.NewBookPrinter(map[string]int{"C": d})
				for _, mant := range []string{"0", "1", "5", "9", "15", "25", "99", "123456789", "999999999999999999999999", strings.Repeat("9", 90), "1" + strings.Repeat("0", 88) + "5"} {
					for scale := -1; scale <= d+3; scale++ {
						v, _ := new(big.Rat).SetString(fmt.Sprintf("%se%d", mant, -scale))
						for sign := 0; sign < 2; sign++ {
							got := b.FormatNumber("C", v)
							ok := false
							for _, r := range roundings(v, d) {
								ok = ok || refGroup(r, lang) == got
							}
							if !ok {
								t.Failf("%s with %d decimals is shown as %q", v.FloatString(d+4), d, got)
							}
							v = new(big.Rat).Neg(v)
							t.Trans(1)
						}
					}
				}
				t.Nontrivial(fmt.Sprint(d, lang))
			})
		}
	}
	w.Done()
	w.Section("terminals")
	maxw := 90
	if w.Thorough {
		maxw = 160
	}
	w.write("conf.toml", "")
	for width := 1; width <= maxw; width++ {
		for _, colour := range []bool{true, false} {
			width, colour := width, colour
			w.Case(func() string { return fmt.Sprintf("tables on a terminal of width %d, colour %v", width, colour) }, func(t *T) {
				out, err := w.onTerminal(width, "tables", colour)
				if err != nil {
					t.Failf("printing tables fails: %v", err)
				}
				rows, shrink := wideTables(colour)
				parts := strings.Split(out, tableMark)
				if len(parts) != len(rows)+1 {
					t.Failf("%d tables are printed instead of %d", len(parts)-1, len(rows))
				}
				for i := range rows {
					if why := fits(parts[i], cellRows(rows[i]), shrink[i], width); why != "" {
						t.Failf("%s", why)
					}
					t.Trans(1)
					t.State(parts[i])
				}
				t.Nontrivial(fmt.Sprint(width, colour))
			})
		}
	}
	w.Done()
	w.Section("commands")
	payees := []string{"Foo", "Caf\u00e9 \u0663\uff13 \u4e2d", "a \x1b[31mred\x1b[0m one", "x\ty\x07 \x1b z", "a very long payee that does not fit on any of the small terminals"}
	accts := []string{"Expense:A", "Expense:A:Much:Longer:Account"}
	for pi := range payees {
		for pj := range payees {
			for ai := range accts {
				for _, lang := range []string{"en", "fr"} {
					for _, re := range []bool{false, true} {
						if re && lang == "fr" {
							continue
						}
						var es []mline
						text := ""
						p2 := []string{payees[pi], payees[pj]}
						bal := new(big.Rat)
						for k, amt := range []string{"1234.56", "-1000000.05"} {
							v, _ := new(big.Rat).SetString(amt)
							bal = new(big.Rat).Add(bal, v)
							text += fmt.Sprintf("2020/01/0%d %s\n  Asset  %s EUR\n  %s  %s EUR\n\n", k+1, p2[k], amt, accts[(ai+k)%2], new(big.Rat).Neg(v).FloatString(2))
							es = append(es, mline{fmt.Sprintf("2020/01/0%d", k+1), p2[k], accts[(ai+k)%2], v, bal})
						}
						rows := regRows(es, re, lang)
						nat := 0
						for _, n := range naturalWidths(rows) {
							nat += n + 1
						}
						step := 1
						if !w.Thorough {
							step = 9
						}
						for width := 1 + (pi+pj)%step; width <= nat+step; width += step {
							width := width
							w.Case(func() string {
								return fmt.Sprintf("register on a terminal of width %d: lang %s, regex %v, ledger %q", width, lang, re, text)
							}, func(t *T) {
								w.write("t.ledger", text)
								w.write("conf.toml", "")
								lastConf = "\x00"
								acct := "Asset"
								if re {
									acct = "^Asset$"
								}
								args := []string{"--ledger", "t.ledger", "--lang", lang, "register", "--type", "Text", "--asc", acct}
								if re {
									args = append([]string{"--colour=false"}, append(args, "--combined")...)
								}
								out, err := w.onTerminal(width, "cli", false, args...)
								if err != nil {
									t.Failf("the register fails: %v", err)
								}
								i := strings.Index(out, "Date")
								if i < 0 {
									t.Failf("there is no register: %q", out)
								}
								i = strings.LastIndexByte(out[:i], '\n') + 1
								shrink := []bool{false, true, true, false, false}
								if re {
									shrink = []bool{false, true, true, true, false, false}
								}
								if why := fits(out[i:], rows, shrink, width); why != "" {
									t.Failf("%s", why)
								}
								t.Trans(1)
								t.Nontrivial(out)
							})
						}
					}
				}
			}
		}
	}
	w.Done()
}

type mline struct {
	date, payee, counter string
	amt, bal             *big.Rat
}

func regRows(es []mline, re bool, lang string) [][]cell {
	code := func(c app.AnsiColour, s string) string {
		if re {
			return s
		}
		return string(c) + s + string(app.Reset)
	}
	money := func(v *big.Rat) cell {
		c := app.Blue
		if v.Sign() < 0 {
			c = app.Red
		}
		return cell{sym: code(app.Blue, "EUR "), text: code(c, refGroup(v.FloatString(2), lang)), right: true}
	}
	hdr := []cell{{text: code(app.UL, "Date")}, {text: code(app.UL, "Payee")}}
	if re {
		hdr = append(hdr, cell{text: "Account"})
	}
	hdr = append(hdr, cell{text: code(app.UL, "Counteraccount")}, cell{text: code(app.UL, "Amount"), right: true}, cell{text: code(app.UL, "Balance"), right: true})
	rows := [][]cell{hdr}
	for _, e := range es {
		row := []cell{{text: e.date}, {text: e.payee}}
		if re {
			row = append(row, cell{text: "Asset"})
		}
		row = append(row, cell{text: e.counter}, money(e.amt), money(e.bal))
		rows = append(rows, row)
	}
	return rows
}
