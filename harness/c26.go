//go:build verifmc

package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

func init() {
	register(&Prop{ID: "C26", Level: "exploration",
		Rule:        "every command that prints tables, over ledgers of every size up to the bound, on a terminal of every height up to the bound, with every behaviour of the pager (reads all, streams, stops after n lines, lingers, fails, missing, not executable, not startable); the terminal must show the bytes that a file gets, the command must end after the pager and the pager must be used for tables longer than the terminal and only then",
		Assumptions: []string{"the pager is the program less found on PATH; a stand-in records what it is given", "when the terminal has no height whether the pager is used is free", "a table within two lines of the height of the terminal may be shown either way", "what is shown after the pager stopped reading is free"},
		Run:         runC26})
}

// pagers are the ways less can be; reads says whether it shows everything it is given.
var pagers = []struct {
	name, script string
	reads        bool
	starts       bool
}{
	{"reads all, then shows it", "cat > pager.in\ncat pager.in\nsleep 0.03\n", true, true},
	{"streams", "tee pager.in\n", true, true},
	{"lingers", "tee pager.in\nexec <&-\nsleep 0.1\n", true, true},
	{"starts late", "sleep 0.05\ntee pager.in\n", true, true},
	{"fails at the end", "tee pager.in\necho > pager.done\nexit 3\n", true, true},
	{"shows one line", "head -n 1\n", false, true},
	{"shows three lines", "head -n 3\n", false, true},
	{"quits at once", "", false, true},
	{"stops reading and lingers", "exec <&-\nsleep 0.1\n", false, true},
	{"is killed", "echo > pager.done\nkill -9 $$\n", false, true},
	{"missing", "", true, false},
	{"not executable", "", true, false},
	{"not startable", "", true, false},
	{"a folder", "", true, false},
}

func (w *W) pager(i int) (path string) {
	dir := filepath.Join(w.Scratch, "bin")
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0755)
	fn := filepath.Join(dir, "less")
	body, mode := "#!/bin/sh\necho \"$@\" > pager.args\n"+pagers[i].script+"echo > pager.done\n", os.FileMode(0755)
	switch pagers[i].name {
	case "missing":
		return dir
	case "a folder":
		os.Mkdir(fn, 0755)
		return dir
	case "not executable":
		mode = 0644
	case "not startable":
		body = "#!/nonexistent/interpreter\n"
	}
	if err := os.WriteFile(fn, []byte(body), mode); err != nil {
		panic("harness: " + err.Error())
	}
	if pagers[i].starts {
		return dir + ":/usr/bin:/bin"
	}
	return dir
}

// screenLedger has an account with n postings and others with fewer.
func screenLedger(n int) string {
	var sb strings.Builder
	for k := 0; k < n; k++ {
		fmt.Fprintf(&sb, "2020/01/%02d Payee %d\n  Asset:Cash  %d.50 EUR\n  Zoo  1.25 EUR\n  Expense:Acct%d\n\n", 1+k%28, k, k+1, k/2)
	}
	return sb.String()
}

var screenCommands = []struct {
	args   []string
	single bool // one table and nothing else
}{
	{[]string{"register", "--type", "Text", "--combined", "."}, true},
	{[]string{"--colour=false", "register", "--type", "Text", "--combined", "--asc", "^Asset"}, true},
	{[]string{"register", "--type", "Text", "."}, false},
	{[]string{"register", "--type", "Text", "--asc", "Expense|Zoo"}, false},
	{[]string{"register", "--type", "Text", "--count", "3", "."}, false},
	{[]string{"--all", "register", "--type", "Text", "Asset|Acct0|Zoo"}, false},
	{[]string{"report", "--type", "Text"}, true},
	{[]string{"report", "--type", "Text", "--splitby", "monthly"}, false},
	{[]string{"report", "--type", "Ledger"}, false},
	{[]string{"report", "--type", "Html"}, false},
	{[]string{"report", "--type", "Beancount"}, false},
	{[]string{"register", "--type", "CSV", "--combined", "."}, false},
	{[]string{"register", "--type", "JSON", "--combined", "."}, false},
	{[]string{"accts"}, false},
	{[]string{"--all", "accts", "--json"}, false},
	{[]string{"ccy"}, false},
	{[]string{"export", "--type", "Ledger"}, false},
	{[]string{"export", "--type", "CSV"}, false},
	{[]string{"ops"}, false},
	{[]string{"macros"}, false},
	{[]string{"help"}, false},
	{[]string{"register", "--type", "Text", "("}, false},
	{[]string{"report", "--type", "Text", "nosuch=op"}, false},
}

func (w *W) screenCase(n, height, p, ci int) {
	c := screenCommands[ci]
	w.Case(func() string {
		return fmt.Sprintf("goledger %s for %d transactions on a terminal of height %d; the pager: %s", strings.Join(c.args, " "), n, height, pagers[p].name)
	}, func(t *T) {
		args := append([]string{"--ledger", "t.ledger"}, c.args...)
		for i := range args {
			if args[i] == "t.ledger" {
				args[i] = w.write("t.ledger", screenLedger(n))
			}
		}
		want := w.cli("", args...)
		for _, f := range []string{"pager.in", "pager.args", "pager.done"} {
			os.Remove(filepath.Join(w.Scratch, f))
		}
		path := w.pager(p)
		started, ended := false, false
		onScreenEnd = func() {
			_, err := os.Stat(filepath.Join(w.Scratch, "pager.args"))
			started = err == nil
			_, err = os.Stat(filepath.Join(w.Scratch, "pager.done"))
			ended = err == nil
		}
		got, err := w.onScreen(height, 10000, "cli", false, path, args...)
		onScreenEnd = nil
		if err == errHang {
			t.Failf("the command (or the pager that waits for it) does not end; shown %q", clip(got, 500))
		}
		_, aerr := os.Stat(filepath.Join(w.Scratch, "pager.args"))
		if aerr == nil && !(started && ended) {
			t.Failf("the command ends before the pager")
		}
		if strings.Contains(fmt.Sprint(err), "panic") || strings.Contains(fmt.Sprint(err), "goroutine") {
			t.Failf("the command crashes: %v", err)
		}
		if (err == nil) != (want.err == nil) {
			t.Failf("on the terminal the command ends with %v, otherwise with %v", err, want.err)
		}
		switch {
		case pagers[p].reads && pagers[p].name == "fails at the end" && started:
			if !strings.HasPrefix(got, want.out) {
				t.Failf("the terminal shows\n%q\ninstead of\n%q", got, want.out)
			}
		case pagers[p].reads || !started:
			if got != want.out {
				t.Failf("the terminal shows\n%q\ninstead of\n%q", got, want.out)
			}
		default:
			// what went to the terminal before the pager, then what the pager showed
			g := got
			if i := strings.LastIndex(g, "error: "); i >= 0 {
				g = g[:i]
			}
			if !strings.HasPrefix(want.out, g) {
				t.Failf("the terminal shows\n%q\nwhich is not the beginning of\n%q", got, want.out)
			}
		}
		lines := strings.Count(want.out, "\n")
		if pagers[p].starts && height > 0 {
			if started && lines+2 <= height {
				t.Failf("the pager is used for %d lines on a terminal of height %d", lines, height)
			}
			if !started && c.single && want.err == nil && lines-3 > height {
				t.Failf("the pager is not used for a table of %d lines on a terminal of height %d", lines, height)
			}
		}
		if started {
			b, _ := os.ReadFile(filepath.Join(w.Scratch, "pager.args"))
			if strings.Contains(want.out, "\x1b[") && !strings.Contains(strings.ToLower(string(b)), "-r") {
				t.Failf("the pager is started with %q, which does not show colours", string(b))
			}
		}
		t.Outcome(fmt.Sprintf("pager started %v", started))
		t.State(fmt.Sprint(got))
		t.Trans(1)
		t.Nontrivial(fmt.Sprint(n, height, p, ci))
	})
}

func runC26(w *W) {
	all := func(ns, hs, ps []int) {
		for _, n := range ns {
			for _, h := range hs {
				for _, p := range ps {
					for ci := range screenCommands {
						w.screenCase(n, h, p, ci)
					}
				}
			}
		}
	}
	upto := func(a, b int) (o []int) {
		for ; a <= b; a++ {
			o = append(o, a)
		}
		return
	}
	w.Section("heights")
	if w.Thorough {
		all(upto(0, 12), upto(0, 20), []int{0, 1})
	} else {
		all([]int{0, 1, 2, 6}, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14}, []int{0})
	}
	w.Done()
	w.Section("pagers")
	if w.Thorough {
		all([]int{1, 5, 9, 40}, []int{1, 4, 7, 24}, upto(0, len(pagers)-1))
	} else {
		all([]int{5}, []int{4}, upto(0, len(pagers)-1))
	}
	w.Done()
	w.Section("more than a pipe holds")
	ns := []int{400, 1500}
	if w.Thorough {
		ns = []int{100, 400, 600, 1500, 3000}
	}
	for _, n := range ns {
		for p := range pagers {
			for _, ci := range []int{0, 1, 2, 6, 13, 17} {
				if ci == 2 && n > 600 {
					continue // a table for each of many accounts takes long
				}
				w.screenCase(n, 24, p, ci)
			}
		}
	}
	w.Done()
	w.Section("not a terminal")
	for n := 0; n <= 40; n += 8 {
		for ci := range screenCommands {
			n, ci := n, ci
			w.Case(func() string {
				return fmt.Sprintf("goledger %s for %d transactions into a pipe", strings.Join(screenCommands[ci].args, " "), n)
			}, func(t *T) {
				args := append([]string{"--ledger", w.write("t.ledger", screenLedger(n))}, screenCommands[ci].args...)
				want := w.cli("", args...)
				os.Remove(filepath.Join(w.Scratch, "pager.args"))
				got := w.piped(w.pager(0), args...)
				if got != want.out {
					t.Failf("into a pipe it prints\n%q\ninstead of\n%q", got, want.out)
				}
				if _, err := os.Stat(filepath.Join(w.Scratch, "pager.args")); err == nil {
					t.Failf("the pager is started for a pipe")
				}
				t.Trans(1)
				t.State(got)
				t.Nontrivial(fmt.Sprint(n, ci))
			})
		}
	}
	w.Done()
}

// piped is what the program writes into a pipe.
func (w *W) piped(path string, args ...string) string {
	c := exec.Command("/proc/self/exe", args...)
	c.Args[0] = "goledger"
	c.Dir = w.Scratch
	c.Env = []string{"VERIF_AS_GOLEDGER=cli", "HOME=" + w.Scratch, "GOLEDGER_CONF=" + filepath.Join(w.Scratch, "conf.toml"), "TERM=xterm", "LANG=en", "PATH=" + path}
	out, _ := c.Output()
	return string(out)
}
