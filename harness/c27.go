//go:build verifmc && verifhooks

package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"syscall"
)

func init() {
	register(&Prop{ID: "C27", Level: "fault_enumeration",
		Rule:        "every command that prints what a ledger, a file or a script contains, in every format, over ledgers of several sizes x every write to standard output x every kind of failure of it (nothing, one byte, half, all but one byte written and then an error; an error once or from then on; every error number of the list; nothing written and no error) and x every number of bytes that still fit (thorough: every pair of places too). The command must end with an error for each of them, and with exactly the output of an undisturbed run, and no error, when writes are only interrupted or short. Transitions: writes to standard output; states: distinct (command, what was left) pairs. The built program on /dev/full, a closed pipe and a limited file must end with a status other than 0",
		Assumptions: []string{"what is printed to standard error, progress messages of downloads and the texts of help, ops, macros are not part of the output", "what a terminal shows is judged by C26"},
		Run:         runC27})
}

// outPlan says what happens to the writes to standard output.
type outPlan struct {
	fail  func(k, off, n int) (take int, err error) // for the k-th write of n bytes when off bytes are out; take < 0: all of them
	write int                                       // writes seen
	off   int                                       // bytes out
	hit   bool                                      // something was refused for good
	sizes []int
}

func (p *outPlan) pre(op string, fd int, path, path2 string, data []byte, flags int) (bool, int, error) {
	if op != "write" || cliFiles[0] == nil || fd != int(cliFiles[0].Fd()) || len(data) == 0 {
		return false, 0, nil
	}
	k := p.write
	p.write++
	p.sizes = append(p.sizes, len(data))
	take, err := -1, error(nil)
	if p.fail != nil {
		take, err = p.fail(k, p.off, len(data))
	}
	if take < 0 || take > len(data) {
		take = len(data)
	}
	n := 0
	if take > 0 {
		n, _ = rawIO(syscall.SYS_WRITE, fd, data[:take])
		p.off += n
	}
	if n > 0 {
		return true, n, nil // as the kernel: an error is told with the next write
	}
	if err != syscall.EINTR {
		p.hit = true
	}
	if err == nil {
		return true, 0, nil
	}
	return true, -1, err
}

func (w *W) cliOnto(p *outPlan, conf string, args ...string) (out cliOut) {
	w.cliFilesReady()
	syscall.VerifFS = p.pre
	defer func() { syscall.VerifFS = nil }()
	return w.cli(conf, args...)
}

var c27errs = []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EFBIG, syscall.EBADF, syscall.EPIPE}

// full gives the failure of everything beyond c bytes.
func full(c int, e syscall.Errno) func(k, off, n int) (int, error) {
	return func(k, off, n int) (int, error) {
		if off+n <= c {
			return -1, nil
		}
		return c - off, e
	}
}

type outCmd struct {
	conf string
	args []string
}

const c27json = `[{"d":"2020-01-05","p":"Shop","a":"-3.50"},{"d":"2020-02-06","p":"Work \"x\"","a":"1000"},{"d":"2020-02-06","p":"Work","a":"0.125"}]`

func c27commands() []outCmd {
	var r []outCmd
	add := func(conf, s string) { r = append(r, outCmd{conf, strings.Split(s, "|")}) }
	for _, ty := range []string{"Text", "Ledger", "Json", "HTML", "Beancount"} {
		for _, o := range []string{"", "|--sum", "|--splitby=monthly", "|--sum|--convert|--ccy=EUR"} {
			if ty != "Text" && ty != "HTML" && strings.Contains(o, "splitby") {
				continue
			}
			add("", "--ccy=USD|report|--type|"+ty+o)
		}
	}
	add("", "--ccy=USD|report|--type|Json|--jsonpretty")
	add("[macros]\nm = [\"map=/^E.*/X/\"]\n", "--all|--ccy=USD|report|--type|Text|m")
	for _, ty := range []string{"Text", "JSON", "CSV"} {
		for _, o := range []string{"--asc|.", "--combined|.", "--count|3|.", "--begin|2020-01-05|Asset"} {
			add("", "register|--type|"+ty+"|"+o)
		}
	}
	for _, ty := range []string{"Ledger", "Json", "Beancount", "CSV"} {
		add("", "export|--type|"+ty)
	}
	add("", "export|--type|Json|--jsonpretty|combine=monthly")
	add("", "accts")
	add("", "--all|accts|--json")
	add("", "ccy")
	for _, s := range []string{"bash", "zsh", "powershell"} {
		add("", "shell|--type|"+s)
	}
	return r
}

func runC27(w *W) {
	cmds := c27commands()
	sizes := []int{0, 1, 2, 7, 40}
	if w.Thorough {
		sizes = []int{0, 1, 2, 3, 7, 40, 120}
	}
	for _, n := range sizes {
		w.Section(fmt.Sprintf("ledger of %d transactions", n))
		for i := range cmds {
			w.fullCase(n, cmds[i], "", nil)
		}
	}
	w.Section("imports and scripts")
	w.c27imports(sizes)
	w.Section("the built program")
	w.c27real(cmds)
}

// fullCase runs a command undisturbed and then with every failure.
func (w *W) fullCase(n int, c outCmd, what string, prep func(args []string) []string) {
	w.Case(func() string {
		return fmt.Sprintf("%d transactions: goledger %s%s with standard output that fails", n, strings.Join(c.args, " "), what)
	}, func(t *T) {
		args := append([]string{"--ledger", w.write("t.ledger", screenLedger(n))}, c.args...)
		if prep != nil {
			args = prep(args)
		}
		clean := &outPlan{}
		want := w.cliOnto(clean, c.conf, args...)
		if want.err != nil {
			t.Outcome("fails anyway")
			return
		}
		t.Outcome("prints")
		total, writes := clean.off, clean.write
		t.Trans(int64(writes))
		if total != len(want.out) {
			panic("harness: writes were missed")
		}
		run := func(how string, must bool, f func(k, off, n int) (int, error)) {
			p := &outPlan{fail: f}
			got := w.cliOnto(p, c.conf, args...)
			t.Trans(int64(p.write))
			t.State(fmt.Sprint(args[2:], n, p.off, how[:2], got.err == nil))
			if must && p.hit {
				t.Nontrivial(fmt.Sprint(args[2:], how))
				if got.err == nil {
					t.Failf("%s (%d of %d bytes are there): the command reports success", how, len(got.out), total)
				}
				return
			}
			if got.err != nil || got.out != want.out {
				t.Failf("%s: nothing was refused for good, but the command ends with %v and\n%q\ninstead of\n%q", how, got.err, clip(got.out, 1500), clip(want.out, 1500))
			}
		}
		// places: each write, or (many) the first, the last and evenly spread ones
		limit := 24
		if w.Thorough && n <= 7 {
			limit = 100
		} else if n > 40 {
			limit = 10
		}
		places := spread(writes, limit)
		for _, i := range places {
			i := i
			size := clean.sizes[i]
			for ei, e := range c27errs {
				e := e
				run(fmt.Sprintf("%v from write %d of %d on", e, i+1, writes), true, func(k, off, n int) (int, error) {
					if k >= i {
						return 0, e
					}
					return -1, nil
				})
				run(fmt.Sprintf("%v for write %d of %d only", e, i+1, writes), true, func(k, off, n int) (int, error) {
					if k == i {
						return 0, e
					}
					return -1, nil
				})
				if ei > 0 && !w.Thorough {
					break
				}
			}
			for _, take := range []int{1, size / 2, size - 1} {
				take := take
				if take <= 0 || take >= size {
					continue
				}
				at := 0
				for _, s := range clean.sizes[:i] {
					at += s
				}
				run(fmt.Sprintf("write %d of %d is %d bytes short, the rest does not fit", i+1, writes, size-take), true, full(at+take, syscall.ENOSPC))
				run(fmt.Sprintf("write %d of %d is %d bytes short", i+1, writes, size-take), true, func(k, off, n int) (int, error) {
					if k == i {
						return take, nil
					}
					return -1, nil
				})
				run(fmt.Sprintf("write %d of %d is %d bytes short, the rest fails once", i+1, writes, size-take), true, func(k, off, n int) (int, error) {
					switch k {
					case i:
						return take, nil
					case i + 1:
						return 0, syscall.EIO
					}
					return -1, nil
				})
			}
			run(fmt.Sprintf("write %d of %d does nothing", i+1, writes), true, func(k, off, n int) (int, error) {
				if k == i {
					return 0, nil
				}
				return -1, nil
			})
			run(fmt.Sprintf("write %d of %d is interrupted twice", i+1, writes), true, func(k, off, n int) (int, error) {
				if k == i || k == i+1 {
					return 0, syscall.EINTR
				}
				return -1, nil
			})
		}
		run("every write is short", true, func(k, off, n int) (int, error) { return (n + 1) / 2, nil })
		run("every other write is interrupted", true, func(k, off, n int) (int, error) {
			if k%2 == 0 {
				return 0, syscall.EINTR
			}
			return -1, nil
		})
		for _, c := range spread(total, 10*limit) {
			run(fmt.Sprintf("%d of %d bytes fit", c, total), true, full(c, syscall.ENOSPC))
		}
		run("it just fits", true, full(total, syscall.ENOSPC))
		if w.Thorough {
			few := spread(writes, 12)
			for _, i := range few {
				for _, j := range few {
					i, j := i, j
					if i >= j {
						continue
					}
					run(fmt.Sprintf("write %d is interrupted, write %d fails once", i+1, j+1), true, func(k, off, n int) (int, error) {
						switch k {
						case i:
							return 0, syscall.EINTR
						case j:
							return 0, syscall.ENOSPC
						}
						return -1, nil
					})
				}
			}
		}
	})
}

// spread gives all of 0..n-1 or limit of them with the first and the last few.
func spread(n, limit int) (r []int) {
	if n <= limit {
		for i := 0; i < n; i++ {
			r = append(r, i)
		}
		return r
	}
	last := -1
	for k := 0; k < limit; k++ {
		i := k * (n - 1) / (limit - 1)
		if k < 3 {
			i = k
		} else if k >= limit-3 {
			i = n - (limit - k)
		}
		if i > last {
			r = append(r, i)
			last = i
		}
	}
	return r
}

// c27imports has imports and scripts that print and make transactions.
func (w *W) c27imports(sizes []int) {
	const conf = "[importdefs.dd]\naccount = \"D\"\ncounteraccount = \"E:C\"\nccy = \"DEF\"\nconfigtype = \"json\"\n[importdefs.cc]\naccount = \"D\"\ncounteraccount = \"E:C\"\nccy = \"DEF\"\nconfigtype = \"csv\"\n"
	parts := []string{
		`add(date="2020-01-15", desc="p", amt=5)`,
		`add(date="2020-01-16", desc="q", amt="-7.25", note="n")`,
		`print("one")`,
		`print("a line\nand another")`,
		`print("")`,
		`[print(i) for i in range(20)]`,
		`[add(date="2020-02-%02d" % (i+1), desc="r%d" % i, amt=i+1) for i in range(20)]`,
		`x = 1`,
	}
	max := 2
	if w.Thorough {
		max = 3
	}
	for n := 1; n <= max; n++ {
		seqs(len(parts), n, func(s []int) {
			if w.Done() {
				return
			}
			var code []string
			for _, k := range s {
				code = append(code, parts[k])
			}
			src := strings.Join(code, "\n")
			for _, c := range [][]string{{"import", "dd", "--code", src, "DATA"}, {"import", "cc", "--code", "file:CODE", "DATA"}, {"generate", "--code", strings.Replace(src, "desc=", "account=\"D\", caccount=\"E\", ccy=\"DEF\", desc=", -1)}} {
				if c[0] == "generate" && n > 3 {
					continue
				}
				size := 0
				if len(s) > 1 && s[0] == 0 {
					size = 2
				}
				w.fullCase(size, outCmd{conf, c}, "", func(args []string) []string {
					args = append([]string(nil), args...)
					for i := range args {
						switch args[i] {
						case "DATA":
							args[i] = w.write("d.dat", "[]")
						case "file:CODE":
							args[i] = "file:" + w.write("code.star", src)
						}
					}
					return args
				})
			}
		})
	}
}

// c27real runs the built program.
func (w *W) c27real(cmds []outCmd) {
	prog := os.Getenv("VERIF_GOLEDGER")
	if prog == "" {
		panic("harness: the program has not been built")
	}
	dev, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		dev = nil
	} else {
		defer dev.Close()
	}
	for _, n := range []int{1, 7, 40} {
		for _, c := range cmds {
			n, c := n, c
			w.Case(func() string {
				return fmt.Sprintf("%d transactions: the program goledger %s onto a full disk and into a closed pipe", n, strings.Join(c.args, " "))
			}, func(t *T) {
				args := append([]string{"--ledger", w.write("t.ledger", screenLedger(n))}, c.args...)
				conf := w.write("full.toml", c.conf)
				run := func(f *os.File) (string, string, error) {
					x := exec.Command(prog, args...)
					x.Dir = w.Scratch
					x.Env = []string{"HOME=" + w.Scratch, "GOLEDGER_CONF=" + conf, "LANG=en", "PATH=" + os.Getenv("PATH"), "TZ=UTC"}
					var out, errout bytes.Buffer
					x.Stdout, x.Stderr = &out, &errout
					if f != nil {
						x.Stdout = f
					}
					t.Trans(1)
					err := x.Run()
					return out.String(), errout.String(), err
				}
				out, _, err := run(nil)
				if err != nil || out == "" {
					return // nothing to write
				}
				if dev != nil {
					_, errout, err := run(dev)
					if err == nil || !strings.Contains(err.Error(), "exit status") || strings.TrimSpace(errout) == "" {
						t.Failf("on a full disk the program ends with %v and tells %q", err, clip(errout, 300))
					}
				}
				r, p, err := os.Pipe()
				if err != nil {
					panic("harness: " + err.Error())
				}
				r.Close()
				_, _, err = run(p)
				p.Close()
				if err == nil {
					t.Failf("the program reports success after writing into a closed pipe")
				}
				t.Nontrivial(fmt.Sprint(n, c.args))
				t.State(fmt.Sprint(n, c.args))
			})
		}
	}
}
