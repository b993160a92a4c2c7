//go:build verifmc

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/mescanne/goledger/cmd"
)

// cliOut is what a command printed and how it ended.
type cliOut struct {
	out, errout string
	err         error
}

func (o cliOut) String() string {
	return fmt.Sprintf("output %q, error %v", clip(o.out, 2000), o.err)
}

var cliFiles [2]*os.File
var lastConf = "\x00"

func readBack(f *os.File) string {
	st, err := f.Stat()
	if err != nil {
		panic("harness: " + err.Error())
	}
	b := make([]byte, st.Size())
	if len(b) > 0 {
		if _, err := f.ReadAt(b, 0); err != nil {
			panic("harness: " + err.Error())
		}
		f.Truncate(0)
		f.Seek(0, 0)
	}
	return string(b)
}

// cli runs one command line of the real program in this process, with the given configuration file.
func (w *W) cli(conf string, args ...string) cliOut {
	w.cliFilesReady()
	cf := filepath.Join(w.Scratch, "conf.toml")
	if conf != lastConf {
		w.write("conf.toml", conf)
		lastConf = conf
	}
	os.Setenv("GOLEDGER_CONF", cf)
	os.Args = append([]string{"goledger"}, args...)
	os.Stdout, os.Stderr = cliFiles[0], cliFiles[1]
	os.Stdin = devnull
	err := cmd.Execute()
	restoreStd()
	return cliOut{readBack(cliFiles[0]), readBack(cliFiles[1]), err}
}

func (w *W) cliFilesReady() {
	for i := range cliFiles {
		if cliFiles[i] == nil {
			f, err := os.OpenFile(filepath.Join(w.Scratch, fmt.Sprintf(".std%d", i)), os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
			if err != nil {
				panic("harness: " + err.Error())
			}
			cliFiles[i] = f
		} else {
			readBack(cliFiles[i]) // left over from a case that panicked
		}
	}
}

func (w *W) write(name, content string) string {
	fn := filepath.Join(w.Scratch, name)
	if strings.Contains(name, "/") {
		os.MkdirAll(filepath.Dir(fn), 0755)
	}
	if err := os.WriteFile(fn, []byte(content), 0644); err != nil {
		panic("harness: " + err.Error())
	}
	return fn
}

var tomlEsc = strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "\n", "\\n", "\t", "\\t")

func tomlStr(s string) string { return "\"" + tomlEsc.Replace(s) + "\"" }

func tomlMacros(m map[string][]string, names []string) string {
	var sb strings.Builder
	sb.WriteString("[macros]\n")
	for _, n := range names {
		if _, ok := m[n]; !ok {
			continue
		}
		sb.WriteString(tomlStr(n) + " = [")
		for _, o := range m[n] {
			sb.WriteString(tomlStr(o) + ", ")
		}
		sb.WriteString("]\n")
	}
	return sb.String()
}
