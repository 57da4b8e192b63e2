package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"
)

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(2)
}

func writeJSON(path string, v interface{}) {
	f, err := os.Create(path)
	if err != nil {
		die("%v", err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	if err := json.NewEncoder(w).Encode(v); err != nil {
		die("%v", err)
	}
	w.Flush()
	f.Close()
}

func readJSON(path string, v interface{}) {
	data, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	if err := json.Unmarshal(data, v); err != nil {
		die("%s: %v", path, err)
	}
}

// guarded runs f, and says what the harness itself could not do.
func guarded(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(infra); ok {
				msg = x.msg
				return
			}
			panic(r)
		}
	}()
	f()
	return ""
}

func main() {
	if len(os.Args) < 2 {
		die("usage: harness gen|run|lex ...")
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	prof := fs.String("profile", "general", "")
	seed := fs.Int64("seed", 1, "")
	n := fs.Int("n", 100, "")
	out := fs.String("out", "", "")
	in := fs.String("in", "", "")
	progress := fs.Bool("progress", false, "")
	lenient := fs.Bool("lenient", false, "")
	group := fs.Int("group", 3, "")
	goroutines := fs.Int("goroutines", 3, "")
	limit := fs.Int("limit", 20, "")
	parallel := fs.Int("parallel", runtime.NumCPU(), "")
	fs.Parse(os.Args[2:])
	debug.SetMaxStack(64 << 20)
	switch os.Args[1] {
	case "gen": // n programs of a profile
		p := profileOf(*prof)
		ps := make([]Program, *n)
		for i := range ps {
			s := *seed*1000003 + int64(i)
			ps[i] = Generate(p, s, fmt.Sprintf("%s-%d-%d", *prof, *seed, i))
		}
		writeJSON(*out, ps)
	case "run": // execute programs: their traces, and the texts
		var ps []Program
		readJSON(*in, &ps)
		traces, msgs := runAll(ps, time.Duration(*limit)*time.Second, *parallel)
		for i, m := range msgs {
			if m != "" && !*lenient {
				die("program %s: %s", ps[i].ID, m)
			}
		}
		writeJSON(*out, traces)
	case "grammar": // the fluent interface
		writeJSON(*out, grammar())
	case "conc": // execute programs concurrently
		var ps []Program
		readJSON(*in, &ps)
		go watchMemory()
		writeJSON(*out, conc(ps, *group, *goroutines))
	case "worker":
		work(os.Stdin, os.Stdout, *progress)
	case "text": // execute programs: the texts
		var ps []Program
		readJSON(*in, &ps)
		for _, p := range ps {
			for _, o := range Run(p).Outs {
				for _, b := range o.Obs {
					fmt.Printf("%s %d %s %s\n", p.ID, o.H, b.X, quoteASCII(b.T))
				}
			}
		}
	case "tags": // of the operations of programs
		var ts []Task
		readJSON(*in, &ts)
		tags := [][]string{}
		for _, t := range ts {
			tags = append(tags, tagsOf(t.Program))
		}
		writeJSON(*out, tags)
	case "shrink":
		var ts []Task
		readJSON(*in, &ts)
		cs := []Candidate{}
		for i, t := range ts {
			for _, c := range candidates(t.Program, t.H, *n) {
				c.Task = i
				cs = append(cs, c)
			}
		}
		writeJSON(*out, cs)
	case "lex":
		var texts []string
		readJSON(*in, &texts)
		toks := make([][]string, len(texts))
		for i, t := range texts {
			toks[i] = Lex(unprintable(t))
		}
		writeJSON(*out, toks)
	default:
		die("no command %s", os.Args[1])
	}
}
