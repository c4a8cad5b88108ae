package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	root := flag.String("repo", "/repo", "source tree to analyse")
	check := flag.String("check", "", "comma separated property identifiers, or all")
	verif := flag.String("verif", "/verif", "directory of the evidence and known findings")
	run := flag.String("run", "", "analyse one function: pkg.Func or pkg.Type.Method")
	flag.Parse()
	debug.SetGCPercent(400)
	if f := os.Getenv("GC_PROF"); f != "" {
		w, err := os.Create(f)
		if err == nil {
			pprof.StartCPUProfile(w)
			time.AfterFunc(40*time.Second, pprof.StopCPUProfile)
		}
	}
	t := time.Now()
	p, err := Load(*root)
	if err != nil {
		fmt.Println("gltfcheck:", err)
		os.Exit(2)
	}
	if *run != "" {
		devRun(p, *run)
		return
	}
	os.Exit(runChecks(p, *check, *verif, t))
}

func findFn(p *Program, name string) *ssa.Function {
	parts := strings.Split(name, ".")
	if len(parts) == 2 {
		return p.Func(parts[0], parts[1])
	}
	return p.Method(parts[0], parts[1], parts[2])
}

func devRun(p *Program, name string) {
	fn := findFn(p, name)
	if fn == nil {
		fmt.Println("no function", name)
		os.Exit(2)
	}
	e := NewEngine(p)
	t := time.Now()
	e.InitBase()
	fmt.Println("init", time.Since(t))
	st := e.Base.clone()
	var args []Value
	for _, pa := range fn.Params {
		args = append(args, symIn(pa.Type(), pa.Name()))
	}
	t = time.Now()
	outs := e.fn(st, fn, args, nil)
	for i, o := range outs {
		fmt.Printf("--- outcome %d panic=%v\n", i, o.panic)
		for _, r := range o.ret {
			fmt.Println("  ret", valStr(r))
		}
		for _, f := range o.st.F.log {
			fmt.Println("   |", f.String())
		}
		for _, ev := range o.st.ev.list() {
			fmt.Println("   ev", evStr(ev))
		}
		for ob, c := range o.st.heap {
			if b, ok := e.Base.heap[ob]; ok && b.key() == c.key() {
				continue
			}
			fmt.Println("   obj", ob.Term, "=", c.key())
		}
	}
	for _, a := range e.Alarms {
		fmt.Println("ALARM", a.Kind, a.Pos, a.Fn, a.Msg)
		for _, l := range a.Path {
			fmt.Println("      ", l)
		}
	}
	fmt.Println("steps", e.steps, "funcs", len(e.Funcs), "oblig", e.Oblig, "time", time.Since(t), "ext", e.External)
}

func evStr(ev *Ev) string {
	s := ev.Kind
	for _, a := range ev.Args {
		s += " " + valStr(a)
	}
	if ev.Loop != nil {
		s += " LOOP " + ev.Loop.ID + " upper " + ev.Loop.Upper.String()
		for i, a := range ev.Alts {
			s += fmt.Sprintf(" alt%d{", i)
			for _, x := range a {
				s += evStr(x) + "; "
			}
			s += "}"
		}
	}
	return s
}
