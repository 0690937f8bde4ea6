package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// A persistent z3 used for path-feasibility pruning: "unknown" counts as feasible.
type pruner struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

func newPruner() *pruner {
	p := &pruner{}
	p.start()
	return p
}

func (p *pruner) start() {
	p.cmd = exec.Command("z3-new", "-in", "-t:400", "-memory:2000")
	p.in, _ = p.cmd.StdinPipe()
	out, _ := p.cmd.StdoutPipe()
	p.out = bufio.NewReader(out)
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
}

func (p *pruner) close() {
	if p.cmd != nil {
		p.in.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
		p.cmd = nil
	}
}

func (p *pruner) unsat(c *Ctx, asserts []*T) bool {
	p.n++
	s := "(reset)\n(set-option :timeout 300)\n" + ground(c, asserts) + "(check-sat)\n(echo \"done\")\n"
	if _, err := io.WriteString(p.in, s); err != nil {
		p.close()
		p.start()
		return false
	}
	res := ""
	ch := make(chan struct{})
	timer := time.AfterFunc(1500*time.Millisecond, func() { p.cmd.Process.Kill() })
	for {
		line, err := p.out.ReadString('\n')
		if err != nil {
			timer.Stop()
			p.close()
			p.start()
			return false
		}
		line = strings.TrimSpace(line)
		if line == "done" || line == "\"done\"" {
			break
		}
		if line == "unsat" {
			res = line
		}
		if strings.HasPrefix(line, "(error") {
			fatalf("pruner: %s\n%s", line, s)
		}
	}
	timer.Stop()
	close(ch)
	return res == "unsat"
}

// candLimit marks the queries that settle automatic loop invariants: ground
// instances and a short round only.
const candLimit = 3 * time.Second
const midLimit = 9 * time.Second

type solveResult struct {
	status string // unsat, sat, unknown
	solver string
	model  string
	secs   float64
	limit  time.Duration // the time it was given
	output string
}

var solveSem = make(chan struct{}, 8)

var (
	solveCacheMu sync.Mutex
	solveCache   = map[[32]byte]solveResult{}
)

func runSolver(name string, args []string, script string, limit time.Duration) (string, string) {
	ctx, cancel := context.WithTimeout(context.Background(), limit+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	s := out.String()
	for strings.HasPrefix(s, "WARNING") {
		// z3 drops a trigger it cannot use and says so before its answer
		_, s, _ = strings.Cut(s, "\n")
	}
	first := strings.TrimSpace(strings.SplitN(s, "\n", 2)[0])
	switch first {
	case "sat", "unsat":
		return first, s
	}
	return "unknown", s
}

// solve decides the conjunction of asserts, trying the back ends in turn.
func solve(c *Ctx, asserts []*T, limit time.Duration) solveResult {
	body := c.script(asserts)
	return solveText(body, limit)
}

func ground(c *Ctx, asserts []*T) string {
	g, _ := c.render(asserts, true)
	return g
}

// solveText decides a script; one with quantified axioms comes as the script over
// their ground instances and, after a zero byte, the script over the axioms.
func solveText(body string, limit time.Duration) solveResult {
	g, full, two := strings.Cut(body, "\x00")
	if !two {
		return solveOne(body, limit)
	}
	r := solveOne(g, limit)
	if r.status == "unsat" || limit <= candLimit {
		return r
	}
	f := solveOne(full, limit/2)
	if f.status != "unknown" {
		return f
	}
	r.output += " | with quantified axioms: " + f.output
	r.secs += f.secs
	return r
}

func solveOne(body string, limit time.Duration) solveResult {
	h := sha256.Sum256([]byte(body))
	solveCacheMu.Lock()
	known, tried := solveCache[h]
	solveCacheMu.Unlock()
	if tried && (known.status != "unknown" || limit <= known.limit) {
		return known
	}
	solveSem <- struct{}{}
	defer func() { <-solveSem }()
	start := time.Now()
	ms := int(limit / time.Millisecond)
	var r solveResult
	quant := strings.Contains(body, "(forall ") || strings.Contains(body, "(exists ")
	type be struct {
		name string
		args []string
		pre  string
		lim  time.Duration
	}
	z3n := be{"z3-new", []string{"-in", fmt.Sprintf("-t:%d", ms), "-memory:3000"}, "", limit}
	z3 := be{"z3", []string{"-in", fmt.Sprintf("-t:%d", ms), "-memory:3000"}, "", limit}
	cv := be{"cvc5", []string{"--lang=smt2", "--strings-exp", "--produce-models", fmt.Sprintf("--tlimit=%d", ms)}, "(set-logic ALL)\n", limit}
	_ = quant
	// a short round of the two complementary back ends first, then the full one
	short := func(b be, first time.Duration) be {
		b.args = append([]string{}, b.args...)
		b.lim = min(first+time.Second/2, limit)
		for i, a := range b.args {
			if strings.HasPrefix(a, "-t:") {
				b.args[i] = fmt.Sprintf("-t:%d", first.Milliseconds())
			}
			if strings.HasPrefix(a, "--tlimit=") {
				b.args[i] = fmt.Sprintf("--tlimit=%d", first.Milliseconds())
			}
		}
		return b
	}
	const first, second = 1500 * time.Millisecond, 8 * time.Second
	var order []be
	if !tried {
		order = append(order, short(z3n, first), short(cv, first))
	}
	if limit > candLimit && known.limit < midLimit {
		order = append(order, short(cv, second), short(z3n, second))
	}
	if limit > midLimit {
		order = append(order, z3n, cv, z3)
	}
	var outs []string
	for _, b := range order {
		st, out := runSolver(b.name, b.args, b.pre+body+"(check-sat)\n", b.lim)
		outs = append(outs, b.name+": "+firstLines(out, 3))
		if st != "unknown" {
			r.status, r.solver = st, b.name
			if st == "sat" && limit > candLimit {
				_, m := runSolver(b.name, b.args, b.pre+"(set-option :produce-models true)\n"+body+"(check-sat)\n(get-model)\n", limit)
				r.model = m
			}
			break
		}
	}
	if r.status == "" {
		r.status = "unknown"
	}
	r.limit = limit
	r.output = strings.Join(outs, "; ")
	r.secs = time.Since(start).Seconds()
	solveCacheMu.Lock()
	solveCache[h] = r
	solveCacheMu.Unlock()
	return r
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.TrimSpace(strings.Join(l, " "))
}
