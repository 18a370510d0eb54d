package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"

	"verif/fw"
)

// A case is the work on a few images, and the order in which its steps are interleaved.
type indepCase struct {
	Lanes []lane
	Sched []int
}

var names = []string{"", "F0", "F1", "F3", "F8", "P0", "P3", "SUB", "SUB/INNER", "VOL/SUB", "SUB/SUB", "DF10", "10", "DF13", "FIL0", "fil2", "DF05:NEWNAME", "07:FIL1", "NEWNAME", "DANGLE",
	"1234", "1234:FIL0", "DF03", "NOSUCH", "TEXT", "T", "B", "BIN", "SOS file (reserved)"}

func drawLane(t *rapid.T) lane {
	l := lane{
		Kind:   rapid.SampledFrom([]string{"dos33", "prodos", "twins", "nakedos", "nakedos", "nakednost", "hdv", "zero", "wrongsize", "junk"}).Draw(t, "kind"),
		Seed:   uint64(rapid.IntRange(0, 40).Draw(t, "seed")),
		Stored: rapid.SampledFrom([]string{"do", "po"}).Draw(t, "stored"),
		Order:  rapid.SampledFrom([]string{"auto", "auto", "do", "po"}).Draw(t, "order"),
		System: rapid.SampledFrom([]string{"auto", "auto", "auto", "dos3", "nakedos", "prodos"}).Draw(t, "system"),
	}
	switch {
	case l.Kind == "hdv":
		l.Ext = ".hdv"
	case rapid.IntRange(0, 3).Draw(t, "plain") > 0:
		l.Ext = ".dsk"
	default:
		l.Ext = rapid.SampledFrom([]string{"", ".do", ".po", ".DSK", ".hdv", ".xyz"}).Draw(t, "ext")
	}
	if rapid.IntRange(0, 4).Draw(t, "flip?") == 0 {
		l.Flip = rapid.IntRange(1, 143360).Draw(t, "flip")
	}
	l.Ops = rapid.SliceOfN(rapid.Custom(drawOp), 1, 8).Draw(t, "ops")
	return l
}

func drawOp(t *rapid.T) op {
	return op{
		K: rapid.IntRange(0, nOps-1).Draw(t, "k"),
		A: rapid.OneOf(rapid.IntRange(0, 20000), rapid.IntRange(0, 9)).Draw(t, "a"),
		N: rapid.SampledFrom(names).Draw(t, "n"),
	}
}

func drawCase(t *rapid.T) indepCase {
	n := rapid.IntRange(2, 4).Draw(t, "lanes")
	var c indepCase
	for i := 0; i < n; i++ {
		l := drawLane(t)
		if i > 0 {
			// Images that are much alike: the same kind, name and steps.
			first := c.Lanes[0]
			switch rapid.IntRange(0, 4).Draw(t, "like") {
			case 0:
				l = first
				l.Flip = rapid.IntRange(1, 143360).Draw(t, "flip")
			case 1:
				l.Kind, l.Ext, l.Stored, l.Order, l.System, l.Ops = first.Kind, first.Ext, first.Stored, first.Order, first.System, first.Ops
			case 2:
				l.Ops = first.Ops
			case 3:
				// The same image file, asked for in another way.
				l.Kind, l.Seed, l.Flip, l.Stored, l.Ext = first.Kind, first.Seed, first.Flip, first.Stored, first.Ext
			}
		}
		c.Lanes = append(c.Lanes, l)
	}
	c.Sched = rapid.SliceOfN(rapid.IntRange(0, 3), 0, 30).Draw(t, "sched")
	return c
}

func init() {
	fw.Rule("C26", "a case is the work on two to four images (opening, listing, getting, putting, deleting, writing back, decoding programs and sectors), often much alike; every result is compared with the result of the same work alone: interleaved step by step by a generated schedule, in goroutines at the same time, the same in a new process under the race detector, or in a process of its own. Non-trivial: at least two lanes opened an image and returned something.",
		"one image is used by one goroutine only")
	fw.Draw("C26", "interleave", 3000, 60000, drawCase, runInterleave)
	fw.Draw("C26", "parallel", 2000, 40000, drawCase, runParallel)
	fw.Draw("C26", "race", 240, 4000, drawCase, runRace)
	fw.Draw("C26", "fresh", 400, 4000, drawCase, runFresh)
}

func (c indepCase) bounded() indepCase {
	if len(c.Lanes) > 6 {
		c.Lanes = c.Lanes[:6]
	}
	for i := range c.Lanes {
		if len(c.Lanes[i].Ops) > 50 {
			c.Lanes[i].Ops = c.Lanes[i].Ops[:50]
		}
	}
	return c
}

// same compares what the steps of lane i returned with what they return alone.
func same(e *fw.Env, how string, i int, l lane, got, want []string) {
	for k := range want {
		g := "nothing"
		if k < len(got) {
			g = got[k]
		}
		what := "opening it"
		switch {
		case k == len(want)-1:
			e.Check(g == "", "lane %d (%s, seed %d), %s: %s", i, l.Kind, l.Seed, how, clip(g))
			what = "the end"
		case k > 0:
			what = fmt.Sprintf("operation %d (%+v)", k-1, l.Ops[k-1])
		}
		if g != want[k] {
			p := 0
			for p < len(g) && p < len(want[k]) && g[p] == want[k][p] {
				p++
			}
			from := max(0, p-60)
			e.Failf("lane %d (%s, seed %d): %s returns, %s, ...%s; alone, it returns ...%s", i, l.Kind, l.Seed, what, how, clip(g[from:]), clip(want[k][from:]))
		}
	}
}

func note(e *fw.Env, c indepCase, want [][]string) {
	opened := 0
	for i, w := range want {
		if strings.HasPrefix(w[0], "opened") {
			opened++
		}
		e.Label("%s: %s", c.Lanes[i].Kind, strings.SplitN(w[0], ":", 2)[0])
	}
	if opened > 1 {
		e.Nontrivial()
	}
}

func runInterleave(e *fw.Env, c indepCase) {
	c = c.bounded()
	var want [][]string
	for i, l := range c.Lanes {
		want = append(want, alone(l, e.Dir()))
		same(e, "alone", i, l, want[i], want[i])
	}
	note(e, c, want)
	got := make([][]string, len(c.Lanes))
	var ws []*world
	for _, l := range c.Lanes {
		ws = append(ws, start(l, e.Dir()))
	}
	step := func(i int) bool {
		done := len(got[i]) - 1
		if done == len(c.Lanes[i].Ops) {
			return false
		}
		got[i] = append(got[i], ws[i].step(done))
		return true
	}
	for _, s := range c.Sched {
		if len(ws) > 0 {
			step(pos(s, len(ws)))
		}
	}
	for i := range ws {
		for step(i) {
		}
	}
	for i, w := range ws {
		got[i] = append(got[i], w.end())
	}
	for i, l := range c.Lanes {
		same(e, "interleaved with the others", i, l, got[i], want[i])
	}
	for i := len(c.Lanes) - 1; i >= 0; i-- {
		same(e, "once more after the others", i, c.Lanes[i], alone(c.Lanes[i], e.Dir()), want[i])
	}
}

// together runs the lanes at the same time, each of them twice.
func together(c indepCase, dir func() string) [][]string {
	got := make([][]string, 2*len(c.Lanes))
	var wg sync.WaitGroup
	gate := make(chan bool)
	for k := range got {
		l, d := c.Lanes[k%len(c.Lanes)], dir()
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			<-gate
			got[k] = alone(l, d)
		}(k)
	}
	close(gate)
	wg.Wait()
	return got
}

func runParallel(e *fw.Env, c indepCase) {
	c = c.bounded()
	var want [][]string
	for _, l := range c.Lanes {
		want = append(want, alone(l, e.Dir()))
	}
	note(e, c, want)
	for k, g := range together(c, e.Dir) {
		i := k % len(c.Lanes)
		same(e, "at the same time as the others", i, c.Lanes[i], g, want[i])
	}
}

// runRace does the same in a new process, under the race detector.
func runRace(e *fw.Env, c indepCase) {
	c = c.bounded()
	exe := os.Getenv("VERIF_RACE_BIN")
	if exe == "" {
		e.Label("no race detector")
		return
	}
	var want [][]string
	for _, l := range c.Lanes {
		want = append(want, alone(l, e.Dir()))
	}
	note(e, c, want)
	d := e.Dir()
	var got [][]string
	call(e, exe, "-together", c, &got, d, "GORACE=log_path="+filepath.Join(d, "race")+" exitcode=0")
	logs, _ := filepath.Glob(filepath.Join(d, "race.*"))
	for _, f := range logs {
		r, _ := os.ReadFile(f)
		e.Check(len(r) == 0, "working on several images at once is a data race: %s", summary(r))
	}
	e.Check(len(got) == 2*len(want), "under the race detector: %d answers", len(got))
	for k, g := range got {
		i := k % len(c.Lanes)
		same(e, "at the same time as the others", i, c.Lanes[i], g, want[i])
	}
}

// call runs a harness command in a process of its own.
func call(e *fw.Env, exe, mode string, in, out any, dir string, env ...string) {
	js, _ := json.Marshal(in)
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, mode)
	cmd.Stdin = bytes.NewReader(js)
	cmd.Env = append(append(os.Environ(), "VERIF_LANE_DIR="+dir), env...)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	e.Check(err == nil, "%s in a process of its own: %v: %s", mode, err, clip(stderr.String()))
	e.Check(json.Unmarshal(b, out) == nil, "%s in a process of its own: unreadable answer", mode)
}

// summary picks the places in the code under test out of a race report.
func summary(r []byte) string {
	var s []string
	for _, l := range strings.Split(string(r), "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, " at 0x") || strings.HasPrefix(l, "github.com/zellyn") {
			s = append(s, l)
		}
		if len(s) == 6 {
			break
		}
	}
	return strings.Join(s, " < ")
}

func runFresh(e *fw.Env, c indepCase) {
	c = c.bounded()
	exe, err := os.Executable()
	if err != nil {
		e.Failf("cannot find the harness: %v", err)
	}
	var want [][]string
	for i, l := range c.Lanes {
		var w []string
		call(e, exe, "-lane", l, &w, e.Dir())
		e.Check(len(w) == len(l.Ops)+2, "lane %d alone in a process: %d answers", i, len(w))
		want = append(want, w)
	}
	note(e, c, want)
	for i, l := range c.Lanes {
		same(e, "in a process that has worked on other images", i, l, alone(l, e.Dir()), want[i])
	}
}
