package main

import (
	"bytes"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"

	"verif/cli"
	"verif/fw"
	"verif/img"
	"verif/ngen"
)

type reorderCase struct {
	Seed     uint64
	Order    string // "" = flag not given
	NewOrder string
	In       string // file name, or "-"
	Out      string // file name, "-", or "" for none
	OutOld   bool   // the output file exists already
	OldSize  int    // and has this many bytes
	Force    int    // 0 none, 1 -f, 2 --overwrite
	Size     int
	Eq       bool // --order=x rather than --order x
	FlagsEnd bool // flags after the arguments
}

// orderOf is the documented meaning of an extension.
func orderOf(name string) string {
	switch strings.ToLower(filepath.Ext(name)) {
	case ".do", ".dsk":
		return "do"
	case ".po":
		return "po"
	}
	return ""
}

func opposite(o string) string {
	if o == "do" {
		return "po"
	}
	return "do"
}

func reorderName(t *rapid.T, base string) string {
	if rapid.IntRange(0, 14).Draw(t, "bare") == 0 {
		return base[:0] + rapid.SampledFrom([]string{"do", "po", "dsk", ".po", ".do", ".x.dsk"}).Draw(t, "barename")
	}
	return ngen.Dir(t) + base + ngen.Ext(t)
}

func init() {
	fw.Rule("C02", "Drawn: a `reorder` command line (flags in any form and place, input and output names with known, unknown, mixed-case and double extensions, `-` for either), the state of the output file and the image size. Oracle: the documented decision table plus an independent sector move; every file of the scratch directory is compared before and after. Non-trivial: every case whose orders come from more than one source or that must be refused; distinct by case.",
		"`--order auto` written out is the same as no flag.")
	fw.Draw("C02", "decide", 8000, 60000, func(t *rapid.T) reorderCase {
		c := reorderCase{
			Seed:     rapid.Uint64().Draw(t, "seed"),
			Order:    rapid.SampledFrom([]string{"", "", "", "auto", "do", "po"}).Draw(t, "order"),
			NewOrder: rapid.SampledFrom([]string{"", "", "", "auto", "do", "po"}).Draw(t, "neworder"),
			In:       "-",
			OutOld:   rapid.Bool().Draw(t, "old"), OldSize: rapid.SampledFrom([]int{0, 31, 31, img.Size, 200000}).Draw(t, "oldsize"),
			Force: rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "force"),
			Size:  img.Size,
			Eq:    rapid.Bool().Draw(t, "eq"), FlagsEnd: rapid.Bool().Draw(t, "end"),
		}
		if rapid.IntRange(0, 7).Draw(t, "stdin") > 0 {
			c.In = reorderName(t, "a")
		}
		switch rapid.IntRange(0, 5).Draw(t, "outkind") {
		case 0:
		case 1:
			c.Out = "-"
		case 2:
			c.Out = c.In
		default:
			c.Out = reorderName(t, "out")
		}
		if rapid.IntRange(0, 7).Draw(t, "bad") == 0 {
			c.Size = rapid.SampledFrom([]int{0, 1, 143359, 143361, 116480, 819200, 142848, 143616, 286720}).Draw(t, "size")
		}
		return c
	}, runReorder)
}

// unsafeName says that a name leads out of the scratch directory, or is not a
// file name at all.
func unsafeName(n string) bool {
	c := filepath.Clean(n)
	return n != "" && (filepath.IsAbs(n) || c == "." || strings.HasPrefix(c, "..") || strings.HasSuffix(n, "/") || strings.ContainsRune(n, 0) || len(n) > 100 || n[0] == '-' && n != "-")
}

// mkdirs makes every directory that a name mentions.
func mkdirs(dir, n string) {
	for i := range n {
		if n[i] == '/' && i > 0 {
			if err := os.MkdirAll(filepath.Join(dir, n[:i]), 0o755); err != nil {
				panic(err)
			}
		}
	}
}

func runReorder(e *fw.Env, c reorderCase) {
	if c.Size < 0 || c.Size > 1<<22 || c.In == "" || c.OldSize < 0 || c.OldSize > 1<<20 || unsafeName(c.In) || unsafeName(c.Out) {
		return
	}
	d := e.Dir()
	in := img.Bytes(c.Seed, c.Size)
	for _, n := range []string{c.In, c.Out} {
		mkdirs(d, n)
	}
	if c.Out != "" && c.Out != "-" && c.OutOld {
		cli.Write(d, c.Out, img.Bytes(c.Seed+1, c.OldSize))
	}
	if c.In != "-" {
		cli.Write(d, c.In, in)
	}
	was := cli.Snapshot(d)
	_, outExists := was[filepath.Clean(c.Out)]

	// Oracle.
	norm := func(s string) string {
		if s == "auto" {
			return ""
		}
		return s
	}
	from, to := norm(c.Order), norm(c.NewOrder)
	sources := 0
	if from == "" && to == "" {
		from, to = orderOf(c.In), orderOf(c.Out)
	}
	if from != "" {
		sources++
	}
	if to != "" {
		sources++
	}
	ok := sources > 0
	if from == "" && to != "" {
		from = opposite(to)
	} else if to == "" && from != "" {
		to = opposite(from)
	}
	ok = ok && from != to && c.Size == img.Size
	target := c.Out
	if target == "" {
		target = c.In
	} else if target != "-" && outExists && c.Force == 0 {
		ok = false
	}

	var flags []string
	flag := func(name, v string) {
		if v == "" {
			return
		}
		if c.Eq {
			flags = append(flags, name+"="+v)
		} else {
			flags = append(flags, name, v)
		}
	}
	flag("--order", c.Order)
	flag("--new-order", c.NewOrder)
	switch c.Force {
	case 1:
		flags = append(flags, "-f")
	case 2:
		flags = append(flags, "--overwrite")
	}
	args := []string{c.In}
	if c.Out != "" {
		args = append(args, c.Out)
	}
	if c.FlagsEnd {
		args = append(args, flags...)
	} else {
		args = append(flags, args...)
	}
	args = append([]string{"reorder"}, args...)
	var r cli.Result
	if c.In == "-" {
		r = cli.RunV(e, d, args, cli.Stdin(in))
	} else {
		r = cli.RunV(e, d, args)
	}
	e.Label("ok=%v in-place=%v stdin=%v stdout=%v sources=%d", ok, c.Out == "", c.In == "-", target == "-", sources)
	if !ok {
		e.Nontrivial()
		r.Refused(e)
		cli.Unchanged(e, d, was, args)
		e.Check(len(r.Out) < img.Size, "%q was refused but wrote %d bytes to stdout", args, len(r.Out))
		return
	}
	if sources > 1 || c.Out == "" {
		e.Nontrivial()
	}
	r.OK(e)
	want := img.Reorder(in, from, to)
	if target == "-" {
		e.Check(bytes.Equal(r.Out, want), "%q: stdout: %s", args, cli.Diff(want, r.Out))
	} else {
		was[filepath.Clean(target)] = string(want)
		e.Check(len(r.Out) == 0, "%q printed %d bytes", args, len(r.Out))
	}
	cli.Unchanged(e, d, was, args)
}
