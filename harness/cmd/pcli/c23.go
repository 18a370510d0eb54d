package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/zellyn/diskii/types"
	"pgregory.net/rapid"

	"verif/cli"
	"verif/fw"
	"verif/img"
)

// anyCase is a command line over an image of any kind.
type anyCase struct {
	Verb  string
	Sys   string // what the image is
	Seed  uint64
	Order string
	Ext   int
	Img   string // img, missing, dir, -
	File  string // name on the disk
	Src   string // source or binary
	Out   string // output of mksd and reorder
	Flags []string
	Args  int    // 0 right, -1 the last argument left out, 1 one too many
	Fault string // "", full (standard output is /dev/full), stdin (standard input cannot be read)
	Raw   string // contents of the program to decode
}

// Flags that every command must reject are marked with !.
var anyFlags = map[string][]string{
	"ls":        {"-s", "--short-names", "--system=auto", "--system=dos3", "--system=prodos", "--system=nakedos", "!--system=cpm", "!--overwrite"},
	"dump":      {"--system=auto", "--system=dos3", "!--system=prodos", "!--system=nakedos", "!-f"},
	"put":       {"-f", "-f", "--overwrite", "--filetype-name=B", "--filetype-name=BIN", "--filetype-name=TXT", "--filetype-name=A", "!--filetype-name=NOPE", "!--filetype-name=", "--address=0x2000", "!--address=0x10000", "!--address=zz", "!--address=-1", "--system=auto", "--system=dos3", "!--system=prodos"},
	"rm":        {"-f", "--missing-ok", "--system=auto", "--system=dos3", "!--system=nakedos", "!--overwrite"},
	"mkhello":   {"--address=0x2000", "--address=0x2000", "!--address=0x2001", "!--address=65536", "--start=0x6100", "!--start=0x10000", "!--start=1", "!-f"},
	"mksd":      {"--address=0x2000", "--address=0x2000", "!--address=0x2001", "!--address=65536", "!--start=0xFFFE", "!--start=1", "!-f"},
	"reorder":   {"-f", "-f", "--overwrite", "--new-order=do", "--new-order=po", "--new-order=auto", "!--new-order=raw"},
	"filetypes": {"--all", "!--short", "!--order=do"},
	"decode":    {"-r", "--raw", "--location=0x801", "--location=2049", "!--location=0x10000", "!--location=a"},
	"nonesuch":  {"!--all"},
	"nakedos":   {"!--all"},
	"applesoft": {"!--raw"},
	"":          {"!--all"},
}

var numberFlags = map[string][]string{"put": {"--address"}, "mkhello": {"--address", "--start"}, "mksd": {"--address", "--start"}, "decode": {"--location"}}

// badFlag says that f is a flag whose value is not one the flag can have:
// no 16-bit number, no type name.
func (c anyCase) badFlag(f string) bool {
	kv := strings.SplitN(f, "=", 2)
	if len(kv) < 2 || strings.ContainsRune(kv[1], 0) {
		return false
	}
	for _, n := range numberFlags[c.Verb] {
		if kv[0] == "!"+n {
			return badNumber(kv[1])
		}
	}
	if c.Verb == "put" && kv[0] == "!--filetype-name" {
		_, err := types.FiletypeForName(kv[1])
		return err != nil
	}
	return false
}

// badNumber says that s is certainly no 16-bit number in any notation.
func badNumber(s string) bool {
	digits := true
	for _, r := range s {
		if !(r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_') {
			return true
		}
		digits = digits && r >= '0' && r <= '9'
	}
	if s == "" {
		return true
	}
	n, err := strconv.Atoi(s)
	return digits && s[0] != '0' && (err != nil || n > 65535)
}

func drawBadFlag(t *rapid.T, verb string) string {
	if verb == "put" && rapid.Bool().Draw(t, "badtype") {
		return "!--filetype-name=" + rapid.OneOf(rapid.StringMatching("[A-Z0-9$]{1,4}"), rapid.StringMatching("[!-~]{0,12}"),
			rapid.SampledFrom([]string{"B ", " B", "BIN ", "B\n", "b", "bin", "ZZ", "04", "$04"})).Draw(t, "type")
	}
	n := rapid.OneOf(
		rapid.Map(rapid.OneOf(rapid.IntRange(1, 65536), rapid.IntRange(1, 1<<20), rapid.SampledFrom([]int{1, 256, 0xA000, 65535 - 0x800, 65536})), func(n int) string { return fmt.Sprint(-n) }),
		rapid.Map(rapid.OneOf(rapid.IntRange(65536, 200000), rapid.IntRange(65536, 1<<40)), func(n int) string { return fmt.Sprint(n) }),
		rapid.StringMatching("[!-~ ]{0,8}"),
		rapid.SampledFrom([]string{"$2000", "0x2000 ", " 8192", "8192.0", "8192,", "-0x2000", "+0x2000", "+8192", "1e-3", "8192\n"}),
	).Draw(t, "number")
	return "!" + rapid.SampledFrom(numberFlags[verb]).Draw(t, "which") + "=" + n
}

// verbArgs says which kind of arguments a command takes.
var verbArgs = map[string][]string{
	"ls": {"img"}, "dump": {"img", "file"}, "put": {"img", "file", "src"}, "rm": {"img", "file"}, "mkhello": {"img", "file"},
	"mksd": {"out", "src"}, "reorder": {"img", "out"}, "filetypes": {}, "decode": {"prog"}, "nonesuch": {}, "nakedos": {}, "applesoft": {}, "": {},
}

var anySystems = []string{"dos33", "prodos", "hdv", "nakedos", "nakedos", "nakednost", "zero", "junk", "wrongsize"}

func drawAny(t *rapid.T) anyCase {
	pick := func(label string, s ...string) string { return rapid.SampledFrom(s).Draw(t, label) }
	c := anyCase{
		Verb:  pick("verb", "ls", "ls", "dump", "dump", "put", "put", "put", "rm", "rm", "mkhello", "mkhello", "mksd", "reorder", "filetypes", "decode", "nonesuch", "nakedos", "applesoft", ""),
		Sys:   pick("sys", anySystems...),
		Seed:  rapid.Uint64().Draw(t, "seed"),
		Order: pick("order", "do", "po"),
		Ext:   rapid.IntRange(0, 13).Draw(t, "ext"),
		Img:   pick("img", "img", "img", "img", "img", "img", "img", "img", "-", "-", "missing", "dir"),
		File:  pick("file", "F0", "F1", "P0", "FIL0", "DANGLE", "70", "70:DANGLE", "DF10", "10", "20", "DF10:NEW", "20:NEW", "NEWNAME", "NOSUCH", "1:2:3", "SUB", "SUB/INNER", "VOL/SUB/INNER", "FHELLO", "toolongforasymbol", "F0 ", "DFFE", "\x01"),
		Src:   pick("src", "src.bin", "src.bin", "src.bin", "src.bin", "big.bin", "missing", "dir", "-"),
		Out:   pick("out", "out.dsk", "out.po", "out.do", "existing.dsk", "existing.po", "-", "nodir/out.dsk", "dir", "/dev/full"),
		Raw:   pick("raw", "ok", "ok", "cut", "noise", "empty"),
		Fault: pick("fault", "", "", "", "full", "full", "stdin"),
	}
	pool := append([]string{"-v"}, anyFlags[c.Verb]...)
	if a := verbArgs[c.Verb]; len(a) > 0 && a[0] != "prog" {
		pool = append(pool, "--order=do", "--order=po", "--order=auto", "!--order=raw", "!--nosuchflag", "!--order=")
	}
	// Half of the cases have no fault in flags, image and source.
	clean := rapid.Bool().Draw(t, "clean")
	if clean {
		var ok []string
		for _, f := range pool {
			if !strings.HasPrefix(f, "!") && f != "--order="+opposite(c.Order) {
				ok = append(ok, f)
			}
		}
		pool = ok
		c.Img = pick("cleanimg", "img", "img", "-")
		c.Sys = pick("cleansys", "nakedos", "nakedos", "nakednost", "dos33", "prodos", "hdv")
		c.Src = pick("cleansrc", "src.bin", "src.bin", "-", "big.bin")
		if c.Sys == "nakedos" {
			c.File = pick("cleanfile", "DF10", "10", "FIL0", "20", "20:NEW", "DF10:NEW", "NEWNAME", "NOSUCH", "DANGLE", "dangle", "DF70", "21:DANGLE")
		}
		c.Out = pick("cleanout", "out.dsk", "out.po", "existing.dsk", "-")
		if c.Img == "-" && c.Order == "po" && c.Verb != "decode" && c.Verb != "mksd" && c.Verb != "filetypes" {
			c.Flags = []string{"--order=po"}
		}
	}
	seen := map[string]bool{"--order": len(c.Flags) > 0}
	for n := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3}).Draw(t, "nflags"); n > 0; n-- {
		f := rapid.SampledFrom(pool).Draw(t, "flag")
		key := strings.TrimPrefix(strings.SplitN(f, "=", 2)[0], "!")
		if key == "--overwrite" || key == "--missing-ok" {
			key = "-f"
		}
		if !seen[key] {
			seen[key] = true
			c.Flags = append(c.Flags, f)
		}
	}
	if !clean && rapid.IntRange(0, 7).Draw(t, "args") == 0 {
		c.Args = rapid.SampledFrom([]int{-1, 1}).Draw(t, "howargs")
	}
	return c
}

// anyRun is one prepared run.
type anyRun struct {
	args   []string
	target string // the one file a success may change ("" none)
	must   string // why it must fail ("" not known)
	stdin  []byte
	reads  bool // reads standard input
	image  []byte
	name   string
	stdout bool // a success writes the image to standard output
}

func (c anyCase) has(f ...string) bool {
	for _, x := range c.Flags {
		for _, y := range f {
			if x == y {
				return true
			}
		}
	}
	return false
}

func (c anyCase) flagValue(name string) string {
	for _, x := range c.Flags {
		if strings.HasPrefix(x, name+"=") {
			return x[len(name)+1:]
		}
	}
	return ""
}

func applesoftProgram(kind string, seed uint64) []byte {
	// 10 PRINT "HI" : REM ...
	p := []byte{0, 0, 10, 0, 0xBA, '"', 'H', 'I', '"', 0, 0, 0}
	p[0], p[1] = 0x0B, 0x08
	switch kind {
	case "cut":
		return p[:6]
	case "empty":
		return nil
	case "noise":
		return img.Bytes(seed, 300)
	}
	return p
}

func (c anyCase) prepare(dir string) *anyRun {
	pos, ok := verbArgs[c.Verb]
	if !ok {
		return nil
	}
	r := &anyRun{name: "absent"}
	// Files.
	known := false
	for _, s := range anySystems {
		known = known || s == c.Sys
	}
	if !known || c.Order != "do" && c.Order != "po" {
		return nil
	}
	name := imageName(c.Order, c.Ext, false)
	if c.Sys == "hdv" {
		name = "d.hdv"
	}
	r.image = sysImage(c.Sys, c.Seed, c.Order)
	r.name = name
	if err := os.Mkdir(filepath.Join(dir, "dir"), 0o755); err != nil {
		panic(err)
	}
	cli.Write(dir, name, r.image)
	src := img.Bytes(c.Seed+1, 1+int(c.Seed%700))
	cli.Write(dir, "src.bin", src)
	cli.Write(dir, "big.bin", img.Bytes(c.Seed+2, 200000))
	cli.Write(dir, "existing.dsk", []byte("existing"))
	cli.Write(dir, "existing.po", []byte("existing too"))
	prog := applesoftProgram(c.Raw, c.Seed)
	cli.Write(dir, "prog", prog)
	fail := func(why string) {
		if r.must == "" {
			r.must = why
		}
	}
	// The command line.
	switch c.Verb {
	case "":
	case "mkhello":
		r.args = []string{"nakedos", "mkhello"}
	case "decode":
		r.args = []string{"applesoft", "decode"}
	default:
		r.args = []string{c.Verb}
	}
	for _, f := range c.Flags {
		if strings.HasPrefix(f, "!") {
			fail("flag " + f[1:])
		}
		r.args = append(r.args, strings.TrimPrefix(f, "!"))
	}
	imgArg, useImg := name, false
	switch c.Img {
	case "img":
	case "missing":
		imgArg = "missing.dsk"
	case "dir":
		imgArg = "dir"
	case "-":
		imgArg = "-"
	default:
		return nil
	}
	dash := 0
	var vals []string
	for _, p := range pos {
		switch p {
		case "img":
			vals = append(vals, imgArg)
			useImg = true
			if imgArg == "-" {
				dash++
				r.stdin = r.image
			}
			if c.Img == "missing" || c.Img == "dir" {
				fail("image " + c.Img)
			}
		case "file":
			if c.File == "" || strings.HasPrefix(c.File, "-") || strings.Contains(c.File, "\x00") {
				return nil
			}
			vals = append(vals, c.File)
		case "src":
			switch c.Src {
			case "-":
				dash++
				r.stdin = src
			case "missing", "dir":
				fail("source " + c.Src)
			case "src.bin", "big.bin":
			default:
				return nil
			}
			vals = append(vals, c.Src)
		case "out":
			switch c.Out {
			case "nodir/out.dsk", "dir":
				fail("output " + c.Out)
			case "/dev/full":
				fail("output device full")
			case "-":
				r.stdout = true
			case "out.dsk", "out.po", "out.do", "existing.dsk", "existing.po":
				r.target = c.Out
			default:
				return nil
			}
			vals = append(vals, c.Out)
		case "prog":
			if c.Img == "-" {
				dash++
				r.stdin = prog
				vals = append(vals, "-")
			} else {
				vals = append(vals, "prog")
			}
		}
	}
	if dash == 2 {
		fail("two readers of standard input")
		r.stdin = nil
	}
	r.reads = dash > 0
	switch {
	case c.Args < 0:
		// reorder's output and decode's file are optional.
		if len(vals) == 0 || c.Verb == "reorder" || c.Verb == "decode" {
			return nil
		}
		vals = vals[:len(vals)-1]
		fail("argument missing")
	case c.Args > 0:
		vals = append(vals, "surplus")
		if c.Verb != "ls" {
			fail("surplus argument")
		}
	}
	if c.Verb == "" || c.Verb == "nonesuch" || c.Verb == "nakedos" || c.Verb == "applesoft" {
		fail("no such command")
	}
	if len(vals) > 0 {
		r.args = append(append(r.args, "--"), vals...)
	}
	if c.Verb == "put" || c.Verb == "rm" || c.Verb == "mkhello" {
		r.target = name
		if imgArg == "-" {
			r.stdout = true
			r.target = ""
		}
	}
	if r.must != "" {
		return r
	}
	// What the image must not allow.
	if useImg && len(r.image) != img.Size && c.Sys != "hdv" {
		fail("image size")
	}
	if c.Sys == "hdv" && (imgArg == "-" || c.Verb == "reorder") && useImg {
		fail("image size")
	}
	order, system := c.flagValue("--order"), c.flagValue("--system")
	right := (order == "" || order == "auto" || order == c.Order) && c.Sys != "hdv" || c.Sys == "hdv" && order != "do"
	if imgArg == "-" && (order == "" || order == "auto") && c.Order == "po" {
		right = false // the order has to be guessed
	}
	if c.Sys == "hdv" && order == "do" && useImg {
		fail("device in DOS order")
	}
	sysRight := system == "" || system == "auto" || system == map[string]string{"dos33": "dos3", "prodos": "prodos", "hdv": "prodos", "nakedos": "nakedos", "nakednost": "nakedos"}[c.Sys]
	noSys := c.Sys == "zero" || c.Sys == "junk"
	if useImg && noSys && (system == "" || system == "auto") && c.Verb != "reorder" && !(c.Sys == "zero" && c.Verb == "ls") {
		fail("no known system")
	}
	if !right || !sysRight {
		return r
	}
	naked := c.Sys == "nakedos" || c.Sys == "nakednost"
	switch c.Verb {
	case "ls":
		if c.Args > 0 {
			fail("no such directory")
		}
	case "dump":
		if c.Sys == "prodos" || c.Sys == "hdv" {
			fail("dump of a ProDOS file")
		}
		if c.File == "NOSUCH" || c.File == "1:2:3" {
			fail("no such file")
		}
	case "rm":
		if !naked {
			fail("rm on " + c.Sys)
		}
		if c.File == "NOSUCH" && !c.has("-f", "--missing-ok") {
			fail("no such file")
		}
	case "put":
		if !naked {
			fail("put on " + c.Sys)
		}
		if c.Src == "big.bin" {
			fail("too big")
		}
		if c.has("--filetype-name=TXT", "--filetype-name=A") {
			fail("not binary")
		}
		if (c.File == "DF10" || c.File == "10") && !c.has("-f", "--overwrite") {
			fail("file exists")
		}
		if c.Sys == "nakednost" && (c.File == "NOSUCH" || c.File == "20:NEW") {
			fail("no symbol table")
		}
		if c.File == "1:2:3" {
			fail("bad name")
		}
	case "mkhello":
		if c.Sys != "nakedos" {
			fail("mkhello on " + c.Sys)
		}
		if c.File == "NOSUCH" {
			fail("no such file")
		}
	case "mksd":
		if c.Src == "big.bin" {
			fail("too big")
		}
	case "reorder":
		if strings.HasPrefix(c.Out, "existing") && !c.has("-f", "--overwrite") {
			fail("output exists")
		}
	}
	return r
}

func withStdin(f *os.File) cli.Opt { return func(c *exec.Cmd) { c.Stdin = f } }

func runAny(e *fw.Env, c anyCase) {
	for _, f := range c.Flags {
		ok := f == "-v" || holds(f, "--order=", "--nosuchflag")
		for _, g := range anyFlags[c.Verb] {
			ok = ok || f == g
		}
		ok = ok || c.badFlag(f)
		if !ok {
			return
		}
	}
	dir := e.Dir()
	r := c.prepare(dir)
	if r == nil {
		return
	}
	was := cli.Snapshot(dir)
	var opts []cli.Opt
	if c.Fault == "stdin" && r.reads {
		f, err := os.Open(filepath.Join(dir, "dir"))
		if err != nil {
			panic(err)
		}
		defer f.Close()
		opts = append(opts, withStdin(f))
		if r.must == "" {
			r.must = "standard input cannot be read"
		}
	} else if r.stdin != nil {
		opts = append(opts, cli.Stdin(r.stdin))
	}
	res := cli.RunV(e, dir, r.args, opts...)
	what := fmt.Sprintf("%q", r.args)
	readOnly := c.Verb == "ls" || c.Verb == "dump" || c.Verb == "filetypes" || c.Verb == "decode"
	e.Check(res.Crash == "", "%s: %s", what, res.Crash)
	if r.must != "" {
		e.Check(res.Code != 0, "%s: exit 0, but it cannot do what was asked (%s)", what, r.must)
	}
	if res.Code != 0 {
		res.Refused(e)
		cli.Unchanged(e, dir, was, what)
		why := r.must
		if why == "" {
			why = "other"
		}
		e.Label("%s fails: %s", c.Verb, why)
		e.Nontrivial()
		return
	}
	now := cli.Snapshot(dir)
	if readOnly || r.stdout {
		r.target = ""
	}
	if r.target != "" {
		was2 := map[string]string{}
		for k, v := range was {
			was2[k] = v
		}
		v, ok := now[r.target]
		e.Check(ok, "%s: exit 0, but there is no %s", what, r.target)
		was2[r.target] = v
		cli.Unchanged(e, dir, was2, what)
	} else {
		cli.Unchanged(e, dir, was, what)
	}
	e.Label("%s succeeds on %s", c.Verb, c.Sys)
	if len(res.Out) == 0 || c.Fault != "full" {
		return
	}
	// The same command again, with standard output on a full device.
	if r.target != "" {
		return
	}
	full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	defer full.Close()
	var again []cli.Opt
	if r.stdin != nil {
		again = append(again, cli.Stdin(r.stdin))
	}
	res = cli.RunV(e, dir, r.args, append(again, cli.StdoutTo(full))...)
	e.Check(res.Crash == "", "%s with a full output device: %s", what, res.Crash)
	e.Check(res.Code != 0, "%s: exit 0, but its output could not be written (device full)", what)
	res.Refused(e)
	cli.Unchanged(e, dir, was, what)
	e.Label("%s: output device full", c.Verb)
	e.Nontrivial()
}

func init() {
	fw.Rule("C23", "a case is a command line (any command, valid and invalid flags and arguments, missing files, directories, `-`) over an image of any kind, with a fault: standard output on a full device, or unreadable standard input. Every file of the scratch directory is compared before and after. A table of reasons says which commands must fail. Non-trivial: the command failed, or was run again with a full device.",
		"a write to the output file itself that fails half-way is not injected; a full device named as output is",
		"an all-zero image is listed as an empty ProDOS volume; whether it should be is left open",
		"commands run as root: permission errors are not generated")
	fw.Draw("C23", "any", 8000, 80000, drawAny, runAny)
	// Every flag of every command over every kind of image.
	fw.Enum("C23", "each", func(tier string, yield func(anyCase) bool) {
		var verbs []string
		for v := range verbArgs {
			verbs = append(verbs, v)
		}
		sort.Strings(verbs)
		for _, v := range verbs {
			flags := append([]string{""}, anyFlags[v]...)
			for _, f := range flags {
				for i, s := range anySystems {
					if i > 0 && anySystems[i-1] == s || len(verbArgs[v]) == 0 && i > 0 {
						continue
					}
					for _, order := range []string{"do", "po"} {
						for _, file := range []string{"DF10", "F0", "20", "NOSUCH", "DANGLE"} {
							c := anyCase{Verb: v, Sys: s, Seed: uint64(i) * 77, Order: order, Img: "img", File: file, Src: "src.bin", Out: "out.dsk", Raw: "ok", Fault: "full"}
							if f != "" {
								c.Flags = []string{f}
							}
							if v == "reorder" || v == "mksd" {
								c.Out = map[string]string{"DF10": "out.dsk", "F0": "existing.po", "20": "-", "NOSUCH": "/dev/full", "DANGLE": "existing.dsk"}[file]
							} else if !holds(strings.Join(verbArgs[v], " "), "file") && file != "F0" {
								continue
							}
							if !yield(c) {
								return
							}
						}
					}
				}
			}
		}
	}, runAny)
	// Values that a flag cannot have, in commands with no other fault.
	fw.Draw("C23", "values", 1200, 15000, func(t *rapid.T) anyCase {
		c := anyCase{Verb: rapid.SampledFrom([]string{"put", "put", "mkhello", "mksd", "decode"}).Draw(t, "verb"), Sys: "nakedos", Seed: rapid.Uint64().Draw(t, "seed"),
			Order: rapid.SampledFrom([]string{"do", "po"}).Draw(t, "order"), Ext: rapid.IntRange(0, 13).Draw(t, "ext"),
			Img: "img", File: "DF10", Src: "src.bin", Out: rapid.SampledFrom([]string{"out.dsk", "existing.dsk", "-"}).Draw(t, "out"), Raw: "ok"}
		if c.Verb == "put" {
			c.Flags = []string{"-f"}
		}
		c.Flags = append(c.Flags, drawBadFlag(t, c.Verb))
		return c
	}, runAny)
}
