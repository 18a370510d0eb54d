package main

import (
	"bytes"
	"fmt"

	"pgregory.net/rapid"

	"verif/cli"
	"verif/fw"
	"verif/img"
	"verif/ngen"
)

// ncmd is one command of a history.
type ncmd struct {
	Kind     string // put rm dump ls
	Alias    int
	Name     nname
	Size     int
	Rel      bool // Size is relative to the space available
	Fill     uint64
	Force    int  // 0 none, 1 short, 2 long
	StdinImg bool // the image is read from - and written to -
	StdinSrc bool
	Order    bool // give --order
	System   bool // give --system
	Type     string
	Addr     string
	Short    int
	After    bool // flags after the arguments
}

type ncliCase struct {
	Disk  img.NDisk
	Full  bool // a full symbol table
	Names []string
	Order string
	Guess bool // ProDOS order under a name that does not tell
	Ext   int
	Flag  bool // the name does not tell the order
	Cmds  []ncmd
}

func drawCmd(t *rapid.T, nnames int) ncmd {
	c := ncmd{
		Kind:     rapid.SampledFrom([]string{"put", "put", "put", "rm", "rm", "dump", "ls"}).Draw(t, "kind"),
		Alias:    rapid.IntRange(0, 3).Draw(t, "alias"),
		Name:     drawName(t, nnames),
		Fill:     rapid.Uint64().Draw(t, "fill"),
		Force:    rapid.IntRange(0, 2).Draw(t, "force"),
		StdinImg: rapid.IntRange(0, 5).Draw(t, "stdinimg") == 0,
		StdinSrc: rapid.IntRange(0, 5).Draw(t, "stdinsrc") == 0,
		Order:    rapid.IntRange(0, 2).Draw(t, "giveorder") == 0,
		System:   rapid.IntRange(0, 3).Draw(t, "givesystem") == 0,
		Type:     rapid.SampledFrom([]string{"", "", "", "B", "BIN"}).Draw(t, "type"),
		Addr:     rapid.SampledFrom([]string{"", "", "", "0", "0x0801", "65535"}).Draw(t, "addr"),
		Short:    rapid.IntRange(0, 2).Draw(t, "short"),
		After:    rapid.Bool().Draw(t, "after"),
	}
	if rapid.IntRange(0, 3).Draw(t, "rel") == 0 {
		c.Rel = true
		c.Size = rapid.SampledFrom([]int{-512, -256, -255, -1, 0, 0, 1, 256, 1000}).Draw(t, "delta")
	} else {
		c.Size = rapid.OneOf(rapid.SampledFrom([]int{1, 2, 255, 256, 257, 511, 512, 513}), rapid.IntRange(1, 2000), rapid.IntRange(1, 20000)).Draw(t, "size")
	}
	return c
}

func drawNCLI(t *rapid.T) ncliCase {
	c := ncliCase{Names: ngen.Names(t), Order: rapid.SampledFrom([]string{"do", "po"}).Draw(t, "order"), Ext: rapid.IntRange(0, 13).Draw(t, "ext"),
		Flag: rapid.IntRange(0, 2).Draw(t, "flag") == 0, Guess: rapid.IntRange(0, 2).Draw(t, "guess") == 0, Full: rapid.IntRange(0, 15).Draw(t, "full") == 0}
	c.Disk = ngen.Disk(t, rapid.IntRange(0, 5).Draw(t, "st") > 0, c.Names)
	n := rapid.IntRange(1, 12).Draw(t, "ncmds")
	for i := 0; i < n; i++ {
		c.Cmds = append(c.Cmds, drawCmd(t, len(c.Names)))
	}
	return c
}

// ncli is a running history.
type ncli struct {
	e     *fw.Env
	c     ncliCase
	dir   string
	name  string // image file
	image []byte // its bytes
	now   nos
	wrote bool
	guess bool // the order has to be guessed
	i     int
}

func runNCLI(e *fw.Env, c ncliCase) {
	if c.Order != "do" && c.Order != "po" || len(c.Cmds) > 60 {
		return
	}
	d := c.Disk
	if c.Full {
		for i := 0; len(d.Symbols()) < 819 && i < 2000; i++ {
			d.Syms = append(d.Syms, img.NSym{Name: fmt.Sprintf("X%c%c%d", 'A'+i%26, 'A'+i/26%26, i%10), Addr: uint16(0x2000 + i)})
		}
	}
	phys := d.Build()
	h := &ncli{e: e, c: c, dir: e.Dir(), name: imageName(c.Order, c.Ext, c.Flag), now: readNOS(phys)}
	if c.Guess && !c.Flag && c.Order == "po" && c.Ext >= 0 {
		h.guess = true
		h.name = []string{"d.dsk", "d", "d.DSK", "s.po/d.dsk"}[c.Ext%4]
	}
	if !h.now.usable() || h.now.st != d.ST {
		return
	}
	for _, n := range c.Names {
		if ngen.NumLike(n) || !img.NValidName(n) {
			return
		}
	}
	h.image = img.Reorder(phys, "raw", c.Order)
	cli.Write(h.dir, h.name, h.image)
	cli.Write(h.dir, "another.dsk", []byte("some other file"))
	for i, k := range c.Cmds {
		h.i = i
		h.step(k)
	}
	// Everything is still there in the end.
	h.step(ncmd{Kind: "ls"})
	h.step(ncmd{Kind: "ls", Short: 1})
	for f := 1; f < 0xFE; f++ {
		if _, ok := h.now.files[byte(f)]; ok && (f%8 == int(c.Disk.Seed%8) || len(h.now.files) < 6) {
			h.step(ncmd{Kind: "dump", Name: nname{Form: 2, Num: byte(f)}})
		}
	}
	if h.wrote {
		e.Nontrivial()
	}
}

func (h *ncli) step(k ncmd) {
	e := h.e
	if k.Kind != "put" && k.Name.Form > 3 {
		k.Name.Form = 3
	}
	full, num, sym := k.Name.parts(h.c.Names)
	if full == "" && k.Kind != "ls" {
		return
	}
	target := num
	if num == 0 {
		target = h.now.symFile(sym)
	}
	verbs := map[string][]string{"put": {"put"}, "rm": {"rm", "delete"}, "dump": {"dump"}, "ls": {"ls", "list", "cat", "catalog"}}[k.Kind]
	if verbs == nil || k.Alias < 0 {
		return
	}
	if h.guess && !guessed(h.image) {
		return
	}
	args := []string{verbs[k.Alias%len(verbs)]}
	var flags []string
	if h.c.Flag || k.Order || k.StdinImg && h.c.Order == "po" && !h.guess {
		flags = append(flags, "--order", h.c.Order)
	}
	if k.System {
		s := "auto"
		if k.Kind == "ls" {
			s = "nakedos"
		}
		flags = append(flags, "--system="+s)
	}
	image := h.name
	var opts []cli.Opt
	if k.StdinImg {
		image = "-"
		opts = append(opts, cli.Stdin(h.image))
	}
	pos := []string{image}
	why := ""
	var data []byte
	switch k.Kind {
	case "put":
		if target > 0xFD || h.now.table(target) {
			return
		}
		size := k.Size
		if k.Rel {
			size += 256 * (h.now.free() + len(h.now.files[target])/256)
		}
		if size < 1 || size > 600*256 || !h.now.st && (target == 3 || target == 4 || target == 0) && (size+255)/256 == 16 {
			return
		}
		if why = h.now.why(target, sym, size, k.Force > 0); why != "" {
			e.Label("put refused: %s", why)
		}
		data = img.Bytes(k.Fill, size)
		src := "source.bin"
		if k.StdinSrc && !k.StdinImg {
			src = "-"
			opts = append(opts, cli.Stdin(data))
		} else {
			cli.Write(h.dir, src, data)
		}
		pos = append(pos, full, src)
		if k.Force == 1 {
			flags = append(flags, "-f")
		} else if k.Force == 2 {
			flags = append(flags, "--overwrite")
		}
		if k.Type != "" {
			flags = append(flags, "--filetype-name", k.Type)
		}
		if k.Addr != "" {
			flags = append(flags, "--address", k.Addr)
		}
	case "rm":
		if target > 0xFD || h.now.table(target) {
			return
		}
		pos = append(pos, full)
		if k.Force == 1 {
			flags = append(flags, "-f")
		} else if k.Force == 2 {
			flags = append(flags, "--missing-ok")
		}
		if _, ok := h.now.files[target]; !ok && k.Force == 0 {
			why = "missing"
			e.Label("rm refused: missing")
		}
	case "dump":
		pos = append(pos, full)
		if _, ok := h.now.files[target]; !ok {
			why = "missing"
			e.Label("dump refused: missing")
		}
	case "ls":
		if k.Short == 1 {
			flags = append(flags, "-s")
		} else if k.Short == 2 {
			flags = append(flags, "--short-names")
		}
	}
	if k.After {
		args = append(append(args, pos...), flags...)
	} else {
		args = append(append(args, flags...), pos...)
	}
	was := cli.Snapshot(h.dir)
	r := cli.RunV(e, h.dir, args, opts...)
	what := fmt.Sprintf("command %d, %q", h.i, args)
	if why != "" {
		r.Refused(e)
		cli.Unchanged(e, h.dir, was, what)
		e.Check(len(r.Out) < img.Size, "%s was refused but wrote %d bytes to stdout", what, len(r.Out))
		return
	}
	r.OK(e)
	switch k.Kind {
	case "ls":
		cli.Unchanged(e, h.dir, was, what)
		h.now.list(e, what, r.Out, k.Short > 0)
		e.Label("ls")
		return
	case "dump":
		cli.Unchanged(e, h.dir, was, what)
		want := h.now.files[target]
		e.Check(bytes.Equal(r.Out, want), "%s: %s", what, cli.Diff(want, r.Out))
		e.Label("dump")
		return
	}
	var out []byte
	if k.StdinImg {
		cli.Unchanged(e, h.dir, was, what)
		out = append([]byte(nil), r.Out...)
		cli.Write(h.dir, h.name, out)
		e.Label("%s through stdin and stdout", k.Kind)
	} else {
		e.Check(len(r.Out) == 0, "%s printed %d bytes", what, len(r.Out))
		out = cli.Read(e, h.dir, h.name)
		was[h.name] = string(out)
		cli.Unchanged(e, h.dir, was, what)
	}
	if h.guess {
		e.Label("guessed order")
	}
	e.Check(len(out) == img.Size, "%s left an image of %d bytes", what, len(out))
	phys := img.Reorder(out, h.c.Order, "raw")
	next := h.now.copy()
	switch k.Kind {
	case "put":
		_, existed := next.files[target]
		if target == 0 {
			target = readNOS(phys).symFile(sym)
			e.Check(target != 0, "%s: no file named %s afterwards", what, sym)
			_, used := next.files[target]
			e.Check(!used && !next.table(target), "%s took file number %02X, which was in use", what, target)
		}
		next.files[target] = ngen.Pad(data)
		if sym != "" {
			next.syms[sym] = 0xDF00 + uint16(target)
		}
		e.Label("put, overwrote %v, symbol %v", existed, sym != "")
	case "rm":
		_, existed := next.files[target]
		delete(next.files, target)
		if sym != "" && target != 0 {
			if _, still := readNOS(phys).syms[sym]; existed || !still {
				// Removing a symbol that has no file is left open.
				delete(next.syms, sym)
			}
		}
		e.Label("rm, existed %v, symbol %v", existed, sym != "")
	}
	next.same(e, what, phys)
	next.b = phys
	h.now = next
	for f, c := range readNOS(phys).files {
		h.now.files[f] = c
	}
	h.image = out
	h.wrote = true
	if h.now.free() == 0 {
		e.Label("disk full")
	}
}

func init() {
	fw.Rule("C22", "a case is a generated NakedOS image file in either order (named by extension or by --order) and a history of put, rm, dump and ls command lines, with aliases, flags in any place and `-` for image or data. After every command the image file is decoded by independent code and compared with the model; refused commands must leave every file as it was. Non-trivial: at least one command changed the image.",
		"files 3 and 4 of a disk with a symbol table are not written or removed directly",
		"whether `rm -f` of a symbol that points at no file removes the symbol is left open")
	fw.Draw("C22", "history", 1500, 20000, drawNCLI, runNCLI)
}
