package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/zellyn/diskii/types"
	"pgregory.net/rapid"

	"verif/cli"
	"verif/fw"
)

// row is one file type, from the ProDOS/SOS file type table (ProDOS Technical
// Reference Manual) and the DOS 3.3 types without a ProDOS equivalent.
type row struct {
	Type       int
	Name       string
	Three, One string
	Desc       string
	Extra      bool
}

var table = func() []row {
	t := []row{
		{0x00, "Typeless", "", "", "Typeless file", false},
		{0x01, "BadBlocks", "", "", "Bad blocks file", false},
		{0x02, "SOSPascalCode", "", "", "PASCAL code file", true},
		{0x03, "SOSPascalText", "", "", "PASCAL text file", true},
		{0x04, "ASCIIText", "TXT", "T", "ASCII text file", false},
		{0x05, "SOSPascalText2", "", "", "PASCAL text file", true},
		{0x06, "Binary", "BIN", "B", "Binary file", false},
		{0x07, "Font", "", "", "Font file", true},
		{0x08, "GraphicsScreen", "", "", "Graphics screen file", true},
		{0x09, "BusinessBASIC", "", "", "Business BASIC program file", true},
		{0x0A, "BusinessBASICData", "", "", "Business BASIC data file", true},
		{0x0B, "SOSWordProcessor", "", "", "Word processor file", true},
		{0x0C, "SOSSystem", "", "", "SOS system file", true},
		{0x0F, "Directory", "DIR", "D", "Directory file", false},
		{0x10, "RPSData", "", "", "RPS data file", true},
		{0x11, "RPSIndex", "", "", "RPS index file", true},
		{0x19, "AppleWorksDatabase", "ADB", "", "AppleWorks data base file", false},
		{0x1A, "AppleWorksWordProcessor", "AWP", "", "AppleWorks word processing file", false},
		{0x1B, "AppleWorksSpreadsheet", "ASP", "", "AppleWorks spreadsheet file", false},
		{0xEF, "Pascal", "PAS", "", "ProDOS PASCAL file", false},
		{0xF0, "Command", "CMD", "", "Added command file", false},
		{0xFA, "IntegerBASIC", "INT", "I", "Integer BASIC program file", false},
		{0xFB, "IntegerBASICVariables", "IVR", "", "Integer BASIC variables file", false},
		{0xFC, "ApplesoftBASIC", "BAS", "A", "Applesoft BASIC program file", false},
		{0xFD, "ApplesoftBASICVariables", "VAR", "", "Applesoft BASIC variables file", false},
		{0xFE, "Relocatable", "REL", "R", "EDASM relocatable object module file", false},
		{0xFF, "System", "SYS", "", "System file", false},
		{0x100, "S", "", "S", `DOS 3.3 Type "S"`, false},
		{0x101, "NewA", "", "A", `DOS 3.3 Type "new A"`, false},
		{0x102, "NewB", "", "B", `DOS 3.3 Type "new B"`, false},
	}
	for i := 0xF1; i <= 0xF8; i++ {
		t = append(t, row{i, fmt.Sprintf("UserDefined%02X", i), "", "", fmt.Sprintf("ProDOS user defined file type %02X", i), true})
	}
	have := map[int]bool{0xF9: true}
	for _, r := range t {
		have[r.Type] = true
	}
	for i := 0; i < 256; i++ {
		switch {
		case have[i]:
		case i < 0xC0:
			t = append(t, row{i, fmt.Sprintf("SOSReserved%02X", i), "", "", fmt.Sprintf("SOS reserved for future use %02X", i), true})
		default:
			t = append(t, row{i, fmt.Sprintf("ProDOSReserved%02X", i), "", "", fmt.Sprintf("ProDOS reserved for future use %02X", i), true})
		}
	}
	return t
}()

var byType = func() map[int]row {
	m := map[int]row{}
	for _, r := range table {
		m[r.Type] = r
	}
	return m
}()

// byName is what each name finds: with shared one-letter names, the ProDOS
// types A and B come before the DOS-only ones.
var byName = func() map[string]int {
	m := map[string]int{}
	for _, r := range table {
		for _, n := range []string{r.Name, r.Three, r.One} {
			if _, ok := m[n]; !ok && n != "" {
				m[n] = r.Type
			}
		}
	}
	return m
}()

func runName(e *fw.Env, name string) {
	got, err := types.FiletypeForName(name)
	want, ok := byName[name]
	if !ok {
		e.Check(err != nil, "FiletypeForName(%q) = %02X, want an error", name, int(got))
		e.Label("unknown name")
		return
	}
	e.Check(err == nil, "FiletypeForName(%q): %v", name, err)
	e.Check(int(got) == want, "FiletypeForName(%q) = %02X, want %02X", name, int(got), want)
	e.Label("known name")
}

func runType(e *fw.Env, n int) {
	s := types.Filetype(n).String()
	r, ok := byType[n]
	if !ok {
		e.Check(strings.Contains(s, "unknown"), "type %02X prints as %q, want unknown", n, s)
		for _, r := range table {
			e.Check(!strings.Contains(s, r.Name) || len(r.Name) < 4, "type %02X prints as %q", n, s)
		}
		return
	}
	e.Check(strings.Contains(s, r.Desc), "type %02X prints as %q, want its description %q", n, s, r.Desc)
	// The names are between the last parentheses, the full name first.
	i, j := strings.LastIndex(s, "("), strings.LastIndex(s, ")")
	e.Check(i >= 0 && j > i, "type %02X prints as %q, without its names", n, s)
	names := strings.Split(s[i+1:j], "|")
	e.Check(names[0] == r.Name, "type %02X prints as %q, want the name %q", n, s, r.Name)
	want := map[string]bool{r.Name: true}
	for _, x := range []string{r.Three, r.One} {
		if x != "" && byName[x] == n {
			want[x] = true
		}
	}
	got := map[string]bool{}
	for _, x := range names {
		e.Check(want[x], "type %02X prints as %q: %q does not find it", n, s, x)
		got[x] = true
	}
	e.Check(len(got) == len(want), "type %02X prints as %q, want the names %v", n, s, want)
}

// runInfos compares a list of types with the table.
func runInfos(e *fw.Env, all bool) {
	seen := map[int]bool{}
	for _, x := range types.FiletypeInfos(all) {
		r, ok := byType[int(x.Type)]
		e.Check(ok, "FiletypeInfos lists type %02X (%s)", int(x.Type), x.Name)
		e.Check(!seen[r.Type], "FiletypeInfos lists %02X twice", r.Type)
		seen[r.Type] = true
		e.Check(x.Name == r.Name && x.ThreeLetter == r.Three && x.OneLetter == r.One && x.Desc == r.Desc && x.Extra == r.Extra,
			"FiletypeInfos has %+v, want %+v", x, r)
		e.Check(all || !x.Extra, "FiletypeInfos(false) lists %s", x.Name)
	}
	for _, r := range table {
		e.Check(seen[r.Type] == (all || !r.Extra), "FiletypeInfos(%v): %s listed: %v", all, r.Name, seen[r.Type])
	}
}

// runCommand compares the rows that `filetypes` prints.
func runCommand(e *fw.Env, all bool, level int) {
	args := []string{"filetypes"}
	if all {
		args = append(args, "--all")
	}
	for i := 0; i < level && i < 3; i++ {
		args = append(args, "-v")
	}
	dir := e.Dir()
	r := cli.Run(e, dir, args).OK(e)
	ents, _ := os.ReadDir(dir)
	e.Check(len(ents) == 0, "filetypes created %d files", len(ents))
	norm := func(s string) string { return strings.Join(strings.Fields(s), " ") }
	rows := map[string]row{}
	for _, x := range table {
		rows[norm(strings.Join([]string{x.Desc, x.Name, x.Three, x.One}, " "))] = x
	}
	seen := map[string]int{}
	other := 0
	for _, l := range strings.Split(string(r.Out), "\n") {
		l = norm(l)
		if l == "" {
			continue
		}
		if _, ok := rows[l]; ok {
			seen[l]++
		} else {
			other++
		}
	}
	e.Check(other <= 2, "filetypes prints %d lines that are neither a type nor its two heading lines", other)
	for l, x := range rows {
		want := 0
		if all || !x.Extra {
			want = 1
		}
		e.Check(seen[l] == want, "filetypes (all: %v) prints %q %d times, want %d", all, l, seen[l], want)
	}
}

type typeCase struct {
	Kind string
	N    int
	Name string
	All  bool
}

func init() {
	fw.Rule("C21", "cases are every listed name, every type value from -10 to 70000, both forms of the list and of the `filetypes` command, compared with a table written from the ProDOS/SOS file type list; and generated strings (variations of names, prefixes, other case, arbitrary text). Non-trivial: a name or value that is in the table, or differs from one by one character.")
	fw.Enum("C21", "all", func(tier string, yield func(typeCase) bool) {
		for _, all := range []bool{false, true} {
			for _, k := range []string{"infos", "command"} {
				for level := 0; level < 3; level++ {
					if !yield(typeCase{Kind: k, All: all, N: level}) {
						return
					}
				}
			}
		}
		for i := -10; i < 70000; i++ {
			if !yield(typeCase{Kind: "type", N: i}) {
				return
			}
		}
		var known []string
		for n := range byName {
			known = append(known, n)
		}
		// The other texts about a type are not names.
		for _, r := range table {
			known = append(known, r.Desc, r.Desc+" ("+r.Name+")", r.Name+"|"+r.Three, r.Name+"|"+r.One, r.Three+"|"+r.One, r.Name+" "+r.Three, fmt.Sprint(r.Type),
				types.Filetype(r.Type).String(), strings.ToLower(r.Name), strings.ToUpper(r.Name), strings.ToLower(r.Three), strings.ToLower(r.One))
		}
		sort.Strings(known)
		for _, n := range known {
			if !yield(typeCase{Kind: "name", Name: n}) {
				return
			}
		}
		// Every string of up to two printable characters, and the empty one.
		for i := 0; i < 128; i++ {
			for j := 0; j < 128; j++ {
				if !yield(typeCase{Kind: "name", Name: strings.Trim(string([]byte{byte(i), byte(j)}), "\x00")}) {
					return
				}
			}
		}
	}, func(e *fw.Env, c typeCase) {
		switch c.Kind {
		case "infos":
			runInfos(e, c.All)
			e.Nontrivial()
		case "command":
			runCommand(e, c.All, c.N)
			e.Nontrivial()
		case "type":
			runType(e, c.N)
			if _, ok := byType[c.N]; ok {
				e.Nontrivial()
			}
		case "name":
			runName(e, c.Name)
			if _, ok := byName[c.Name]; ok || len(c.Name) < 2 {
				e.Nontrivial()
			}
		}
	})
	var names []string
	for _, r := range table {
		names = append(names, r.Name)
		if r.Three != "" {
			names = append(names, r.Three)
		}
	}
	fw.Draw("C21", "names", 400000, 4000000, func(t *rapid.T) typeCase {
		n := rapid.SampledFrom(names).Draw(t, "base")
		switch rapid.IntRange(0, 7).Draw(t, "how") {
		case 0:
			n = strings.ToLower(n)
		case 1:
			n = strings.ToUpper(n)
		case 2:
			n = n[:rapid.IntRange(0, len(n)).Draw(t, "cut")]
		case 3:
			i := rapid.IntRange(0, len(n)).Draw(t, "at")
			n = n[:i] + rapid.SampledFrom([]string{" ", "|", "x", "2", "\x00", "F"}).Draw(t, "ins") + n[i:]
		case 4:
			i := rapid.IntRange(0, len(n)-1).Draw(t, "at")
			n = n[:i] + n[i+1:]
		case 5:
			n = "Filetype" + n
		case 6:
			n = rapid.String().Draw(t, "any")
		case 7:
			n = fmt.Sprintf(rapid.SampledFrom([]string{"SOSReserved%02X", "ProDOSReserved%02X", "UserDefined%02X", "%02X", "0x%02X", "$%02X"}).Draw(t, "f"), rapid.IntRange(0, 0x110).Draw(t, "v"))
		}
		return typeCase{Kind: "name", Name: n}
	}, func(e *fw.Env, c typeCase) {
		runName(e, c.Name)
		e.Nontrivial()
	})
}
