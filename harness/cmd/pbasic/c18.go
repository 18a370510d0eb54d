package main

import (
	"strings"

	"github.com/zellyn/diskii/basic"
	"github.com/zellyn/diskii/basic/integer"
	"pgregory.net/rapid"

	"verif/fw"
)

// chevron is the reference escaping. 1B, whose form is not documented, is
// shown as "?".
func chevron(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= 0x20 || c == '\n' || c == '\t':
			b.WriteByte(c)
		case c >= 1 && c <= 0x1A:
			b.WriteString("«ctrl-" + string(rune('A'+c-1)) + "»")
		default:
			b.WriteString("«" + map[byte]string{0: "NUL", 0x1B: "?", 0x1C: "FS", 0x1D: "GS", 0x1E: "RS", 0x1F: "US"}[c] + "»")
		}
	}
	return b.String()
}

type text struct{ B []byte }

func init() {
	fw.Rule("C18", "a case is a byte string (valid UTF-8 or not), escaped by both packages and compared byte by byte with a reference escaping. Non-trivial: it contains a control code.",
		"how 1B is shown is not documented: only that it is replaced by something in chevrons")
	ch := rapid.OneOf(
		rapid.Custom(func(t *rapid.T) byte { return byte(rapid.IntRange(0, 0x1F).Draw(t, "ctl")) }),
		rapid.Custom(func(t *rapid.T) byte { return byte(rapid.IntRange(0x20, 0x7F).Draw(t, "chr")) }),
		rapid.Byte(),
		rapid.SampledFrom([]byte{0xC2, 0xAB, 0xBB, '\n', '\t', '\r', 0x1B, 0x1A, 0x1C, 0x20, 0x7F, 0x80}),
	)
	fw.Draw("C18", "escape", 1500000, 15000000, func(t *rapid.T) text {
		return text{rapid.SliceOfN(ch, 0, 40).Draw(t, "bytes")}
	}, runChevron)
	fw.Enum("C18", "pairs", func(tier string, yield func(text) bool) {
		for a := 0; a < 256; a++ {
			if !yield(text{[]byte{byte(a)}}) {
				return
			}
			for b := 0; b < 256; b++ {
				if !yield(text{[]byte{byte(a), byte(b)}}) {
					return
				}
			}
		}
	}, runChevron)
}

func runChevron(e *fw.Env, c text) {
	s := string(c.B)
	for name, f := range map[string]func(string) string{"basic": basic.ChevronControlCodes, "integer": integer.ChevronControlCodes} {
		got := f(s)
		// Walk both, so that 1B may be anything in chevrons.
		rest := got
		for i := 0; i < len(s); i++ {
			if s[i] == 0x1B {
				end := strings.Index(rest, "»")
				e.Check(strings.HasPrefix(rest, "«") && end > 0, "%s: 1B in %q is not replaced by a chevron form: %q", name, s, got)
				rest = rest[end+len("»"):]
				e.Nontrivial()
				continue
			}
			want := chevron(s[i : i+1])
			e.Check(strings.HasPrefix(rest, want), "%s: %q becomes %q, where byte %d should become %q", name, s, got, i, want)
			rest = rest[len(want):]
			if want != s[i:i+1] {
				e.Nontrivial()
			}
		}
		e.Check(rest == "", "%s: %q becomes %q, with %q left over", name, s, got, rest)
		for i := 0; i < len(got); i++ {
			e.Check(got[i] >= 0x20 || got[i] == '\n' || got[i] == '\t', "%s: %q becomes %q, which has a control code", name, s, got)
		}
		again := f(got)
		e.Check(again == got, "%s: escaping %q again gives %q", name, got, again)
	}
}
