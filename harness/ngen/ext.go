package ngen

import "pgregory.net/rapid"

// Ext draws a file name extension: the known ones in any case, near misses of
// them, and others.
func Ext(t *rapid.T) string {
	known := rapid.SampledFrom([]string{".do", ".po", ".dsk", ".do", ".po", ".dsk", ".DO", ".Po", ".DSK", ".dSk", ".pO", ".hdv", ".HDV"})
	letter := rapid.Custom(func(t *rapid.T) string {
		return rapid.SampledFrom([]string{"a", "d", "o", "p", "s", "k", "x", "D", "O", "P", "1", "-", "_", " ", "~"}).Draw(t, "letter")
	})
	switch rapid.IntRange(0, 11).Draw(t, "extkind") {
	case 0:
		return ""
	case 1:
		return rapid.SampledFrom([]string{".img", ".nib", ".2mg", ".bin", ".d", ".p", ".o", ".raw", ".auto", ".d13", ".2img", ".woz", ".image", ".dc", ".dsk2", ".do33", ".dos", ".prodos", ".pro", ".dd", ".iie", ".apple", ".txt"}).Draw(t, "other")
	case 2:
		return known.Draw(t, "first") + known.Draw(t, "last")
	case 3: // something before it
		k := known.Draw(t, "known")
		return "." + letter.Draw(t, "pre") + k[1:]
	case 4: // something after it
		return known.Draw(t, "known") + letter.Draw(t, "post")
	case 5: // one letter dropped or changed
		k := known.Draw(t, "known")
		i := rapid.IntRange(1, len(k)-1).Draw(t, "at")
		return k[:i] + rapid.SampledFrom([]string{"", "x", "o", "d"}).Draw(t, "by") + k[i+1:]
	case 6:
		return known.Draw(t, "known") + "."
	case 7: // the letters without a dot of their own
		return rapid.SampledFrom([]string{"po", "do", "dsk", "PO", "Dsk", ".undo", ".tempo", ".todo", ".expo", ".todo.po"}).Draw(t, "tail")
	}
	return known.Draw(t, "known")
}

// Dir draws a directory part that has extensions of its own.
func Dir(t *rapid.T) string {
	return rapid.SampledFrom([]string{"", "", "", "", "", "s/", "d.po/", "d.do/", "d.dsk/", "d.hdv/", "d.x/", "./", "d.po/../", "s//"}).Draw(t, "dir")
}
