// Command pindep decides C26: work on one image never shows in another.
//
// check.sh builds it twice, once with the race detector.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"

	"verif/fw"
)

func main() {
	// A fresh process that runs one lane alone, or several at the same time:
	// the work on stdin, what its operations returned on stdout.
	if len(os.Args) == 2 && (os.Args[1] == "-lane" || os.Args[1] == "-together") {
		dir := os.Getenv("VERIF_LANE_DIR")
		in, out := json.NewDecoder(os.Stdin), json.NewEncoder(os.Stdout)
		if os.Args[1] == "-lane" {
			var l lane
			if in.Decode(&l) == nil {
				out.Encode(alone(l, dir))
			}
			return
		}
		var c indepCase
		if in.Decode(&c) == nil {
			n := 0
			out.Encode(together(c, func() string {
				n++
				d := filepath.Join(dir, fmt.Sprint("lane", n))
				os.MkdirAll(d, 0o755)
				return d
			}))
		}
		return
	}
	fw.Main()
}
