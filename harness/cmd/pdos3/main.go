// Checks of the DOS 3.3 file system (C05, C06, C07).
package main

import "verif/fw"

func main() { fw.Main() }
