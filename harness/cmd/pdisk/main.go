// Checks of the disk package: sector reordering, opening and writing back
// images, sector and block primitives (C01, C03, C04, C24).
package main

import "verif/fw"

func main() { fw.Main() }
