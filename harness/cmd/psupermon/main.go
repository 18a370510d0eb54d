// Checks of NakedOS / Super-Mon disks (C10 to C13).
package main

import "verif/fw"

func main() { fw.Main() }
