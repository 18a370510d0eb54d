// Checks of the ProDOS file system (C08, C09).
package main

import "verif/fw"

func main() { fw.Main() }
