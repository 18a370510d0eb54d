// Checks that drive the built command (C02, C19, C20, C22, C23).
package main

import "verif/fw"

func main() { fw.Main() }
