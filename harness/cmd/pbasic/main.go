// Checks of the BASIC decoders (C15 to C18).
package main

import "verif/fw"

func main() { fw.Main() }
