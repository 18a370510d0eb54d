// Command probust decides C14: no disk image can crash or hang the tool.
package main

import "verif/fw"

func main() { fw.Main() }
