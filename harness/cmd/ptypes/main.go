// Command ptypes decides C21: file type names and file types correspond.
package main

import "verif/fw"

func main() { fw.Main() }
