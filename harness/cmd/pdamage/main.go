// Command pdamage decides C25: damage is reported, never passed off as a
// complete result.
package main

import "verif/fw"

func main() { fw.Main() }
