// Command bb holds the checks that drive the server from outside.
package main

import "verifharness/fw"

func main() { fw.Main() }
