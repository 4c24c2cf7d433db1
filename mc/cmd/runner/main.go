// The runner explores the scenarios of one property.
package main

import (
	"verif/check"
	"verif/mc"
)

func main() { mc.Main(check.Checks) }
