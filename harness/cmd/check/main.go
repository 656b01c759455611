// Command check runs the check of one property.
package main

import (
	"verif/pbt"
	_ "verif/props"
)

func main() { pbt.Main() }
