//go:build race

package pbt

func init() { RaceEnabled = true }
