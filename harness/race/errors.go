//go:build !race

package race

func raceErrors() int { panic("HARNESS-ERROR build with -race") }
