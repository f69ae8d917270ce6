//go:build race

package race

import "runtime"

func raceErrors() int { return runtime.RaceErrors() }
