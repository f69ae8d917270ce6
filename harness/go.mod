module tinyverif

go 1.26.0

require (
	github.com/waj334/tinygo-mqtt v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/waj334/tinygo-mqtt => /repo
