package race

import (
	"testing"

	"tinyverif/prop"
)

func TestMain(m *testing.M) { prop.Main(m) }
func TestC26(t *testing.T)  { C26(t) }
