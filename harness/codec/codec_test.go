package codec

import (
	"testing"

	"tinyverif/prop"
)

func TestMain(m *testing.M) { prop.Main(m) }

func TestC01(t *testing.T) { C01(t) }
func TestC02(t *testing.T) { C02(t) }
func TestC03(t *testing.T) { C03(t) }
func TestC04(t *testing.T) { C04(t) }
func TestC05(t *testing.T) { C05(t) }
func TestC08(t *testing.T) { C08(t) }
func TestC09(t *testing.T) { C09(t) }
func TestC29(t *testing.T) { C29(t) }
