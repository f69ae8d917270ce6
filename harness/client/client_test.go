package client

import (
	"testing"

	"tinyverif/prop"
)

func TestMain(m *testing.M) { prop.Main(m) }
func TestC06(t *testing.T)  { C06(t) }
func TestC07(t *testing.T)  { C07(t) }
func TestC10(t *testing.T)  { C10(t) }
func TestC11(t *testing.T)  { C11(t) }
func TestC12(t *testing.T)  { C12(t) }
func TestC13(t *testing.T)  { C13(t) }
func TestC14(t *testing.T)  { C14(t) }
func TestC15(t *testing.T)  { C15(t) }
func TestC16(t *testing.T)  { C16(t) }
func TestC17(t *testing.T)  { C17(t) }
func TestC18(t *testing.T)  { C18(t) }
func TestC19(t *testing.T)  { C19(t) }
func TestC20(t *testing.T)  { C20(t) }
func TestC21(t *testing.T)  { C21(t) }
func TestC22(t *testing.T)  { C22(t) }
func TestC23(t *testing.T)  { C23(t) }
func TestC24(t *testing.T)  { C24(t) }
func TestC25(t *testing.T)  { C25(t) }
func TestC27(t *testing.T)  { C27(t) }
func TestC28(t *testing.T)  { C28(t) }
func TestC30(t *testing.T)  { C30(t) }
func TestC31(t *testing.T)  { C31(t) }
