// Package gen holds the value types and generators shared by the properties.
package gen

import (
	"encoding/json"
	"strconv"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Blob is a compact description of a byte string: Lit repeated up to N bytes. Cases stay small even for
// large values, and shrink well. Text blobs are cut at a rune boundary.
type Blob struct {
	Lit  string
	N    int
	Text bool
}

type blobJSON struct {
	Lit  string `json:"lit"`
	N    int    `json:"n"`
	Text bool   `json:"text,omitempty"`
}

func (b Blob) MarshalJSON() ([]byte, error) {
	q := strconv.QuoteToASCII(b.Lit)
	return json.Marshal(blobJSON{q, b.N, b.Text})
}

func (b *Blob) UnmarshalJSON(d []byte) error {
	var j blobJSON
	if err := json.Unmarshal(d, &j); err != nil {
		return err
	}
	l, err := strconv.Unquote(j.Lit)
	*b = Blob{l, j.N, j.Text}
	return err
}

func (b Blob) String() string {
	if b.N <= 0 || len(b.Lit) == 0 {
		return ""
	}
	s := strings.Repeat(b.Lit, b.N/len(b.Lit)+1)[:b.N]
	if b.Text {
		for len(s) > 0 && !utf8.ValidString(s[len(s)-min(len(s), 4):]) && !utf8.ValidString(s) {
			s = s[:len(s)-1]
		}
		for !utf8.ValidString(s) {
			s = s[:len(s)-1]
		}
	}
	return s
}

func (b Blob) Bytes() []byte { return []byte(b.String()) }

var runes = []rune("abcxyzABZ019/+#$ .-_%\\\"~é漢😀\n\u00a0\u00df\u0130\u0301\u200b\ufeff\ufffd\U0010fffd")

// textLit draws a short valid UTF-8 literal.
func textLit() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		n := rapid.IntRange(1, 7).Draw(t, "litn")
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteRune(Pick(t, "r", runes))
		}
		return sb.String()
	})
}

// size draws a length, biased to small values and to the neighbourhoods of the boundaries that matter.
func size(t *rapid.T, max int) int {
	k := Int(t, "sizeclass", 0, 19)
	var n int
	switch {
	case k < 11:
		n = rapid.IntRange(0, 12).Draw(t, "n")
	case k < 15:
		n = rapid.IntRange(13, 140).Draw(t, "n")
	case k < 18:
		c := Pick(t, "bound", []int{127, 128, 255, 256, 16383, 16384})
		n = c + rapid.IntRange(-24, 8).Draw(t, "delta")
	default:
		n = rapid.IntRange(0, max).Draw(t, "n")
		if rapid.Bool().Draw(t, "big") {
			n = max - rapid.IntRange(0, 3).Draw(t, "d")
		}
	}
	if n > max {
		n = max
	}
	if n < 0 {
		n = 0
	}
	return n
}

// Text draws a UTF-8 string of at most max bytes.
func Text(t *rapid.T, label string, max int) Blob {
	n := size(t, max)
	if n == 0 {
		return Blob{Text: true}
	}
	return Blob{Lit: textLit().Draw(t, label), N: n, Text: true}
}

// Bin draws an arbitrary byte string of at most max bytes.
func Bin(t *rapid.T, label string, max int) Blob {
	n := size(t, max)
	if n == 0 {
		return Blob{}
	}
	lit := rapid.SliceOfN(rapid.Byte(), 1, 9).Draw(t, label)
	return Blob{Lit: string(lit), N: n}
}

// NonEmpty makes a blob at least one byte long.
func NonEmpty(b Blob, def string) Blob {
	if b.String() == "" {
		return Blob{Lit: def, N: len(def), Text: b.Text}
	}
	return b
}

func Lit(s string) Blob { return Blob{Lit: s, N: len(s), Text: utf8.ValidString(s)} }

// rapid's integer generators prefer small values; the choices below are uniform. They are made from
// unbiased bits and shrink towards false and the first alternative.

var bit = rapid.Bool()

// Chance is true with probability pct/100.
func Chance(t *rapid.T, label string, pct int) bool {
	if pct >= 100 {
		return true
	}
	p := pct * 65536 / 100
	for i := 15; i >= 0; i-- {
		u, q := !bit.Draw(t, label), p>>i&1 == 1
		if u != q {
			return q
		}
	}
	return false
}

// Int is uniform in [lo, hi].
func Int(t *rapid.T, label string, lo, hi int) int {
	n := hi - lo + 1
	k := 3
	for 1<<k < n*8 {
		k++
	}
	x := 0
	for i := 0; i < k; i++ {
		x <<= 1
		if bit.Draw(t, label) {
			x |= 1
		}
	}
	return lo + x*n>>k
}

// Pick chooses one of the alternatives uniformly.
func Pick[T any](t *rapid.T, label string, xs []T) T { return xs[Int(t, label, 0, len(xs)-1)] }

// U16 draws identifiers biased to small values and boundaries.
func U16(t *rapid.T, label string) uint16 {
	if Chance(t, label+"?", 70) {
		return uint16(rapid.IntRange(1, 5).Draw(t, label))
	}
	return uint16(Pick(t, label, []int{1, 255, 256, 257, 0x0100, 0x1234, 32768, 65534, 65535}))
}

func U32(t *rapid.T, label string) uint32 {
	if Chance(t, label+"?", 40) {
		return Pick(t, label, []uint32{1, 127, 128, 255, 256, 65535, 65536, 0x01020304, 0xFFFFFFFE, 0xFFFFFFFF})
	}
	return rapid.Uint32Range(1, 0xFFFFFFFF).Draw(t, label)
}

// VarInt draws a non-zero variable byte integer.
func VarInt(t *rapid.T, label string) uint32 {
	if Chance(t, label+"?", 50) {
		return Pick(t, label, []uint32{1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455})
	}
	return rapid.Uint32Range(1, 268435455).Draw(t, label)
}

// Filler is n bytes that differ from their neighbours.
func Filler(n int, seed byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7) ^ byte(i>>8) ^ seed
	}
	return b
}
