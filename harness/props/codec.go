//go:build !noc23

package props

import (
	"encoding/binary"
	"fmt"
	"math"

	"github.com/zbdba/db-recovery/recovery/utils"
	"pgregory.net/rapid"

	"verif/idb"
)

// CodecCase decodes N numbers from Value on, Step apart, each placed behind
// Prefix and before Suffix.
type CodecCase struct {
	Kind   string `json:"kind"`
	Value  uint64 `json:"value"`
	N      int    `json:"n"`
	Step   uint64 `json:"step"`
	Prefix []byte `json:"prefix"`
	Suffix []byte `json:"suffix"`
}

type codec struct {
	kind string
	max  uint64
	run  func(v uint64, pre, suf []byte) error
}

func place(pre, enc, suf []byte) []byte {
	b := make([]byte, 0, len(pre)+len(enc)+len(suf))
	b = append(b, pre...)
	b = append(b, enc...)
	// Nothing behind the end, also not in the capacity.
	return append(b, suf...)[: len(pre)+len(enc)+len(suf) : len(pre)+len(enc)+len(suf)]
}

// guard turns a panic into an error.
func guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return f()
}

func comp32(enc func(uint32) []byte) func(v uint64, pre, suf []byte) error {
	return func(v uint64, pre, suf []byte) error {
		e := enc(uint32(v))
		got, n, err := utils.MatchParseCompressed(place(pre, e, suf), uint64(len(pre)))
		if err != nil {
			return fmt.Errorf("% x: error %v", e, err)
		}
		if got != v || n != uint64(len(e)) {
			return fmt.Errorf("% x decodes as %d of %d bytes, is %d of %d bytes", e, got, n, v, len(e))
		}
		return nil
	}
}

func be(n int) func(v uint64) []byte {
	return func(v uint64) []byte {
		var b [8]byte
		binary.BigEndian.PutUint64(b[:], v)
		return append([]byte{}, b[8-n:]...)
	}
}

func le(n int) func(v uint64) []byte {
	return func(v uint64) []byte {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], v)
		return append([]byte{}, b[:n]...)
	}
}

func fixed(kind string, n int, enc func(v uint64) []byte, dec func(b []byte) uint64, exact bool) codec {
	max := uint64(math.MaxUint64)
	if n < 8 {
		max = 1<<(8*uint(n)) - 1
	}
	return codec{kind, max, func(v uint64, pre, suf []byte) error {
		e := enc(v)
		if exact {
			suf = nil // the whole rest of the buffer is the number
		}
		b := place(pre, e, suf)[len(pre):]
		if got := dec(b); got != v {
			return fmt.Errorf("% x reads as %d, is %d", e, got, v)
		}
		return nil
	}}
}

func sext(v int64, n uint) uint64 {
	if n == 64 {
		return uint64(v)
	}
	// A sign-extended value, folded back to n bits; anything else is kept
	// visible in the upper bits.
	lo, hi := -(int64(1) << (n - 1)), int64(1)<<(n-1)-1
	if v < lo || v > hi {
		return math.MaxUint64
	}
	return uint64(v) & (1<<n - 1)
}

var codecs = []codec{
	{"compressed32", math.MaxUint32, comp32(idb.Comp)},
	{"compressed32-5.7", math.MaxUint32, comp32(idb.Comp57)},
	{"size32", math.MaxUint32, func(v uint64, pre, suf []byte) error {
		n, err := utils.MatchGetCompressedSize(v)
		if err != nil || n != uint64(len(idb.Comp(uint32(v)))) {
			return fmt.Errorf("%d: size %d, %v; is %d", v, n, err, len(idb.Comp(uint32(v))))
		}
		return nil
	}},
	{"compressed64", math.MaxUint64, func(v uint64, pre, suf []byte) error {
		e := idb.Comp64(v)
		pos := uint64(len(pre))
		got := utils.MatchUllReadComPressed(place(pre, e, suf), &pos)
		if got != v || pos != uint64(len(pre)+len(e)) {
			return fmt.Errorf("% x decodes as %d to offset %d, is %d to offset %d", e, got, pos, v, len(pre)+len(e))
		}
		return nil
	}},
	{"compressed64-5.7", math.MaxUint64, func(v uint64, pre, suf []byte) error {
		e := idb.Comp64v57(v)
		pos := uint64(len(pre))
		got := utils.MatchUllReadComPressed(place(pre, e, suf), &pos)
		if got != v || pos != uint64(len(pre)+len(e)) {
			return fmt.Errorf("% x decodes as %d to offset %d, is %d to offset %d", e, got, pos, v, len(pre)+len(e))
		}
		return nil
	}},
	{"much64-5.7", math.MaxUint64, func(v uint64, pre, suf []byte) error {
		e := idb.Much64v57(v)
		got, err := utils.MatchUllReadMuchCompressed(place(pre, e, suf)[len(pre):])
		if err != nil || got != v {
			return fmt.Errorf("% x decodes as %d, %v; is %d", e, got, err, v)
		}
		return nil
	}},
	{"much64", math.MaxUint64, func(v uint64, pre, suf []byte) error {
		e := idb.Much64(v)
		got, err := utils.MatchUllReadMuchCompressed(place(pre, e, suf)[len(pre):])
		if err != nil || got != v {
			return fmt.Errorf("% x decodes as %d, %v; is %d", e, got, err, v)
		}
		if n := utils.MachUllGetMuchCompressedSize(v); n != uint64(len(e)) {
			return fmt.Errorf("%d: size %d, is %d", v, n, len(e))
		}
		return nil
	}},
	fixed("be1", 1, be(1), utils.MatchReadFrom1, false),
	fixed("be2", 2, be(2), utils.MatchReadFrom2, false),
	fixed("be3", 3, be(3), utils.MatchReadFrom3, false),
	fixed("be4", 4, be(4), utils.MatchReadFrom4, false),
	fixed("be7", 7, be(7), utils.MatchReadFrom7, false),
	fixed("be8", 8, be(8), utils.MatchReadFrom8, false),
	{"create64", math.MaxUint64, func(v uint64, pre, suf []byte) error {
		if got := utils.UtUllCreate(v>>32, v&math.MaxUint32); got != v {
			return fmt.Errorf("made %d of the words of %d", got, v)
		}
		return nil
	}},
	fixed("uint8", 1, le(1), func(b []byte) uint64 { return uint64(utils.ParseBinaryUint8(b)) }, false),
	fixed("uint16", 2, le(2), func(b []byte) uint64 { return uint64(utils.ParseBinaryUint16(b)) }, false),
	fixed("uint24", 3, le(3), func(b []byte) uint64 { return uint64(utils.ParseBinaryUint24(b)) }, false),
	fixed("uint32", 4, le(4), func(b []byte) uint64 { return uint64(utils.ParseBinaryUint32(b)) }, false),
	fixed("uint64", 8, le(8), func(b []byte) uint64 { return uint64(utils.ParseBinaryUint64(b)) }, false),
	fixed("int8", 1, le(1), func(b []byte) uint64 { return sext(int64(utils.ParseBinaryInt8(b)), 8) }, false),
	fixed("int16", 2, le(2), func(b []byte) uint64 { return sext(int64(utils.ParseBinaryInt16(b)), 16) }, false),
	fixed("int24", 3, le(3), func(b []byte) uint64 { return sext(int64(utils.ParseBinaryInt24(b)), 24) }, false),
	fixed("int32", 4, le(4), func(b []byte) uint64 { return sext(int64(utils.ParseBinaryInt32(b)), 32) }, false),
	fixed("int64", 8, le(8), func(b []byte) uint64 { return sext(utils.ParseBinaryInt64(b), 64) }, false),
	fixed("float32", 4, le(4), func(b []byte) uint64 { return uint64(math.Float32bits(utils.ParseBinaryFloat32(b))) }, false),
	fixed("float64", 8, le(8), func(b []byte) uint64 { return math.Float64bits(utils.ParseBinaryFloat64(b)) }, false),
	fixed("le1", 1, le(1), utils.FixedLengthInt, true),
	fixed("le3", 3, le(3), utils.FixedLengthInt, true),
	fixed("le6", 6, le(6), utils.FixedLengthInt, true),
	fixed("le8", 8, le(8), utils.FixedLengthInt, true),
}

var codecOf = map[string]*codec{}

// codecEdges are the values next to which a length class or a word ends.
func codecEdges() []uint64 {
	e := []uint64{0, 0x80, 0x4000, 0x200000, 0x10000000, 0xF0000000, 0xFF000000, 0xFFFE0000, 0xFFFFFC00, 0x7FFFFFFF}
	for k := uint(1); k < 64; k++ {
		e = append(e, 1<<k)
	}
	for _, lo := range []uint64{0x80, 0x4000, 0x200000, 0x10000000, 0xF0000000, 0xFFFFFC00} {
		for _, hi := range []uint64{1, 0x7f, 0x80, 0x3fff, 0x4000, 0x1fffff, 0x200000, 0xfffffff, 0x10000000, 0xffffffff} {
			e = append(e, hi<<32|lo)
		}
	}
	return append(e, math.MaxUint64-8)
}

func codecValue(t *rapid.T, c *codec) uint64 {
	var v uint64
	switch rapid.IntRange(0, 3).Draw(t, "shape") {
	case 0:
		v = rapid.Uint64().Draw(t, "v")
	case 1:
		v = rapid.SampledFrom(codecEdges()).Draw(t, "edge")
		v += uint64(rapid.IntRange(0, 40).Draw(t, "d")) - 20
	case 2: // any number of bits
		v = rapid.Uint64().Draw(t, "v") >> uint(rapid.IntRange(0, 63).Draw(t, "sh"))
	default: // independent words, each of any number of bits
		hi := rapid.Uint32().Draw(t, "hi") >> uint(rapid.IntRange(0, 31).Draw(t, "shi"))
		lo := rapid.Uint32().Draw(t, "lo") >> uint(rapid.IntRange(0, 31).Draw(t, "slo"))
		v = uint64(hi)<<32 | uint64(lo)
	}
	if c.max != math.MaxUint64 {
		v &= c.max
	}
	return v
}

func init() {
	for i := range codecs {
		codecOf[codecs[i].kind] = &codecs[i]
	}
	kinds := make([]string, len(codecs))
	for i, c := range codecs {
		kinds[i] = c.kind
	}
	Register(&Prop[CodecCase]{
		ID:    "C23",
		Rule:  "the case decodes at least one number of more than one byte",
		Quick: 200000, Thorough: 4000000,
		Sweep: func(thorough bool) []CodecCase {
			var out []CodecCase
			for _, k := range kinds {
				max := codecOf[k].max
				for _, e := range codecEdges() {
					if e > max {
						continue
					}
					from := e - 300
					if e < 300 {
						from = 0
					}
					for i, p := range [][]byte{nil, {0}, {0xff, 0x80, 0xf0}} {
						suf := [][]byte{nil, {0xff}, {0, 0, 0, 0, 0, 0, 0, 0, 0}}[i]
						out = append(out, CodecCase{k, from, 600, 1, p, suf})
					}
				}
				// A coarse walk through the whole range.
				n := 20000
				if thorough {
					n = 1000000
				}
				st := max/uint64(n) | 1
				out = append(out, CodecCase{k, 0, n, st, nil, nil}, CodecCase{k, 3, n, st, []byte{0x80}, []byte{0xff, 0xff, 0xff}})
				if thorough && max == math.MaxUint32 { // every value of the short classes
					out = append(out, CodecCase{k, 0, 0x210000, 1, nil, nil}, CodecCase{k, 0xFFFE0000 - 100, 0x20000 + 100, 1, nil, nil})
				}
			}
			return out
		},
		Gen: func(t *rapid.T) CodecCase {
			k := rapid.SampledFrom(kinds).Draw(t, "kind")
			c := codecOf[k]
			return CodecCase{
				Kind: k, Value: codecValue(t, c),
				N:      rapid.IntRange(1, 60).Draw(t, "n"),
				Step:   rapid.Uint64().Draw(t, "step") >> uint(rapid.IntRange(1, 63).Draw(t, "st")),
				Prefix: rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "pre"),
				Suffix: rapid.SliceOfN(rapid.Byte(), 0, 10).Draw(t, "suf"),
			}
		},
		Run: func(c *CodecCase, o *Obs) error {
			cd := codecOf[c.Kind]
			if cd == nil {
				return nil
			}
			if len(c.Prefix) > 0 {
				o.Class("behind other bytes")
			}
			o.ClassIf(len(c.Suffix) == 0, "at the end of the buffer")
			o.Class("codec %s", c.Kind)
			v := c.Value
			for i := 0; i < c.N; i++ {
				if v > cd.max || (i > 0 && v < c.Value) {
					break
				}
				if v > 0x7f {
					o.NonTrivial()
				}
				o.classes["numbers decoded"]++
				if err := guard(func() error { return cd.run(v, c.Prefix, c.Suffix) }); err != nil {
					return fmt.Errorf("%s of %d (%#x) between %d and %d other bytes: %w", c.Kind, v, v, len(c.Prefix), len(c.Suffix), err)
				}
				if v+c.Step < v {
					break
				}
				v += c.Step
			}
			return nil
		},
	})
}
