package ref

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
)

// FLayer and FModel are what the documented byte layout describes.
type FLayer struct {
	Type           int8
	In, Out        int32
	Slope, Dropout uint64 // IEEE bits
	W, B           []uint64
}

type FOpt struct {
	Key string
	Val uint64
}

type FModel struct {
	Version   string
	N         int8
	In, Out   int32
	Loss, Acc int8
	Precision uint64
	Opt       int8
	OptVals   []FOpt
	Layers    []FLayer
}

func put32(b []byte, v int32) []byte  { return binary.LittleEndian.AppendUint32(b, uint32(v)) }
func put64(b []byte, v uint64) []byte { return binary.LittleEndian.AppendUint64(b, v) }

// EncodeLayer writes LayerData.md's layout.
func EncodeLayer(l FLayer) []byte {
	b := []byte("LA")
	b = append(b, byte(l.Type))
	b = put32(b, l.In)
	b = put32(b, l.Out)
	b = put64(b, l.Slope)
	b = put64(b, l.Dropout)
	for _, v := range l.W {
		b = put64(b, v)
	}
	for _, v := range l.B {
		b = put64(b, v)
	}
	return b
}

// EncodeModel writes ModelData.md's layout.
func EncodeModel(m FModel) []byte {
	b := append([]byte("NNML"), m.Version...)
	b = append(b, byte(m.N))
	b = put32(b, m.In)
	b = put32(b, m.Out)
	b = append(b, byte(m.Loss), byte(m.Acc))
	b = put64(b, m.Precision)
	b = append(b, byte(m.Opt))
	b = append(b, byte(len(m.OptVals)))
	for _, kv := range m.OptVals {
		b = append(b, byte(len(kv.Key)))
		b = append(b, kv.Key...)
		b = put64(b, kv.Val)
	}
	for _, l := range m.Layers {
		b = append(b, EncodeLayer(l)...)
	}
	return b
}

type rd struct {
	b   []byte
	err error
}

func (r *rd) take(n int) []byte {
	if r.err != nil || n < 0 || n > len(r.b) {
		if r.err == nil {
			r.err = errors.New("short")
		}
		return make([]byte, max(n, 0))
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}
func (r *rd) i8() int8    { return int8(r.take(1)[0]) }
func (r *rd) i32() int32  { return int32(binary.LittleEndian.Uint32(r.take(4))) }
func (r *rd) u64() uint64 { return binary.LittleEndian.Uint64(r.take(8)) }

func (r *rd) layer() (l FLayer) {
	if string(r.take(2)) != "LA" && r.err == nil {
		r.err = errors.New("layer magic")
	}
	l.Type, l.In, l.Out = r.i8(), r.i32(), r.i32()
	l.Slope, l.Dropout = r.u64(), r.u64()
	if r.err != nil {
		return
	}
	if l.In < 1 || l.Out < 1 || int64(l.In)*int64(l.Out) > int64(len(r.b)) {
		r.err = fmt.Errorf("layer size %dx%d", l.In, l.Out)
		return
	}
	for i := 0; i < int(l.In)*int(l.Out); i++ {
		l.W = append(l.W, r.u64())
	}
	for i := 0; i < int(l.Out); i++ {
		l.B = append(l.B, r.u64())
	}
	return
}

// DecodeLayer reads one layer and returns the rest.
func DecodeLayer(b []byte) (FLayer, []byte, error) {
	r := &rd{b: b}
	l := r.layer()
	return l, r.b, r.err
}

// DecodeModel reads one model and returns the rest.
func DecodeModel(b []byte) (FModel, []byte, error) {
	r := &rd{b: b}
	var m FModel
	if string(r.take(4)) != "NNML" {
		return m, nil, errors.New("model magic")
	}
	m.Version = string(r.take(5))
	m.N, m.In, m.Out = r.i8(), r.i32(), r.i32()
	m.Loss, m.Acc = r.i8(), r.i8()
	m.Precision = r.u64()
	m.Opt = r.i8()
	n := int(r.i8())
	for i := 0; i < n && r.err == nil; i++ {
		k := string(r.take(int(r.i8())))
		m.OptVals = append(m.OptVals, FOpt{k, r.u64()})
	}
	for i := 0; i < int(m.N) && r.err == nil; i++ {
		m.Layers = append(m.Layers, r.layer())
	}
	return m, r.b, r.err
}

// Bits is the IEEE representation.
func Bits(v float64) uint64 { return math.Float64bits(v) }
