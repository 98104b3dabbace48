package main

import (
	"bytes"
	"fmt"

	"github.com/cubeflix/nn"
	"nnverif/ref"
)

// Saved models and layers.

func saveModel(m *nn.Model) ([]byte, error) {
	d := nn.NewSavedModelData(*m)
	var b bytes.Buffer
	if err := d.Serialize(&b); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}

func saveLayer(l nn.Layer) ([]byte, error) {
	d := nn.NewSavedLayerData(l)
	var b bytes.Buffer
	if err := d.SerializeLayer(&b); err != nil {
		return nil, err
	}
	return b.Bytes(), nil
}

func loadModel(b []byte) (*nn.Model, error) {
	m, err := nn.LoadModel(bytes.NewBuffer(append([]byte(nil), b...)))
	return &m, err
}

func bits(v []float64) []uint64 {
	o := make([]uint64, len(v))
	for i := range v {
		o[i] = ref.Bits(v[i])
	}
	return o
}

// format describes a layer as the format does.
func (s LayerSpec) format() ref.FLayer {
	return ref.FLayer{Type: int8(s.Kind), In: int32(s.In), Out: int32(s.Out), Slope: ref.Bits(float64(s.Slope)), Dropout: ref.Bits(float64(s.Drop)),
		W: bits(s.W.Vals()), B: bits(s.B.Vals())}
}

// format describes a model as the format does.
func (s ModelSpec) format() ref.FModel {
	m := ref.FModel{Version: nn.VERSION, N: int8(len(s.Layers)), In: int32(s.In()), Out: int32(s.Out()), Loss: int8(s.Loss), Acc: int8(s.Acc), Precision: ref.Bits(float64(s.Prec))}
	if s.Opt.Adam {
		m.Opt = 1
	}
	for k, v := range s.Opt.Values() {
		m.OptVals = append(m.OptVals, ref.FOpt{Key: k, Val: ref.Bits(v)})
	}
	for _, l := range s.Layers {
		m.Layers = append(m.Layers, l.format())
	}
	return m
}

func sameLayerFormat(what string, a, b ref.FLayer) error {
	if a.Type != b.Type || a.In != b.In || a.Out != b.Out || a.Slope != b.Slope || a.Dropout != b.Dropout {
		return fmt.Errorf("%s: layer of type %d, %dx%d, slope %#x, dropout %#x instead of type %d, %dx%d, slope %#x, dropout %#x", what,
			a.Type, a.In, a.Out, a.Slope, a.Dropout, b.Type, b.In, b.Out, b.Slope, b.Dropout)
	}
	for i := range b.W {
		if len(a.W) != len(b.W) || a.W[i] != b.W[i] {
			return fmt.Errorf("%s: weights differ at %d", what, i)
		}
	}
	for i := range b.B {
		if len(a.B) != len(b.B) || a.B[i] != b.B[i] {
			return fmt.Errorf("%s: biases differ at %d", what, i)
		}
	}
	return nil
}

func sameFormat(what string, a, b ref.FModel) error {
	if a.Version != b.Version || a.N != b.N || a.In != b.In || a.Out != b.Out || a.Loss != b.Loss || a.Acc != b.Acc || a.Precision != b.Precision || a.Opt != b.Opt {
		return fmt.Errorf("%s: version %q, %d layers, sizes %d and %d, loss %d, accuracy %d with precision %#x, optimizer %d instead of %q, %d, %d and %d, %d, %d with %#x, %d", what,
			a.Version, a.N, a.In, a.Out, a.Loss, a.Acc, a.Precision, a.Opt, b.Version, b.N, b.In, b.Out, b.Loss, b.Acc, b.Precision, b.Opt)
	}
	av, bv := map[string]uint64{}, map[string]uint64{}
	for _, x := range a.OptVals {
		av[x.Key] = x.Val
	}
	for _, x := range b.OptVals {
		bv[x.Key] = x.Val
	}
	if len(a.OptVals) != len(b.OptVals) || len(av) != len(a.OptVals) {
		return fmt.Errorf("%s: optimizer settings %v instead of %v", what, a.OptVals, b.OptVals)
	}
	for k, v := range bv {
		if got, ok := av[k]; !ok || got != v {
			return fmt.Errorf("%s: optimizer settings %v instead of %v", what, a.OptVals, b.OptVals)
		}
	}
	for i := range b.Layers {
		if err := sameLayerFormat(fmt.Sprintf("%s: layer %d", what, i), a.Layers[i], b.Layers[i]); err != nil {
			return err
		}
	}
	return nil
}
