// Code generated by genshim. DO NOT EDIT.

package simrandv2

import orig "math/rand/v2"

type (
	ChaCha8 = orig.ChaCha8
	PCG = orig.PCG
	Rand = orig.Rand
	Source = orig.Source
	Zipf = orig.Zipf
)

var (
	New = orig.New
	NewChaCha8 = orig.NewChaCha8
	NewPCG = orig.NewPCG
	NewZipf = orig.NewZipf
)

