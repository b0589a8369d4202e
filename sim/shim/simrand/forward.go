// Code generated by genshim. DO NOT EDIT.

package simrand

import orig "math/rand"

type (
	Rand = orig.Rand
	Source = orig.Source
	Source64 = orig.Source64
	Zipf = orig.Zipf
)

var (
	New = orig.New
	NewSource = orig.NewSource
	NewZipf = orig.NewZipf
)

