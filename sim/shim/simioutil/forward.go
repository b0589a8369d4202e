// Code generated by genshim. DO NOT EDIT.

package simioutil

import orig "io/ioutil"

var (
	Discard = orig.Discard
	NopCloser = orig.NopCloser
	ReadAll = orig.ReadAll
)

