// Code generated by genshim. DO NOT EDIT.

package simsync

import orig "sync"

type (
	Map = orig.Map
)
