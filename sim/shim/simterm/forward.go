// Code generated by genshim. DO NOT EDIT.

package simterm

import orig "golang.org/x/term"

type (
	EscapeCodes = orig.EscapeCodes
	State = orig.State
	Terminal = orig.Terminal
)

var (
	ErrPasteIndicator = orig.ErrPasteIndicator
	NewTerminal = orig.NewTerminal
)

