// Code generated by genshim. DO NOT EDIT.

package simfmt

import orig "fmt"

type (
	Formatter = orig.Formatter
	GoStringer = orig.GoStringer
	ScanState = orig.ScanState
	Scanner = orig.Scanner
	State = orig.State
	Stringer = orig.Stringer
)

var (
	Append = orig.Append
	Appendf = orig.Appendf
	Appendln = orig.Appendln
	Errorf = orig.Errorf
	FormatString = orig.FormatString
	Fprint = orig.Fprint
	Fprintf = orig.Fprintf
	Fprintln = orig.Fprintln
	Fscan = orig.Fscan
	Fscanf = orig.Fscanf
	Fscanln = orig.Fscanln
	Scan = orig.Scan
	Scanf = orig.Scanf
	Scanln = orig.Scanln
	Sprint = orig.Sprint
	Sprintf = orig.Sprintf
	Sprintln = orig.Sprintln
	Sscan = orig.Sscan
	Sscanf = orig.Sscanf
	Sscanln = orig.Sscanln
)

