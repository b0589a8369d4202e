// Package simioutil stands in for io/ioutil in the code under test.
package simioutil

import "verif.local/sim/shim/simos"

func ReadFile(n string) ([]byte, error)                    { return simos.ReadFile(n) }
func WriteFile(n string, d []byte, p simos.FileMode) error { return simos.WriteFile(n, d, p) }
