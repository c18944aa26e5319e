// Package checks holds the executable properties.
package checks

import (
	"verif/harness/pbt"
)

// Check is one property with its generator and oracle.
type Check struct {
	ID       string
	Rule     string // how cases are made and what makes one non-trivial
	Run      pbt.Prop
	Quick    int // cases
	Thorough int
	Workers  int // 0: one per core
	// Try runs the oracle on one concrete input, for findings: "" when it holds.
	Try     func(kind, input string) string
	Prepare func() error
}

var All = map[string]*Check{}

func register(c *Check) { All[c.ID] = c }
