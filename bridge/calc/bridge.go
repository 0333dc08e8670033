// Package bridge gives the model checker access to the internal package of the example.
package bridge

import "github.com/ava12/llx/examples/calc/internal"

// Compute evaluates a statement.
func Compute(text string) (float64, error) { return internal.Compute(text) }

// Error codes.
const (
	UnknownVarError      = internal.UnknownVarError
	UnknownFuncError     = internal.UnknownFuncError
	WrongArgNumberError  = internal.WrongArgNumberError
	ArgDefinedError      = internal.ArgDefinedError
	UnexpectedInputError = internal.UnexpectedInputError
)
