// Package bridge gives the model checker access to the internal package of the example.
package bridge

import (
	"strings"

	"github.com/ava12/llx/examples/conf-edit/internal"
)

// Conf is a parsed configuration.
type Conf = internal.Conf

// Parse reads configuration text.
func Parse(text string) (*Conf, error) {
	src := []byte(text)
	return internal.Parse("conf", &src)
}

// Text returns current text.
func Text(c *Conf) (string, error) {
	var sb strings.Builder
	_, e := internal.Serialize(c.RootNode, &sb)
	return sb.String(), e
}

// ReadFile reads configuration from a file.
func ReadFile(name string) (*Conf, error) { return internal.ParseFile(name) }

// SaveFile writes current text to a file.
func SaveFile(name string, c *Conf) error {
	_, e := internal.SaveFile(name, c.RootNode)
	return e
}
