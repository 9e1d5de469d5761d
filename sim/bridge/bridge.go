//go:build go1.22

// Package bridge is a registry that lets optional files added to packages of the code under test hand out unexported things.
package bridge

var m = map[string]func() any{}

// Register makes a thing available under a name. It is called by init functions.
func Register(name string, f func() any) { m[name] = f }

// Get returns the thing, nil if the bridge is not there.
func Get(name string) any {
	if f := m[name]; f != nil {
		return f()
	}
	return nil
}
