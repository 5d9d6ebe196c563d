//go:build !hooked

package checks

// Hooked: the repository was instrumented.
const Hooked = false

func setOrder(f func(n int) []int) {}
