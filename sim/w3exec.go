//go:build simexec

package sim

func init() { simTools = true }
