package ctngverif

import (
	"crypto/rsa"
	"sync/atomic"
)

var progress atomic.Int64

var poolNext int

// installKeyPool makes RSA key generation (only used for throw-away subject keys) come from the fixture pool.
func installKeyPool() {
	rsa.VerifGenerateKey = func(bits int) *rsa.PrivateKey {
		progress.Add(1) // making keys is progress
		if W == nil || bits != 2048 {
			return nil
		}
		k := keys.Pool[poolNext%len(keys.Pool)] // all different, at least 39 in a row
		poolNext++
		return k
	}
}
