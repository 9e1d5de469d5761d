//go:build go1.22

package fieldElements

import (
	"math/big"
	"math/rand"

	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/bridge"
)

// The other implementation of field elements: which (0-2) selects the sampling function.
func init() {
	bridge.Register("fe_BigInt", func() any {
		return func(which int, rnd *rand.Rand) *big.Int {
			var z bsFieldElement_BigInt
			switch which {
			case 0:
				z = CreateRandomFieldElement_Unsafe[bsFieldElement_BigInt](rnd)
			case 1:
				z = CreateRandomNonZeroFieldElement_Unsafe[bsFieldElement_BigInt](rnd)
			default:
				z.SetRandomUnsafe(rnd)
			}
			return z.ToBigInt()
		}
	})
}
