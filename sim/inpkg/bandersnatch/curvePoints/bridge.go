//go:build go1.22

package curvePoints

import (
	"math/rand"

	"github.com/GottfriedHerold/Bandersnatch/internal/verifsim/bridge"
)

// Sampling methods that are not exported. They answer false if the type does not have them.
func init() {
	bridge.Register("sample", func() any {
		return func(p any, rnd *rand.Rand) bool {
			q, ok := p.(interface{ sampleRandomUnsafe(*rand.Rand) })
			if ok {
				q.sampleRandomUnsafe(rnd)
			}
			return ok
		}
	})
	bridge.Register("sampleNaP", func() any {
		return func(p any, rnd *rand.Rand, i int) bool {
			q, ok := p.(interface{ sampleNaP(*rand.Rand, int) })
			if ok {
				q.sampleNaP(rnd, i)
			}
			return ok
		}
	})
	bridge.Register("rerandomize", func() any {
		return func(p any, rnd *rand.Rand) bool {
			q, ok := p.(interface{ rerandomizeRepresentation(*rand.Rand) })
			if ok {
				q.rerandomizeRepresentation(rnd)
			}
			return ok
		}
	})
}
