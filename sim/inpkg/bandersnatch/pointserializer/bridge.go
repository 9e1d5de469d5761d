//go:build go1.22

package pointserializer

import "github.com/GottfriedHerold/Bandersnatch/internal/verifsim/bridge"

// Serializers that exist in the package, but are not exported.
func init() {
	bridge.Register("XY", func() any {
		return CurvePointSerializerModifyable(newMultiSerializer(&pointSerializerXY{}, trivialSimpleHeaderSerializer))
	})
	bridge.Register("XAndSignY", func() any {
		return CurvePointSerializerModifyable(newMultiSerializer(&pointSerializerXAndSignY{}, trivialSimpleHeaderSerializer))
	})
	bridge.Register("YAndSignX", func() any {
		return CurvePointSerializerModifyable(newMultiSerializer(&pointSerializerYAndSignX{}, trivialSimpleHeaderSerializer))
	})
}
