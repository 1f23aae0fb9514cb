package gen

import "math"

func f32(u uint32) float32 { return math.Float32frombits(u) }
