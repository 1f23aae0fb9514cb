package conf

import "verifharness/mc"

func init() {
	Checks["C18"] = func() mc.Check {
		return mc.Check{Strict: true,
			Assume: []string{"servers of the stores are stand-ins that speak their protocols (see C17)"},
			Bound:  "all combinations of 7 hosts x 7 ports x 11 idle limits x 15 log levels x 5 storage sections (each key also absent), each written in one (thorough: every) of 3 quoting styles and 9 file forms; 340 values of store settings x styles x forms; malformed, unreadable, cut and damaged files (every byte removed or replaced by 27 others); every assignment of {absent, healthy, unusable in one of two ways} to the six stores with and without an unknown name through the real LoadStorages, and through the real receiver process (quick: one way of being unusable for three or more stores) with a packet sent and the servers and the log compared; every log level, listening host and idle limit on the process",
			Spaces: func(tier string) []mc.Space {
				th := tier == "thorough"
				return append(fileSpaces(th), append(loadSpaces(th), procSpaces(th)...)...)
			}}
	}
}
