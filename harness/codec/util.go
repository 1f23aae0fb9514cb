package codec

import "time"

func zone(h int) *time.Location { return time.FixedZone("z", h*3600+1800) }
