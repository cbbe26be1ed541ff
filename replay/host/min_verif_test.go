package hotswap

import "time"

func verifMinFree() time.Duration { return minFreeDelay }
