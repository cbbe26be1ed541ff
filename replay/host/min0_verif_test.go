package hotswap

import "time"

// used when the variable minFreeDelay does not exist in the code under test
func verifMinFree() time.Duration { return 0 }
