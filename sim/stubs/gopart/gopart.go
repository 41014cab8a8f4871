// Package gopart partitions without a goroutine: the real one leaves its goroutine
// blocked for good when the caller dies before it has taken every range, which a
// simulated crash does.
package gopart

// IdxRange is a range; High is exclusive.
type IdxRange struct {
	Low, High int
}

// Partition returns the ranges of at most partitionSize of collectionLen elements.
func Partition(collectionLen, partitionSize int) chan IdxRange {
	if partitionSize <= 0 {
		c := make(chan IdxRange)
		close(c)
		return c
	}
	c := make(chan IdxRange, collectionLen/partitionSize+1)
	for i := 0; i < collectionLen; i += partitionSize {
		c <- IdxRange{Low: i, High: min(i+partitionSize, collectionLen)}
	}
	close(c)
	return c
}
