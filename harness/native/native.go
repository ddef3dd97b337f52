// Package native reads allocator statistics of the C heap.
package native

/*
#include <malloc.h>
static size_t live(void) { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
*/
import "C"

// Live returns the number of bytes the C heap has handed out.
func Live() int64 { return int64(C.live()) }
