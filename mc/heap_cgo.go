//go:build cgo

package main

// #include <malloc.h>
// static unsigned long long in_use(void) {
//   struct mallinfo2 m = mallinfo2();
//   return (unsigned long long)m.uordblks + m.hblkhd;
// }
import "C"

func init() { cHeap = func() uint64 { return uint64(C.in_use()) } }
