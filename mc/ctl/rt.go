package ctl

// Implemented in the overlaid runtime (tools/runtime_ctl.go.txt).

func rtPoint()
func rtBegin(seed uint64)
func rtEnd()
func rtSpawn(f func()) uint32
func rtPoints(on bool)
func rtStmt(on, pcs bool)
func rtEnabled(ids []uint32, gopcs []uintptr) int
func rtResume(i int) uint32
func rtPCs(buf []uintptr) int
func rtSelN() int
func rtSelChoose(k int)
func rtNow() int64
func rtNextTimer() int64
func rtFire()
func rtGoroutines(ids []uint32, gopcs []uintptr, reasons []string, stacks [][16]uintptr, nst []int) int
func rtSelfID() uint32
func rtLive() int
