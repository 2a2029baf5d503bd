//go:build !verif

// Without the verif tag the instruction counter is not compiled in: its
// atomic operations would order goroutines and hide data races (C25).
package main

func setMaxSteps(n int64) int64 { return vmSteps }

func totalSteps() int { return 0 }
