//go:build verif

package main

import "github.com/zyedidia/gpeg/vm"

func init() { vm.VerifMaxSteps = vmSteps }

func setMaxSteps(n int64) (old int64) {
	old = vm.VerifMaxSteps
	vm.VerifMaxSteps = n
	return old
}

func totalSteps() int { return int(vm.VerifTotalSteps()) }
