package main

import "runtime"

// rtYield gives every other runnable goroutine a chance to run first.
func rtYield() { runtime.Gosched() }

// settle is a harness-side preemption point: harness code is not instrumented.
func settle() { runtime.SimYield() }

func simID() uint32 { return runtime.SimID() }
