// Package sync stands in for the standard package in the instrumented packages of /repo.
package sync

import (
	real "sync"

	"github.com/batchatco/go-native-netcdf/verifmc/vsched"
)

type (
	Mutex     = vsched.Mutex
	RWMutex   = vsched.RWMutex
	Once      = vsched.Once
	Locker    = real.Locker
	WaitGroup = real.WaitGroup
	Cond      = real.Cond
	Map       = real.Map
	Pool      = real.Pool
)

func NewCond(l Locker) *Cond { return real.NewCond(l) }

func OnceFunc(f func()) func() { return real.OnceFunc(f) }

func OnceValue[T any](f func() T) func() T { return real.OnceValue(f) }

func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return real.OnceValues(f) }
