//go:build go1.21

// Code generated by genalias. DO NOT EDIT.
package runtime

import realpkg "runtime"

var BlockProfile = realpkg.BlockProfile

type BlockProfileRecord = realpkg.BlockProfileRecord

var CPUProfile = realpkg.CPUProfile
var Caller = realpkg.Caller
var Callers = realpkg.Callers
var CallersFrames = realpkg.CallersFrames

type Cleanup = realpkg.Cleanup

const Compiler = realpkg.Compiler

type Error = realpkg.Error
type Frame = realpkg.Frame
type Frames = realpkg.Frames
type Func = realpkg.Func

var FuncForPC = realpkg.FuncForPC

const GOARCH = realpkg.GOARCH
const GOOS = realpkg.GOOS

var GOROOT = realpkg.GOROOT
var GoroutineProfile = realpkg.GoroutineProfile
var KeepAlive = realpkg.KeepAlive
var MemProfile = realpkg.MemProfile
var MemProfileRate = realpkg.MemProfileRate

type MemProfileRecord = realpkg.MemProfileRecord
type MemStats = realpkg.MemStats

var MutexProfile = realpkg.MutexProfile
var NumCgoCall = realpkg.NumCgoCall

type PanicNilError = realpkg.PanicNilError
type Pinner = realpkg.Pinner

var ReadMemStats = realpkg.ReadMemStats
var ReadTrace = realpkg.ReadTrace
var Stack = realpkg.Stack

type StackRecord = realpkg.StackRecord

var StartTrace = realpkg.StartTrace
var StopTrace = realpkg.StopTrace
var ThreadCreateProfile = realpkg.ThreadCreateProfile

type TypeAssertionError = realpkg.TypeAssertionError

var Version = realpkg.Version
