//go:build go1.21

// Code generated by genalias. DO NOT EDIT.
package os

import realpkg "os"

const DevNull = realpkg.DevNull

type DirEntry = realpkg.DirEntry

var ErrClosed = realpkg.ErrClosed
var ErrDeadlineExceeded = realpkg.ErrDeadlineExceeded
var ErrExist = realpkg.ErrExist
var ErrInvalid = realpkg.ErrInvalid
var ErrNoDeadline = realpkg.ErrNoDeadline
var ErrNoHandle = realpkg.ErrNoHandle
var ErrNotExist = realpkg.ErrNotExist
var ErrPermission = realpkg.ErrPermission
var ErrProcessDone = realpkg.ErrProcessDone

type FileInfo = realpkg.FileInfo
type FileMode = realpkg.FileMode

var Interrupt = realpkg.Interrupt
var Kill = realpkg.Kill

type LinkError = realpkg.LinkError

const ModeAppend = realpkg.ModeAppend
const ModeCharDevice = realpkg.ModeCharDevice
const ModeDevice = realpkg.ModeDevice
const ModeDir = realpkg.ModeDir
const ModeExclusive = realpkg.ModeExclusive
const ModeIrregular = realpkg.ModeIrregular
const ModeNamedPipe = realpkg.ModeNamedPipe
const ModePerm = realpkg.ModePerm
const ModeSetgid = realpkg.ModeSetgid
const ModeSetuid = realpkg.ModeSetuid
const ModeSocket = realpkg.ModeSocket
const ModeSticky = realpkg.ModeSticky
const ModeSymlink = realpkg.ModeSymlink
const ModeTemporary = realpkg.ModeTemporary
const ModeType = realpkg.ModeType
const O_APPEND = realpkg.O_APPEND
const O_CREATE = realpkg.O_CREATE
const O_EXCL = realpkg.O_EXCL
const O_RDONLY = realpkg.O_RDONLY
const O_RDWR = realpkg.O_RDWR
const O_SYNC = realpkg.O_SYNC
const O_TRUNC = realpkg.O_TRUNC
const O_WRONLY = realpkg.O_WRONLY

type PathError = realpkg.PathError

const PathListSeparator = realpkg.PathListSeparator
const PathSeparator = realpkg.PathSeparator

type ProcAttr = realpkg.ProcAttr
type Process = realpkg.Process
type ProcessState = realpkg.ProcessState
type Root = realpkg.Root

const SEEK_CUR = realpkg.SEEK_CUR
const SEEK_END = realpkg.SEEK_END
const SEEK_SET = realpkg.SEEK_SET

type Signal = realpkg.Signal
type SyscallError = realpkg.SyscallError
