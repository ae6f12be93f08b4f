//go:build go1.21

// Code generated by genalias. DO NOT EDIT.
package filepath

import realpkg "path/filepath"

var Base = realpkg.Base
var Clean = realpkg.Clean
var Dir = realpkg.Dir
var ErrBadPattern = realpkg.ErrBadPattern
var Ext = realpkg.Ext
var FromSlash = realpkg.FromSlash
var HasPrefix = realpkg.HasPrefix
var IsAbs = realpkg.IsAbs
var IsLocal = realpkg.IsLocal
var Join = realpkg.Join

const ListSeparator = realpkg.ListSeparator

var Localize = realpkg.Localize
var Match = realpkg.Match
var Rel = realpkg.Rel

const Separator = realpkg.Separator

var SkipAll = realpkg.SkipAll
var SkipDir = realpkg.SkipDir
var Split = realpkg.Split
var SplitList = realpkg.SplitList
var ToSlash = realpkg.ToSlash
var VolumeName = realpkg.VolumeName

type WalkFunc = realpkg.WalkFunc
