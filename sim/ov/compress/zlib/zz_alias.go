//go:build go1.21

// Code generated by genalias. DO NOT EDIT.
package zlib

import realpkg "compress/zlib"

const BestCompression = realpkg.BestCompression
const BestSpeed = realpkg.BestSpeed
const DefaultCompression = realpkg.DefaultCompression

var ErrChecksum = realpkg.ErrChecksum
var ErrDictionary = realpkg.ErrDictionary
var ErrHeader = realpkg.ErrHeader

const HuffmanOnly = realpkg.HuffmanOnly

var NewReaderDict = realpkg.NewReaderDict
var NewWriterLevelDict = realpkg.NewWriterLevelDict

const NoCompression = realpkg.NoCompression

type Resetter = realpkg.Resetter
