//go:build go1.21

// Code generated by genalias. DO NOT EDIT.
package rand

import realpkg "math/rand"

var New = realpkg.New
var NewSource = realpkg.NewSource
var NewZipf = realpkg.NewZipf

type Rand = realpkg.Rand
type Source = realpkg.Source
type Source64 = realpkg.Source64
type Zipf = realpkg.Zipf
