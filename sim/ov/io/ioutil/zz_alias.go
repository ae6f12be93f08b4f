//go:build go1.21

// Code generated by genalias. DO NOT EDIT.
package ioutil

import realpkg "io/ioutil"

var Discard = realpkg.Discard
var NopCloser = realpkg.NopCloser
var ReadAll = realpkg.ReadAll
var TempDir = realpkg.TempDir
var TempFile = realpkg.TempFile
