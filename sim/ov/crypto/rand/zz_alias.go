//go:build go1.21

// Code generated by genalias. DO NOT EDIT.
package rand

import realpkg "crypto/rand"

var Int = realpkg.Int
var Prime = realpkg.Prime
var Text = realpkg.Text
