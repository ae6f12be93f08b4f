//go:build go1.21

// Code generated by genalias. DO NOT EDIT.
package mp3
