//go:build go1.21

// Code generated by genalias. DO NOT EDIT.
package context

import realpkg "context"

var AfterFunc = realpkg.AfterFunc
var Background = realpkg.Background

type CancelCauseFunc = realpkg.CancelCauseFunc
type CancelFunc = realpkg.CancelFunc

var Canceled = realpkg.Canceled

type Context = realpkg.Context

var DeadlineExceeded = realpkg.DeadlineExceeded
var TODO = realpkg.TODO
var WithDeadlineCause = realpkg.WithDeadlineCause
var WithTimeoutCause = realpkg.WithTimeoutCause
var WithValue = realpkg.WithValue
var WithoutCancel = realpkg.WithoutCancel
