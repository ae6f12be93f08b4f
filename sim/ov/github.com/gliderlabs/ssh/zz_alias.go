//go:build go1.21

// Code generated by genalias. DO NOT EDIT.
package ssh

import realpkg "github.com/gliderlabs/ssh"

var AgentRequested = realpkg.AgentRequested

type ChannelHandler = realpkg.ChannelHandler
type ConnCallback = realpkg.ConnCallback
type Context = realpkg.Context

var ContextKeyClientVersion = realpkg.ContextKeyClientVersion
var ContextKeyConn = realpkg.ContextKeyConn
var ContextKeyLocalAddr = realpkg.ContextKeyLocalAddr
var ContextKeyPermissions = realpkg.ContextKeyPermissions
var ContextKeyPublicKey = realpkg.ContextKeyPublicKey
var ContextKeyRemoteAddr = realpkg.ContextKeyRemoteAddr
var ContextKeyServer = realpkg.ContextKeyServer
var ContextKeyServerVersion = realpkg.ContextKeyServerVersion
var ContextKeySessionID = realpkg.ContextKeySessionID
var ContextKeyUser = realpkg.ContextKeyUser
var DefaultChannelHandlers = realpkg.DefaultChannelHandlers
var DefaultHandler = realpkg.DefaultHandler
var DefaultRequestHandlers = realpkg.DefaultRequestHandlers
var DefaultSessionHandler = realpkg.DefaultSessionHandler
var DirectTCPIPHandler = realpkg.DirectTCPIPHandler
var ForwardAgentConnections = realpkg.ForwardAgentConnections

type ForwardedTCPHandler = realpkg.ForwardedTCPHandler
type Handler = realpkg.Handler

var HostKeyPEM = realpkg.HostKeyPEM

type KeyboardInteractiveHandler = realpkg.KeyboardInteractiveHandler

var KeysEqual = realpkg.KeysEqual

type LocalPortForwardingCallback = realpkg.LocalPortForwardingCallback

var NewAgentListener = realpkg.NewAgentListener
var NoPty = realpkg.NoPty

type Option = realpkg.Option

var ParseAuthorizedKey = realpkg.ParseAuthorizedKey
var ParsePublicKey = realpkg.ParsePublicKey
var PasswordAuth = realpkg.PasswordAuth

type PasswordHandler = realpkg.PasswordHandler
type Permissions = realpkg.Permissions
type Pty = realpkg.Pty
type PtyCallback = realpkg.PtyCallback
type PublicKey = realpkg.PublicKey

var PublicKeyAuth = realpkg.PublicKeyAuth

type PublicKeyHandler = realpkg.PublicKeyHandler
type RequestHandler = realpkg.RequestHandler
type ReversePortForwardingCallback = realpkg.ReversePortForwardingCallback

const SIGABRT = realpkg.SIGABRT
const SIGALRM = realpkg.SIGALRM
const SIGFPE = realpkg.SIGFPE
const SIGHUP = realpkg.SIGHUP
const SIGILL = realpkg.SIGILL
const SIGINT = realpkg.SIGINT
const SIGKILL = realpkg.SIGKILL
const SIGPIPE = realpkg.SIGPIPE
const SIGQUIT = realpkg.SIGQUIT
const SIGSEGV = realpkg.SIGSEGV
const SIGTERM = realpkg.SIGTERM
const SIGUSR1 = realpkg.SIGUSR1
const SIGUSR2 = realpkg.SIGUSR2

type Server = realpkg.Server
type ServerConfigCallback = realpkg.ServerConfigCallback
type Session = realpkg.Session
type SessionRequestCallback = realpkg.SessionRequestCallback

var SetAgentRequested = realpkg.SetAgentRequested

type Signal = realpkg.Signal
type Signer = realpkg.Signer
type Window = realpkg.Window

var WrapConn = realpkg.WrapConn
