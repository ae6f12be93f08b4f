//go:build go1.21

// Code generated by genalias. DO NOT EDIT.
package net

import realpkg "net"

type Addr = realpkg.Addr
type AddrError = realpkg.AddrError
type Buffers = realpkg.Buffers

var CIDRMask = realpkg.CIDRMask

type Conn = realpkg.Conn
type DNSConfigError = realpkg.DNSConfigError
type DNSError = realpkg.DNSError

var DefaultResolver = realpkg.DefaultResolver
var DialIP = realpkg.DialIP
var DialUDP = realpkg.DialUDP
var DialUnix = realpkg.DialUnix
var ErrClosed = realpkg.ErrClosed
var ErrWriteToConnected = realpkg.ErrWriteToConnected

type Error = realpkg.Error

var FileConn = realpkg.FileConn
var FileListener = realpkg.FileListener
var FilePacketConn = realpkg.FilePacketConn

const FlagBroadcast = realpkg.FlagBroadcast
const FlagLoopback = realpkg.FlagLoopback
const FlagMulticast = realpkg.FlagMulticast
const FlagPointToPoint = realpkg.FlagPointToPoint
const FlagRunning = realpkg.FlagRunning
const FlagUp = realpkg.FlagUp

type Flags = realpkg.Flags
type HardwareAddr = realpkg.HardwareAddr
type IP = realpkg.IP
type IPAddr = realpkg.IPAddr
type IPConn = realpkg.IPConn
type IPMask = realpkg.IPMask
type IPNet = realpkg.IPNet

var IPv4 = realpkg.IPv4
var IPv4Mask = realpkg.IPv4Mask
var IPv4allrouter = realpkg.IPv4allrouter
var IPv4allsys = realpkg.IPv4allsys
var IPv4bcast = realpkg.IPv4bcast

const IPv4len = realpkg.IPv4len

var IPv4zero = realpkg.IPv4zero
var IPv6interfacelocalallnodes = realpkg.IPv6interfacelocalallnodes

const IPv6len = realpkg.IPv6len

var IPv6linklocalallnodes = realpkg.IPv6linklocalallnodes
var IPv6linklocalallrouters = realpkg.IPv6linklocalallrouters
var IPv6loopback = realpkg.IPv6loopback
var IPv6unspecified = realpkg.IPv6unspecified
var IPv6zero = realpkg.IPv6zero

type Interface = realpkg.Interface

var InterfaceByIndex = realpkg.InterfaceByIndex
var InterfaceByName = realpkg.InterfaceByName

type InvalidAddrError = realpkg.InvalidAddrError

var JoinHostPort = realpkg.JoinHostPort

type KeepAliveConfig = realpkg.KeepAliveConfig

var ListenIP = realpkg.ListenIP
var ListenMulticastUDP = realpkg.ListenMulticastUDP
var ListenPacket = realpkg.ListenPacket
var ListenUDP = realpkg.ListenUDP
var ListenUnix = realpkg.ListenUnix
var ListenUnixgram = realpkg.ListenUnixgram

type Listener = realpkg.Listener

var LookupAddr = realpkg.LookupAddr
var LookupCNAME = realpkg.LookupCNAME
var LookupMX = realpkg.LookupMX
var LookupNS = realpkg.LookupNS
var LookupPort = realpkg.LookupPort
var LookupSRV = realpkg.LookupSRV
var LookupTXT = realpkg.LookupTXT

type MX = realpkg.MX
type NS = realpkg.NS
type OpError = realpkg.OpError
type PacketConn = realpkg.PacketConn

var ParseCIDR = realpkg.ParseCIDR

type ParseError = realpkg.ParseError

var ParseIP = realpkg.ParseIP
var ParseMAC = realpkg.ParseMAC
var Pipe = realpkg.Pipe
var ResolveIPAddr = realpkg.ResolveIPAddr
var ResolveTCPAddr = realpkg.ResolveTCPAddr
var ResolveUDPAddr = realpkg.ResolveUDPAddr
var ResolveUnixAddr = realpkg.ResolveUnixAddr

type Resolver = realpkg.Resolver
type SRV = realpkg.SRV

var SplitHostPort = realpkg.SplitHostPort

type TCPAddr = realpkg.TCPAddr

var TCPAddrFromAddrPort = realpkg.TCPAddrFromAddrPort

type UDPAddr = realpkg.UDPAddr

var UDPAddrFromAddrPort = realpkg.UDPAddrFromAddrPort

type UDPConn = realpkg.UDPConn
type UnixAddr = realpkg.UnixAddr
type UnixConn = realpkg.UnixConn
type UnixListener = realpkg.UnixListener
type UnknownNetworkError = realpkg.UnknownNetworkError
