//go:build go1.21

// Code generated by genalias. DO NOT EDIT.
package readline

import realpkg "github.com/chzyer/readline"

var AddHistory = realpkg.AddHistory

type CancelableStdin = realpkg.CancelableStdin

const CharBackspace = realpkg.CharBackspace
const CharBackward = realpkg.CharBackward
const CharBckSearch = realpkg.CharBckSearch
const CharBell = realpkg.CharBell
const CharCtrlH = realpkg.CharCtrlH
const CharCtrlJ = realpkg.CharCtrlJ
const CharCtrlL = realpkg.CharCtrlL
const CharCtrlU = realpkg.CharCtrlU
const CharCtrlW = realpkg.CharCtrlW
const CharCtrlY = realpkg.CharCtrlY
const CharCtrlZ = realpkg.CharCtrlZ
const CharDelete = realpkg.CharDelete
const CharEnter = realpkg.CharEnter
const CharEsc = realpkg.CharEsc
const CharEscapeEx = realpkg.CharEscapeEx
const CharForward = realpkg.CharForward
const CharFwdSearch = realpkg.CharFwdSearch
const CharInterrupt = realpkg.CharInterrupt
const CharKill = realpkg.CharKill
const CharLineEnd = realpkg.CharLineEnd
const CharLineStart = realpkg.CharLineStart
const CharNext = realpkg.CharNext
const CharPrev = realpkg.CharPrev
const CharTab = realpkg.CharTab
const CharTranspose = realpkg.CharTranspose

var ClearScreen = realpkg.ClearScreen

type Config = realpkg.Config

var Debug = realpkg.Debug
var DefaultIsTerminal = realpkg.DefaultIsTerminal
var DefaultOnWidthChanged = realpkg.DefaultOnWidthChanged
var DialRemote = realpkg.DialRemote
var Do = realpkg.Do

type DumpListener = realpkg.DumpListener
type DynamicCompleteFunc = realpkg.DynamicCompleteFunc
type DynamicPrefixCompleterInterface = realpkg.DynamicPrefixCompleterInterface

var ErrInterrupt = realpkg.ErrInterrupt

type FillableStdin = realpkg.FillableStdin

var FuncListener = realpkg.FuncListener
var GetInt = realpkg.GetInt
var GetScreenWidth = realpkg.GetScreenWidth
var GetSize = realpkg.GetSize
var GetState = realpkg.GetState
var GetStdin = realpkg.GetStdin
var HandleConn = realpkg.HandleConn

type InterruptError = realpkg.InterruptError

var IsPrintable = realpkg.IsPrintable
var IsTerminal = realpkg.IsTerminal
var IsWordBreak = realpkg.IsWordBreak
var Line = realpkg.Line
var LineCount = realpkg.LineCount
var ListenRemote = realpkg.ListenRemote

type Listener = realpkg.Listener

var MakeRaw = realpkg.MakeRaw

type Message = realpkg.Message

const MetaBackspace = realpkg.MetaBackspace
const MetaBackward = realpkg.MetaBackward
const MetaDelete = realpkg.MetaDelete
const MetaForward = realpkg.MetaForward
const MetaTranspose = realpkg.MetaTranspose

type MsgType = realpkg.MsgType

var NewCancelableStdin = realpkg.NewCancelableStdin
var NewFillableStdin = realpkg.NewFillableStdin
var NewMessage = realpkg.NewMessage
var NewPrefixCompleter = realpkg.NewPrefixCompleter
var NewRemoteCli = realpkg.NewRemoteCli
var NewRemoteSvr = realpkg.NewRemoteSvr
var NewTerminal = realpkg.NewTerminal

type Painter = realpkg.Painter

var Password = realpkg.Password
var PcItem = realpkg.PcItem
var PcItemDynamic = realpkg.PcItemDynamic

type PrefixCompleter = realpkg.PrefixCompleter
type PrefixCompleterInterface = realpkg.PrefixCompleterInterface

var Print = realpkg.Print

type RawMode = realpkg.RawMode

var ReadMessage = realpkg.ReadMessage
var ReadPassword = realpkg.ReadPassword

type RemoteCli = realpkg.RemoteCli
type RemoteSvr = realpkg.RemoteSvr

var Restore = realpkg.Restore

type Result = realpkg.Result

var RetSegment = realpkg.RetSegment

type Runes = realpkg.Runes

var SegmentAutoComplete = realpkg.SegmentAutoComplete

type SegmentComplete = realpkg.SegmentComplete
type SegmentCompleter = realpkg.SegmentCompleter

var SegmentFunc = realpkg.SegmentFunc
var SetAutoComplete = realpkg.SetAutoComplete
var SetHistoryPath = realpkg.SetHistoryPath
var SplitByLine = realpkg.SplitByLine
var SplitSegment = realpkg.SplitSegment

type State = realpkg.State

var Stderr = realpkg.Stderr
var Stdin = realpkg.Stdin
var Stdout = realpkg.Stdout
var SuspendMe = realpkg.SuspendMe

const T_DATA = realpkg.T_DATA
const T_EOF = realpkg.T_EOF
const T_ERAW = realpkg.T_ERAW
const T_ISTTY_REPORT = realpkg.T_ISTTY_REPORT
const T_RAW = realpkg.T_RAW
const T_WIDTH = realpkg.T_WIDTH
const T_WIDTH_REPORT = realpkg.T_WIDTH_REPORT

var TabWidth = realpkg.TabWidth

type Terminal = realpkg.Terminal
type Termios = realpkg.Termios

const VIM_INSERT = realpkg.VIM_INSERT
const VIM_NORMAL = realpkg.VIM_NORMAL
const VIM_VISUAL = realpkg.VIM_VISUAL

var WaitForResume = realpkg.WaitForResume
