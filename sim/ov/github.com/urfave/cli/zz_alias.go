//go:build go1.21

// Code generated by genalias. DO NOT EDIT.
package cli

import realpkg "github.com/urfave/cli"

type ActionFunc = realpkg.ActionFunc
type AfterFunc = realpkg.AfterFunc
type App = realpkg.App

var AppHelpTemplate = realpkg.AppHelpTemplate

type Args = realpkg.Args
type Author = realpkg.Author
type BashCompleteFunc = realpkg.BashCompleteFunc

var BashCompletionFlag = realpkg.BashCompletionFlag

type BeforeFunc = realpkg.BeforeFunc
type BoolFlag = realpkg.BoolFlag
type BoolTFlag = realpkg.BoolTFlag
type Command = realpkg.Command
type CommandCategories = realpkg.CommandCategories
type CommandCategory = realpkg.CommandCategory

var CommandHelpTemplate = realpkg.CommandHelpTemplate

type CommandNotFoundFunc = realpkg.CommandNotFoundFunc
type Commands = realpkg.Commands
type CommandsByName = realpkg.CommandsByName
type Context = realpkg.Context

var DefaultAppComplete = realpkg.DefaultAppComplete
var DefaultCompleteWithFlags = realpkg.DefaultCompleteWithFlags

type DocGenerationFlag = realpkg.DocGenerationFlag
type DurationFlag = realpkg.DurationFlag

var ErrWriter = realpkg.ErrWriter

type ErrorFormatter = realpkg.ErrorFormatter
type ExitCoder = realpkg.ExitCoder
type ExitErrHandlerFunc = realpkg.ExitErrHandlerFunc
type ExitError = realpkg.ExitError

var FishCompletionTemplate = realpkg.FishCompletionTemplate

type Flag = realpkg.Flag
type FlagEnvHintFunc = realpkg.FlagEnvHintFunc

var FlagEnvHinter = realpkg.FlagEnvHinter

type FlagFileHintFunc = realpkg.FlagFileHintFunc

var FlagFileHinter = realpkg.FlagFileHinter

type FlagNamePrefixFunc = realpkg.FlagNamePrefixFunc

var FlagNamePrefixer = realpkg.FlagNamePrefixer

type FlagStringFunc = realpkg.FlagStringFunc

var FlagStringer = realpkg.FlagStringer

type FlagsByName = realpkg.FlagsByName
type Float64Flag = realpkg.Float64Flag
type Generic = realpkg.Generic
type GenericFlag = realpkg.GenericFlag

var HandleAction = realpkg.HandleAction
var HandleExitCoder = realpkg.HandleExitCoder
var HelpFlag = realpkg.HelpFlag
var HelpPrinter = realpkg.HelpPrinter
var HelpPrinterCustom = realpkg.HelpPrinterCustom

type Int64Flag = realpkg.Int64Flag
type Int64Slice = realpkg.Int64Slice
type Int64SliceFlag = realpkg.Int64SliceFlag
type IntFlag = realpkg.IntFlag
type IntSlice = realpkg.IntSlice
type IntSliceFlag = realpkg.IntSliceFlag

var MarkdownDocTemplate = realpkg.MarkdownDocTemplate

type MultiError = realpkg.MultiError

var NewContext = realpkg.NewContext
var NewExitError = realpkg.NewExitError
var NewMultiError = realpkg.NewMultiError

type OnUsageErrorFunc = realpkg.OnUsageErrorFunc

var OsExiter = realpkg.OsExiter

type RequiredFlag = realpkg.RequiredFlag

var ShowAppHelp = realpkg.ShowAppHelp
var ShowAppHelpAndExit = realpkg.ShowAppHelpAndExit
var ShowCommandCompletions = realpkg.ShowCommandCompletions
var ShowCommandHelp = realpkg.ShowCommandHelp
var ShowCommandHelpAndExit = realpkg.ShowCommandHelpAndExit
var ShowCompletions = realpkg.ShowCompletions
var ShowSubcommandHelp = realpkg.ShowSubcommandHelp
var ShowVersion = realpkg.ShowVersion

type StringFlag = realpkg.StringFlag
type StringSlice = realpkg.StringSlice
type StringSliceFlag = realpkg.StringSliceFlag

var SubcommandHelpTemplate = realpkg.SubcommandHelpTemplate

type Uint64Flag = realpkg.Uint64Flag
type UintFlag = realpkg.UintFlag

var VersionFlag = realpkg.VersionFlag
var VersionPrinter = realpkg.VersionPrinter
