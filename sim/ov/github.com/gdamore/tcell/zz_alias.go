//go:build go1.21

// Code generated by genalias. DO NOT EDIT.
package tcell

import realpkg "github.com/gdamore/tcell"

const AttrBlink = realpkg.AttrBlink
const AttrBold = realpkg.AttrBold
const AttrDim = realpkg.AttrDim

type AttrMask = realpkg.AttrMask

const AttrNone = realpkg.AttrNone
const AttrReverse = realpkg.AttrReverse
const AttrUnderline = realpkg.AttrUnderline
const Button1 = realpkg.Button1
const Button2 = realpkg.Button2
const Button3 = realpkg.Button3
const Button4 = realpkg.Button4
const Button5 = realpkg.Button5
const Button6 = realpkg.Button6
const Button7 = realpkg.Button7
const Button8 = realpkg.Button8

type ButtonMask = realpkg.ButtonMask

const ButtonNone = realpkg.ButtonNone

type CellBuffer = realpkg.CellBuffer
type Color = realpkg.Color

const Color100 = realpkg.Color100
const Color101 = realpkg.Color101
const Color102 = realpkg.Color102
const Color103 = realpkg.Color103
const Color104 = realpkg.Color104
const Color105 = realpkg.Color105
const Color106 = realpkg.Color106
const Color107 = realpkg.Color107
const Color108 = realpkg.Color108
const Color109 = realpkg.Color109
const Color110 = realpkg.Color110
const Color111 = realpkg.Color111
const Color112 = realpkg.Color112
const Color113 = realpkg.Color113
const Color114 = realpkg.Color114
const Color115 = realpkg.Color115
const Color116 = realpkg.Color116
const Color117 = realpkg.Color117
const Color118 = realpkg.Color118
const Color119 = realpkg.Color119
const Color120 = realpkg.Color120
const Color121 = realpkg.Color121
const Color122 = realpkg.Color122
const Color123 = realpkg.Color123
const Color124 = realpkg.Color124
const Color125 = realpkg.Color125
const Color126 = realpkg.Color126
const Color127 = realpkg.Color127
const Color128 = realpkg.Color128
const Color129 = realpkg.Color129
const Color130 = realpkg.Color130
const Color131 = realpkg.Color131
const Color132 = realpkg.Color132
const Color133 = realpkg.Color133
const Color134 = realpkg.Color134
const Color135 = realpkg.Color135
const Color136 = realpkg.Color136
const Color137 = realpkg.Color137
const Color138 = realpkg.Color138
const Color139 = realpkg.Color139
const Color140 = realpkg.Color140
const Color141 = realpkg.Color141
const Color142 = realpkg.Color142
const Color143 = realpkg.Color143
const Color144 = realpkg.Color144
const Color145 = realpkg.Color145
const Color146 = realpkg.Color146
const Color147 = realpkg.Color147
const Color148 = realpkg.Color148
const Color149 = realpkg.Color149
const Color150 = realpkg.Color150
const Color151 = realpkg.Color151
const Color152 = realpkg.Color152
const Color153 = realpkg.Color153
const Color154 = realpkg.Color154
const Color155 = realpkg.Color155
const Color156 = realpkg.Color156
const Color157 = realpkg.Color157
const Color158 = realpkg.Color158
const Color159 = realpkg.Color159
const Color16 = realpkg.Color16
const Color160 = realpkg.Color160
const Color161 = realpkg.Color161
const Color162 = realpkg.Color162
const Color163 = realpkg.Color163
const Color164 = realpkg.Color164
const Color165 = realpkg.Color165
const Color166 = realpkg.Color166
const Color167 = realpkg.Color167
const Color168 = realpkg.Color168
const Color169 = realpkg.Color169
const Color17 = realpkg.Color17
const Color170 = realpkg.Color170
const Color171 = realpkg.Color171
const Color172 = realpkg.Color172
const Color173 = realpkg.Color173
const Color174 = realpkg.Color174
const Color175 = realpkg.Color175
const Color176 = realpkg.Color176
const Color177 = realpkg.Color177
const Color178 = realpkg.Color178
const Color179 = realpkg.Color179
const Color18 = realpkg.Color18
const Color180 = realpkg.Color180
const Color181 = realpkg.Color181
const Color182 = realpkg.Color182
const Color183 = realpkg.Color183
const Color184 = realpkg.Color184
const Color185 = realpkg.Color185
const Color186 = realpkg.Color186
const Color187 = realpkg.Color187
const Color188 = realpkg.Color188
const Color189 = realpkg.Color189
const Color19 = realpkg.Color19
const Color190 = realpkg.Color190
const Color191 = realpkg.Color191
const Color192 = realpkg.Color192
const Color193 = realpkg.Color193
const Color194 = realpkg.Color194
const Color195 = realpkg.Color195
const Color196 = realpkg.Color196
const Color197 = realpkg.Color197
const Color198 = realpkg.Color198
const Color199 = realpkg.Color199
const Color20 = realpkg.Color20
const Color200 = realpkg.Color200
const Color201 = realpkg.Color201
const Color202 = realpkg.Color202
const Color203 = realpkg.Color203
const Color204 = realpkg.Color204
const Color205 = realpkg.Color205
const Color206 = realpkg.Color206
const Color207 = realpkg.Color207
const Color208 = realpkg.Color208
const Color209 = realpkg.Color209
const Color21 = realpkg.Color21
const Color210 = realpkg.Color210
const Color211 = realpkg.Color211
const Color212 = realpkg.Color212
const Color213 = realpkg.Color213
const Color214 = realpkg.Color214
const Color215 = realpkg.Color215
const Color216 = realpkg.Color216
const Color217 = realpkg.Color217
const Color218 = realpkg.Color218
const Color219 = realpkg.Color219
const Color22 = realpkg.Color22
const Color220 = realpkg.Color220
const Color221 = realpkg.Color221
const Color222 = realpkg.Color222
const Color223 = realpkg.Color223
const Color224 = realpkg.Color224
const Color225 = realpkg.Color225
const Color226 = realpkg.Color226
const Color227 = realpkg.Color227
const Color228 = realpkg.Color228
const Color229 = realpkg.Color229
const Color23 = realpkg.Color23
const Color230 = realpkg.Color230
const Color231 = realpkg.Color231
const Color232 = realpkg.Color232
const Color233 = realpkg.Color233
const Color234 = realpkg.Color234
const Color235 = realpkg.Color235
const Color236 = realpkg.Color236
const Color237 = realpkg.Color237
const Color238 = realpkg.Color238
const Color239 = realpkg.Color239
const Color24 = realpkg.Color24
const Color240 = realpkg.Color240
const Color241 = realpkg.Color241
const Color242 = realpkg.Color242
const Color243 = realpkg.Color243
const Color244 = realpkg.Color244
const Color245 = realpkg.Color245
const Color246 = realpkg.Color246
const Color247 = realpkg.Color247
const Color248 = realpkg.Color248
const Color249 = realpkg.Color249
const Color25 = realpkg.Color25
const Color250 = realpkg.Color250
const Color251 = realpkg.Color251
const Color252 = realpkg.Color252
const Color253 = realpkg.Color253
const Color254 = realpkg.Color254
const Color255 = realpkg.Color255
const Color26 = realpkg.Color26
const Color27 = realpkg.Color27
const Color28 = realpkg.Color28
const Color29 = realpkg.Color29
const Color30 = realpkg.Color30
const Color31 = realpkg.Color31
const Color32 = realpkg.Color32
const Color33 = realpkg.Color33
const Color34 = realpkg.Color34
const Color35 = realpkg.Color35
const Color36 = realpkg.Color36
const Color37 = realpkg.Color37
const Color38 = realpkg.Color38
const Color39 = realpkg.Color39
const Color40 = realpkg.Color40
const Color41 = realpkg.Color41
const Color42 = realpkg.Color42
const Color43 = realpkg.Color43
const Color44 = realpkg.Color44
const Color45 = realpkg.Color45
const Color46 = realpkg.Color46
const Color47 = realpkg.Color47
const Color48 = realpkg.Color48
const Color49 = realpkg.Color49
const Color50 = realpkg.Color50
const Color51 = realpkg.Color51
const Color52 = realpkg.Color52
const Color53 = realpkg.Color53
const Color54 = realpkg.Color54
const Color55 = realpkg.Color55
const Color56 = realpkg.Color56
const Color57 = realpkg.Color57
const Color58 = realpkg.Color58
const Color59 = realpkg.Color59
const Color60 = realpkg.Color60
const Color61 = realpkg.Color61
const Color62 = realpkg.Color62
const Color63 = realpkg.Color63
const Color64 = realpkg.Color64
const Color65 = realpkg.Color65
const Color66 = realpkg.Color66
const Color67 = realpkg.Color67
const Color68 = realpkg.Color68
const Color69 = realpkg.Color69
const Color70 = realpkg.Color70
const Color71 = realpkg.Color71
const Color72 = realpkg.Color72
const Color73 = realpkg.Color73
const Color74 = realpkg.Color74
const Color75 = realpkg.Color75
const Color76 = realpkg.Color76
const Color77 = realpkg.Color77
const Color78 = realpkg.Color78
const Color79 = realpkg.Color79
const Color80 = realpkg.Color80
const Color81 = realpkg.Color81
const Color82 = realpkg.Color82
const Color83 = realpkg.Color83
const Color84 = realpkg.Color84
const Color85 = realpkg.Color85
const Color86 = realpkg.Color86
const Color87 = realpkg.Color87
const Color88 = realpkg.Color88
const Color89 = realpkg.Color89
const Color90 = realpkg.Color90
const Color91 = realpkg.Color91
const Color92 = realpkg.Color92
const Color93 = realpkg.Color93
const Color94 = realpkg.Color94
const Color95 = realpkg.Color95
const Color96 = realpkg.Color96
const Color97 = realpkg.Color97
const Color98 = realpkg.Color98
const Color99 = realpkg.Color99
const ColorAliceBlue = realpkg.ColorAliceBlue
const ColorAntiqueWhite = realpkg.ColorAntiqueWhite
const ColorAqua = realpkg.ColorAqua
const ColorAquaMarine = realpkg.ColorAquaMarine
const ColorAzure = realpkg.ColorAzure
const ColorBeige = realpkg.ColorBeige
const ColorBisque = realpkg.ColorBisque
const ColorBlack = realpkg.ColorBlack
const ColorBlanchedAlmond = realpkg.ColorBlanchedAlmond
const ColorBlue = realpkg.ColorBlue
const ColorBlueViolet = realpkg.ColorBlueViolet
const ColorBrown = realpkg.ColorBrown
const ColorBurlyWood = realpkg.ColorBurlyWood
const ColorCadetBlue = realpkg.ColorCadetBlue
const ColorChartreuse = realpkg.ColorChartreuse
const ColorChocolate = realpkg.ColorChocolate
const ColorCoral = realpkg.ColorCoral
const ColorCornflowerBlue = realpkg.ColorCornflowerBlue
const ColorCornsilk = realpkg.ColorCornsilk
const ColorCrimson = realpkg.ColorCrimson
const ColorDarkBlue = realpkg.ColorDarkBlue
const ColorDarkCyan = realpkg.ColorDarkCyan
const ColorDarkGoldenrod = realpkg.ColorDarkGoldenrod
const ColorDarkGray = realpkg.ColorDarkGray
const ColorDarkGreen = realpkg.ColorDarkGreen
const ColorDarkGrey = realpkg.ColorDarkGrey
const ColorDarkKhaki = realpkg.ColorDarkKhaki
const ColorDarkMagenta = realpkg.ColorDarkMagenta
const ColorDarkOliveGreen = realpkg.ColorDarkOliveGreen
const ColorDarkOrange = realpkg.ColorDarkOrange
const ColorDarkOrchid = realpkg.ColorDarkOrchid
const ColorDarkRed = realpkg.ColorDarkRed
const ColorDarkSalmon = realpkg.ColorDarkSalmon
const ColorDarkSeaGreen = realpkg.ColorDarkSeaGreen
const ColorDarkSlateBlue = realpkg.ColorDarkSlateBlue
const ColorDarkSlateGray = realpkg.ColorDarkSlateGray
const ColorDarkSlateGrey = realpkg.ColorDarkSlateGrey
const ColorDarkTurquoise = realpkg.ColorDarkTurquoise
const ColorDarkViolet = realpkg.ColorDarkViolet
const ColorDeepPink = realpkg.ColorDeepPink
const ColorDeepSkyBlue = realpkg.ColorDeepSkyBlue
const ColorDefault = realpkg.ColorDefault
const ColorDimGray = realpkg.ColorDimGray
const ColorDimGrey = realpkg.ColorDimGrey
const ColorDodgerBlue = realpkg.ColorDodgerBlue
const ColorFireBrick = realpkg.ColorFireBrick
const ColorFloralWhite = realpkg.ColorFloralWhite
const ColorForestGreen = realpkg.ColorForestGreen
const ColorFuchsia = realpkg.ColorFuchsia
const ColorGainsboro = realpkg.ColorGainsboro
const ColorGhostWhite = realpkg.ColorGhostWhite
const ColorGold = realpkg.ColorGold
const ColorGoldenrod = realpkg.ColorGoldenrod
const ColorGray = realpkg.ColorGray
const ColorGreen = realpkg.ColorGreen
const ColorGreenYellow = realpkg.ColorGreenYellow
const ColorGrey = realpkg.ColorGrey
const ColorHoneydew = realpkg.ColorHoneydew
const ColorHotPink = realpkg.ColorHotPink
const ColorIndianRed = realpkg.ColorIndianRed
const ColorIndigo = realpkg.ColorIndigo
const ColorIsRGB = realpkg.ColorIsRGB
const ColorIvory = realpkg.ColorIvory
const ColorKhaki = realpkg.ColorKhaki
const ColorLavender = realpkg.ColorLavender
const ColorLavenderBlush = realpkg.ColorLavenderBlush
const ColorLawnGreen = realpkg.ColorLawnGreen
const ColorLemonChiffon = realpkg.ColorLemonChiffon
const ColorLightBlue = realpkg.ColorLightBlue
const ColorLightCoral = realpkg.ColorLightCoral
const ColorLightCyan = realpkg.ColorLightCyan
const ColorLightGoldenrodYellow = realpkg.ColorLightGoldenrodYellow
const ColorLightGray = realpkg.ColorLightGray
const ColorLightGreen = realpkg.ColorLightGreen
const ColorLightGrey = realpkg.ColorLightGrey
const ColorLightPink = realpkg.ColorLightPink
const ColorLightSalmon = realpkg.ColorLightSalmon
const ColorLightSeaGreen = realpkg.ColorLightSeaGreen
const ColorLightSkyBlue = realpkg.ColorLightSkyBlue
const ColorLightSlateGray = realpkg.ColorLightSlateGray
const ColorLightSlateGrey = realpkg.ColorLightSlateGrey
const ColorLightSteelBlue = realpkg.ColorLightSteelBlue
const ColorLightYellow = realpkg.ColorLightYellow
const ColorLime = realpkg.ColorLime
const ColorLimeGreen = realpkg.ColorLimeGreen
const ColorLinen = realpkg.ColorLinen
const ColorMaroon = realpkg.ColorMaroon
const ColorMediumAquamarine = realpkg.ColorMediumAquamarine
const ColorMediumBlue = realpkg.ColorMediumBlue
const ColorMediumOrchid = realpkg.ColorMediumOrchid
const ColorMediumPurple = realpkg.ColorMediumPurple
const ColorMediumSeaGreen = realpkg.ColorMediumSeaGreen
const ColorMediumSlateBlue = realpkg.ColorMediumSlateBlue
const ColorMediumSpringGreen = realpkg.ColorMediumSpringGreen
const ColorMediumTurquoise = realpkg.ColorMediumTurquoise
const ColorMediumVioletRed = realpkg.ColorMediumVioletRed
const ColorMidnightBlue = realpkg.ColorMidnightBlue
const ColorMintCream = realpkg.ColorMintCream
const ColorMistyRose = realpkg.ColorMistyRose
const ColorMoccasin = realpkg.ColorMoccasin

var ColorNames = realpkg.ColorNames

const ColorNavajoWhite = realpkg.ColorNavajoWhite
const ColorNavy = realpkg.ColorNavy
const ColorOldLace = realpkg.ColorOldLace
const ColorOlive = realpkg.ColorOlive
const ColorOliveDrab = realpkg.ColorOliveDrab
const ColorOrange = realpkg.ColorOrange
const ColorOrangeRed = realpkg.ColorOrangeRed
const ColorOrchid = realpkg.ColorOrchid
const ColorPaleGoldenrod = realpkg.ColorPaleGoldenrod
const ColorPaleGreen = realpkg.ColorPaleGreen
const ColorPaleTurquoise = realpkg.ColorPaleTurquoise
const ColorPaleVioletRed = realpkg.ColorPaleVioletRed
const ColorPapayaWhip = realpkg.ColorPapayaWhip
const ColorPeachPuff = realpkg.ColorPeachPuff
const ColorPeru = realpkg.ColorPeru
const ColorPink = realpkg.ColorPink
const ColorPlum = realpkg.ColorPlum
const ColorPowderBlue = realpkg.ColorPowderBlue
const ColorPurple = realpkg.ColorPurple
const ColorRebeccaPurple = realpkg.ColorRebeccaPurple
const ColorRed = realpkg.ColorRed
const ColorRosyBrown = realpkg.ColorRosyBrown
const ColorRoyalBlue = realpkg.ColorRoyalBlue
const ColorSaddleBrown = realpkg.ColorSaddleBrown
const ColorSalmon = realpkg.ColorSalmon
const ColorSandyBrown = realpkg.ColorSandyBrown
const ColorSeaGreen = realpkg.ColorSeaGreen
const ColorSeashell = realpkg.ColorSeashell
const ColorSienna = realpkg.ColorSienna
const ColorSilver = realpkg.ColorSilver
const ColorSkyblue = realpkg.ColorSkyblue
const ColorSlateBlue = realpkg.ColorSlateBlue
const ColorSlateGray = realpkg.ColorSlateGray
const ColorSlateGrey = realpkg.ColorSlateGrey
const ColorSnow = realpkg.ColorSnow
const ColorSpringGreen = realpkg.ColorSpringGreen
const ColorSteelBlue = realpkg.ColorSteelBlue
const ColorTan = realpkg.ColorTan
const ColorTeal = realpkg.ColorTeal
const ColorThistle = realpkg.ColorThistle
const ColorTomato = realpkg.ColorTomato
const ColorTurquoise = realpkg.ColorTurquoise

var ColorValues = realpkg.ColorValues

const ColorViolet = realpkg.ColorViolet
const ColorWheat = realpkg.ColorWheat
const ColorWhite = realpkg.ColorWhite
const ColorWhiteSmoke = realpkg.ColorWhiteSmoke
const ColorYellow = realpkg.ColorYellow
const ColorYellowGreen = realpkg.ColorYellowGreen

type EncodingFallback = realpkg.EncodingFallback

const EncodingFallbackASCII = realpkg.EncodingFallbackASCII
const EncodingFallbackFail = realpkg.EncodingFallbackFail
const EncodingFallbackUTF8 = realpkg.EncodingFallbackUTF8

var ErrEventQFull = realpkg.ErrEventQFull
var ErrNoCharset = realpkg.ErrNoCharset
var ErrNoScreen = realpkg.ErrNoScreen
var ErrTermNotFound = realpkg.ErrTermNotFound

type Event = realpkg.Event
type EventError = realpkg.EventError
type EventHandler = realpkg.EventHandler
type EventInterrupt = realpkg.EventInterrupt
type EventKey = realpkg.EventKey
type EventMouse = realpkg.EventMouse
type EventResize = realpkg.EventResize
type EventTime = realpkg.EventTime

var FindColor = realpkg.FindColor
var GetColor = realpkg.GetColor
var GetEncoding = realpkg.GetEncoding

type Key = realpkg.Key

const KeyACK = realpkg.KeyACK
const KeyBEL = realpkg.KeyBEL
const KeyBS = realpkg.KeyBS
const KeyBackspace = realpkg.KeyBackspace
const KeyBackspace2 = realpkg.KeyBackspace2
const KeyBacktab = realpkg.KeyBacktab
const KeyCAN = realpkg.KeyCAN
const KeyCR = realpkg.KeyCR
const KeyCancel = realpkg.KeyCancel
const KeyCenter = realpkg.KeyCenter
const KeyClear = realpkg.KeyClear
const KeyCtrlA = realpkg.KeyCtrlA
const KeyCtrlB = realpkg.KeyCtrlB
const KeyCtrlBackslash = realpkg.KeyCtrlBackslash
const KeyCtrlC = realpkg.KeyCtrlC
const KeyCtrlCarat = realpkg.KeyCtrlCarat
const KeyCtrlD = realpkg.KeyCtrlD
const KeyCtrlE = realpkg.KeyCtrlE
const KeyCtrlF = realpkg.KeyCtrlF
const KeyCtrlG = realpkg.KeyCtrlG
const KeyCtrlH = realpkg.KeyCtrlH
const KeyCtrlI = realpkg.KeyCtrlI
const KeyCtrlJ = realpkg.KeyCtrlJ
const KeyCtrlK = realpkg.KeyCtrlK
const KeyCtrlL = realpkg.KeyCtrlL
const KeyCtrlLeftSq = realpkg.KeyCtrlLeftSq
const KeyCtrlM = realpkg.KeyCtrlM
const KeyCtrlN = realpkg.KeyCtrlN
const KeyCtrlO = realpkg.KeyCtrlO
const KeyCtrlP = realpkg.KeyCtrlP
const KeyCtrlQ = realpkg.KeyCtrlQ
const KeyCtrlR = realpkg.KeyCtrlR
const KeyCtrlRightSq = realpkg.KeyCtrlRightSq
const KeyCtrlS = realpkg.KeyCtrlS
const KeyCtrlSpace = realpkg.KeyCtrlSpace
const KeyCtrlT = realpkg.KeyCtrlT
const KeyCtrlU = realpkg.KeyCtrlU
const KeyCtrlUnderscore = realpkg.KeyCtrlUnderscore
const KeyCtrlV = realpkg.KeyCtrlV
const KeyCtrlW = realpkg.KeyCtrlW
const KeyCtrlX = realpkg.KeyCtrlX
const KeyCtrlY = realpkg.KeyCtrlY
const KeyCtrlZ = realpkg.KeyCtrlZ
const KeyDC1 = realpkg.KeyDC1
const KeyDC2 = realpkg.KeyDC2
const KeyDC3 = realpkg.KeyDC3
const KeyDC4 = realpkg.KeyDC4
const KeyDEL = realpkg.KeyDEL
const KeyDLE = realpkg.KeyDLE
const KeyDelete = realpkg.KeyDelete
const KeyDown = realpkg.KeyDown
const KeyDownLeft = realpkg.KeyDownLeft
const KeyDownRight = realpkg.KeyDownRight
const KeyEM = realpkg.KeyEM
const KeyENQ = realpkg.KeyENQ
const KeyEOT = realpkg.KeyEOT
const KeyESC = realpkg.KeyESC
const KeyETB = realpkg.KeyETB
const KeyETX = realpkg.KeyETX
const KeyEnd = realpkg.KeyEnd
const KeyEnter = realpkg.KeyEnter
const KeyEsc = realpkg.KeyEsc
const KeyEscape = realpkg.KeyEscape
const KeyExit = realpkg.KeyExit
const KeyF1 = realpkg.KeyF1
const KeyF10 = realpkg.KeyF10
const KeyF11 = realpkg.KeyF11
const KeyF12 = realpkg.KeyF12
const KeyF13 = realpkg.KeyF13
const KeyF14 = realpkg.KeyF14
const KeyF15 = realpkg.KeyF15
const KeyF16 = realpkg.KeyF16
const KeyF17 = realpkg.KeyF17
const KeyF18 = realpkg.KeyF18
const KeyF19 = realpkg.KeyF19
const KeyF2 = realpkg.KeyF2
const KeyF20 = realpkg.KeyF20
const KeyF21 = realpkg.KeyF21
const KeyF22 = realpkg.KeyF22
const KeyF23 = realpkg.KeyF23
const KeyF24 = realpkg.KeyF24
const KeyF25 = realpkg.KeyF25
const KeyF26 = realpkg.KeyF26
const KeyF27 = realpkg.KeyF27
const KeyF28 = realpkg.KeyF28
const KeyF29 = realpkg.KeyF29
const KeyF3 = realpkg.KeyF3
const KeyF30 = realpkg.KeyF30
const KeyF31 = realpkg.KeyF31
const KeyF32 = realpkg.KeyF32
const KeyF33 = realpkg.KeyF33
const KeyF34 = realpkg.KeyF34
const KeyF35 = realpkg.KeyF35
const KeyF36 = realpkg.KeyF36
const KeyF37 = realpkg.KeyF37
const KeyF38 = realpkg.KeyF38
const KeyF39 = realpkg.KeyF39
const KeyF4 = realpkg.KeyF4
const KeyF40 = realpkg.KeyF40
const KeyF41 = realpkg.KeyF41
const KeyF42 = realpkg.KeyF42
const KeyF43 = realpkg.KeyF43
const KeyF44 = realpkg.KeyF44
const KeyF45 = realpkg.KeyF45
const KeyF46 = realpkg.KeyF46
const KeyF47 = realpkg.KeyF47
const KeyF48 = realpkg.KeyF48
const KeyF49 = realpkg.KeyF49
const KeyF5 = realpkg.KeyF5
const KeyF50 = realpkg.KeyF50
const KeyF51 = realpkg.KeyF51
const KeyF52 = realpkg.KeyF52
const KeyF53 = realpkg.KeyF53
const KeyF54 = realpkg.KeyF54
const KeyF55 = realpkg.KeyF55
const KeyF56 = realpkg.KeyF56
const KeyF57 = realpkg.KeyF57
const KeyF58 = realpkg.KeyF58
const KeyF59 = realpkg.KeyF59
const KeyF6 = realpkg.KeyF6
const KeyF60 = realpkg.KeyF60
const KeyF61 = realpkg.KeyF61
const KeyF62 = realpkg.KeyF62
const KeyF63 = realpkg.KeyF63
const KeyF64 = realpkg.KeyF64
const KeyF7 = realpkg.KeyF7
const KeyF8 = realpkg.KeyF8
const KeyF9 = realpkg.KeyF9
const KeyFF = realpkg.KeyFF
const KeyFS = realpkg.KeyFS
const KeyGS = realpkg.KeyGS
const KeyHelp = realpkg.KeyHelp
const KeyHome = realpkg.KeyHome
const KeyInsert = realpkg.KeyInsert
const KeyLF = realpkg.KeyLF
const KeyLeft = realpkg.KeyLeft
const KeyNAK = realpkg.KeyNAK
const KeyNUL = realpkg.KeyNUL

var KeyNames = realpkg.KeyNames

const KeyPause = realpkg.KeyPause
const KeyPgDn = realpkg.KeyPgDn
const KeyPgUp = realpkg.KeyPgUp
const KeyPrint = realpkg.KeyPrint
const KeyRS = realpkg.KeyRS
const KeyRight = realpkg.KeyRight
const KeyRune = realpkg.KeyRune
const KeySI = realpkg.KeySI
const KeySO = realpkg.KeySO
const KeySOH = realpkg.KeySOH
const KeySTX = realpkg.KeySTX
const KeySUB = realpkg.KeySUB
const KeySYN = realpkg.KeySYN
const KeyTAB = realpkg.KeyTAB
const KeyTab = realpkg.KeyTab
const KeyUS = realpkg.KeyUS
const KeyUp = realpkg.KeyUp
const KeyUpLeft = realpkg.KeyUpLeft
const KeyUpRight = realpkg.KeyUpRight
const KeyVT = realpkg.KeyVT
const ModAlt = realpkg.ModAlt
const ModCtrl = realpkg.ModCtrl

type ModMask = realpkg.ModMask

const ModMeta = realpkg.ModMeta
const ModNone = realpkg.ModNone
const ModShift = realpkg.ModShift

var NewEventError = realpkg.NewEventError
var NewEventInterrupt = realpkg.NewEventInterrupt
var NewEventKey = realpkg.NewEventKey
var NewEventMouse = realpkg.NewEventMouse
var NewEventResize = realpkg.NewEventResize
var NewHexColor = realpkg.NewHexColor
var NewRGBColor = realpkg.NewRGBColor
var NewSimulationScreen = realpkg.NewSimulationScreen
var RegisterEncoding = realpkg.RegisterEncoding

const RuneBTee = realpkg.RuneBTee
const RuneBlock = realpkg.RuneBlock
const RuneBoard = realpkg.RuneBoard
const RuneBullet = realpkg.RuneBullet
const RuneCkBoard = realpkg.RuneCkBoard
const RuneDArrow = realpkg.RuneDArrow
const RuneDegree = realpkg.RuneDegree
const RuneDiamond = realpkg.RuneDiamond

var RuneFallbacks = realpkg.RuneFallbacks

const RuneGEqual = realpkg.RuneGEqual
const RuneHLine = realpkg.RuneHLine
const RuneLArrow = realpkg.RuneLArrow
const RuneLEqual = realpkg.RuneLEqual
const RuneLLCorner = realpkg.RuneLLCorner
const RuneLRCorner = realpkg.RuneLRCorner
const RuneLTee = realpkg.RuneLTee
const RuneLantern = realpkg.RuneLantern
const RuneNEqual = realpkg.RuneNEqual
const RunePi = realpkg.RunePi
const RunePlMinus = realpkg.RunePlMinus
const RunePlus = realpkg.RunePlus
const RuneRArrow = realpkg.RuneRArrow
const RuneRTee = realpkg.RuneRTee
const RuneS1 = realpkg.RuneS1
const RuneS3 = realpkg.RuneS3
const RuneS7 = realpkg.RuneS7
const RuneS9 = realpkg.RuneS9
const RuneSterling = realpkg.RuneSterling
const RuneTTee = realpkg.RuneTTee
const RuneUArrow = realpkg.RuneUArrow
const RuneULCorner = realpkg.RuneULCorner
const RuneURCorner = realpkg.RuneURCorner
const RuneVLine = realpkg.RuneVLine

type Screen = realpkg.Screen

var SetEncodingFallback = realpkg.SetEncodingFallback

type SimCell = realpkg.SimCell
type SimulationScreen = realpkg.SimulationScreen
type Style = realpkg.Style

const StyleDefault = realpkg.StyleDefault
const WheelDown = realpkg.WheelDown
const WheelLeft = realpkg.WheelLeft
const WheelRight = realpkg.WheelRight
const WheelUp = realpkg.WheelUp
