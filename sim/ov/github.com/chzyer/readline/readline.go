//go:build go1.21

package readline

import (
	"bytes"
	real "github.com/chzyer/readline"
	"io"
	"msim/rt"
	"unicode/utf8"
)

const isWindows = false

var runes = real.Runes{}

// Instance reads lines from a session. Editing, completion, history and search are the
// code of the real library (real_*.go); its two goroutines and its terminal are replaced by
// Readline and key, which handle one key after the other as they do. What the editor draws
// is thrown away, a plain prompt and the offered completions are sent instead.
type Instance struct {
	Config *real.Config
	in     []byte
	closed bool
	eof    bool
	op     *Operation
}

// Operation is the part of the real one that the copied code uses.
type Operation struct {
	cfg     *real.Config
	buf     *RuneBuffer
	history *opHistory
	*opSearch
	*opCompleter
}

func NewEx(cfg *real.Config) (*Instance, error) {
	c := *cfg
	c.HistoryFile = ""
	if c.FuncGetWidth == nil {
		c.FuncGetWidth = func() int { return 80 }
	}
	if c.Painter == nil {
		c.Painter = plain{}
	}
	if c.HistoryLimit == 0 {
		c.HistoryLimit = 500
	}
	if c.EOFPrompt == "" {
		c.EOFPrompt = "^D"
	}
	w := c.FuncGetWidth()
	op := &Operation{cfg: &c, buf: NewRuneBuffer(io.Discard, c.Prompt, &c, w)}
	op.history = newOpHistory(&c)
	op.history.Init()
	op.opSearch = newOpSearch(io.Discard, op.buf, op.history, &c, w)
	op.opCompleter = newOpCompleter(io.Discard, op, w)
	return &Instance{Config: cfg, op: op}, nil
}

func New(prompt string) (*Instance, error) { return NewEx(&real.Config{Prompt: prompt}) }

type plain struct{}

func (plain) Paint(line []rune, _ int) []rune { return line }

func (i *Instance) fill() error {
	b := make([]byte, 256)
	n, err := i.Config.Stdin.Read(b)
	i.in = append(i.in, b[:n]...)
	if n > 0 {
		return nil
	}
	if err == nil {
		err = io.EOF
	}
	return err
}

func (i *Instance) rune() (rune, bool) {
	for {
		if i.closed || i.eof {
			return 0, false
		}
		if utf8.FullRune(i.in) {
			r, n := utf8.DecodeRune(i.in)
			i.in = i.in[n:]
			return r, true
		}
		if err := i.fill(); err != nil {
			i.eof = true
		}
	}
}

// key is the next key, 0 at the end of the input.
func (i *Instance) key() rune {
	for {
		r, ok := i.rune()
		if !ok {
			return 0
		}
		if r != CharEsc {
			return r
		}
		if r, ok = i.rune(); !ok {
			return 0
		}
		switch r {
		case 'b':
			return MetaBackward
		case 'f':
			return MetaForward
		case 'd':
			return MetaDelete
		case CharTranspose:
			return MetaTranspose
		case CharBackspace:
			return MetaBackspace
		case 'O':
			if r, ok = i.rune(); !ok {
				return 0
			}
			switch r {
			case 'H':
				return CharLineStart
			case 'F':
				return CharLineEnd
			}
			return CharEsc
		case CharEscapeEx:
		default:
			return CharEsc
		}
		attr := ""
		for {
			if r, ok = i.rune(); !ok {
				return 0
			}
			if r != ';' && (r < '0' || r > '9') {
				break
			}
			attr += string(r)
		}
		switch {
		case r == 'D':
			return CharBackward
		case r == 'C':
			return CharForward
		case r == 'A':
			return CharPrev
		case r == 'B':
			return CharNext
		case r == 'H':
			return CharLineStart
		case r == 'F':
			return CharLineEnd
		case r == '~' && attr == "3":
			return CharDelete
		}
	}
}

// Readline is Operation.Runes and Operation.ioloop of the real library.
func (i *Instance) Readline() (string, error) {
	rt.Y()
	cfg := i.Config
	if cfg.Listener != nil {
		cfg.Listener.OnChange(nil, 0, 0)
	}
	i.Write([]byte("\x01" + cfg.Prompt)) // \x01 tells the simulated client that the prompt starts
	for {
		if line, err, done := i.step(); done {
			return string(line), err
		}
	}
}

func (o *Operation) normal() bool { return !o.IsInCompleteMode() && !o.IsSearchMode() }

func (i *Instance) step() (line []rune, err error, done bool) {
	o, cfg := i.op, i.Config
	keepSearch, keepComplete, update := false, false, true
	r := i.key()
	if cfg.FuncFilterInputRune != nil {
		var ok bool
		if r, ok = cfg.FuncFilterInputRune(r); !ok {
			o.buf.Refresh(nil)
			return
		}
	}
	if r == 0 {
		if o.buf.Len() == 0 {
			return nil, io.EOF, true
		}
		r = CharEnter
	}
	if o.IsInCompleteSelectMode() {
		if o.HandleCompleteSelect(r) {
			return
		}
		o.buf.Refresh(nil)
		switch r {
		case CharEnter, CharCtrlJ:
			o.history.Update(o.buf.Runes(), false)
			return
		case CharInterrupt, CharBell:
			return
		}
	}
	switch r {
	case CharBell:
		if o.IsSearchMode() {
			o.ExitSearchMode(true)
		}
		if o.IsInCompleteMode() {
			o.ExitCompleteMode(true)
		}
	case CharTab:
		if cfg.AutoComplete != nil && o.OnComplete() {
			keepComplete = true
			if o.IsInCompleteMode() && !o.IsInCompleteSelectMode() {
				var b bytes.Buffer
				b.WriteString("\n")
				same := string(o.buf.RuneSlice(-o.candidateOff))
				for _, x := range o.candidate {
					b.WriteString("COMPLETE:" + same + string(x) + "\n")
				}
				i.Write(b.Bytes())
			}
		}
	case CharBckSearch:
		keepSearch = o.SearchMode(S_DIR_BCK)
	case CharFwdSearch:
		keepSearch = o.SearchMode(S_DIR_FWD)
	case CharCtrlU:
		o.buf.KillFront()
	case CharKill:
		o.buf.Kill()
		keepComplete = true
	case MetaForward:
		o.buf.MoveToNextWord()
	case MetaBackward:
		o.buf.MoveToPrevWord()
	case MetaDelete:
		o.buf.DeleteWord()
	case CharTranspose:
		o.buf.Transpose()
	case CharLineStart:
		o.buf.MoveToLineStart()
	case CharLineEnd:
		o.buf.MoveToLineEnd()
	case CharBackspace, CharCtrlH:
		if o.IsSearchMode() {
			o.SearchBackspace()
			keepSearch = true
		} else if o.buf.Len() > 0 {
			o.buf.Backspace()
			if o.IsInCompleteMode() {
				o.OnComplete()
			}
		}
	case CharCtrlZ:
		o.buf.Clean()
		rt.Stop() // it sends SIGTSTP to its process
	case CharCtrlL:
	case MetaBackspace, CharCtrlW:
		o.buf.BackEscapeWord()
	case CharCtrlY:
		o.buf.Yank()
	case CharEnter, CharCtrlJ:
		if o.IsSearchMode() {
			o.ExitSearchMode(false)
		}
		o.buf.MoveToLineEnd()
		o.buf.WriteRune('\n')
		line = o.buf.Reset()
		line = append([]rune(nil), line[:len(line)-1]...)
		done = true
		i.Write([]byte("\n"))
		o.history.New(line)
	case CharBackward:
		o.buf.MoveBackward()
	case CharForward:
		o.buf.MoveForward()
	case CharPrev:
		if b := o.history.Prev(); b != nil {
			o.buf.Set(b)
		}
	case CharNext:
		if b, ok := o.history.Next(); ok {
			o.buf.Set(b)
		}
	case CharDelete:
		if o.buf.Len() > 0 || !o.normal() {
			o.buf.Delete()
			break
		}
		o.buf.Reset()
		update = false
		o.history.Revert()
		err, done = io.EOF, true
	case CharInterrupt:
		if o.IsSearchMode() {
			o.ExitSearchMode(true)
			break
		}
		if o.IsInCompleteMode() {
			o.ExitCompleteMode(true)
			o.buf.Refresh(nil)
			break
		}
		o.buf.MoveToLineEnd()
		line = append([]rune(nil), o.buf.Reset()...)
		i.Write([]byte(cfg.InterruptPrompt + "\n"))
		update = false
		o.history.Revert()
		err, done = real.ErrInterrupt, true
	default:
		if o.IsSearchMode() {
			o.SearchChar(r)
			keepSearch = true
			break
		}
		o.buf.WriteRune(r)
		if o.IsInCompleteMode() {
			o.OnComplete()
			keepComplete = true
		}
	}
	if cfg.Listener != nil {
		if l, pos, ok := cfg.Listener.OnChange(o.buf.Runes(), o.buf.Pos(), r); ok {
			o.buf.SetWithIdx(pos, l)
		}
	}
	if !keepSearch && o.IsSearchMode() {
		o.ExitSearchMode(false)
		o.buf.Refresh(nil)
	} else if o.IsInCompleteMode() {
		if !keepComplete {
			o.ExitCompleteMode(false)
			o.buf.Refresh(nil)
		} else {
			o.buf.Refresh(nil)
			o.CompleteRefresh()
		}
	}
	if update && !o.IsSearchMode() {
		o.history.Update(o.buf.Runes(), false)
	}
	return
}

func (i *Instance) ReadSlice() ([]byte, error) { s, e := i.Readline(); return []byte(s), e }
func (i *Instance) Close() error               { i.closed = true; return nil }
func (i *Instance) Clean()                     {}
func (i *Instance) Refresh()                   {}
func (i *Instance) SetPrompt(s string)         { i.Config.Prompt = s }
func (i *Instance) Stdout() io.Writer          { return i.Config.Stdout }
func (i *Instance) Stderr() io.Writer          { return i.Config.Stderr }
func (i *Instance) SaveHistory(string) error   { return nil }
func (i *Instance) ResetHistory()              {}
func (i *Instance) HistoryDisable()            {}
func (i *Instance) HistoryEnable()             {}
func (i *Instance) SetVimMode(bool)            {}
func (i *Instance) IsVimMode() bool            { return false }
func (i *Instance) Write(b []byte) (int, error) {
	if i.Config.Stdout == nil {
		return len(b), nil
	}
	return i.Config.Stdout.Write(b)
}
