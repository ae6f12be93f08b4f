//go:build go1.21

package tcell

import (
	"errors"
	real "github.com/gdamore/tcell"
	"msim/rt"
)

// SimScreen is a terminal whose contents the harness reads.
type SimScreen struct {
	cells  real.CellBuffer
	style  real.Style
	w, h   int
	ev     []real.Event
	wait   []*rt.Task
	fini   bool
	inited bool
	n      *rt.Node
	// OnShow gets the text on the screen at every Show.
	Lines  []string
	ShowAt int64
	Shows  int
}

func NewScreen() (real.Screen, error) {
	rt.Y()
	rt.CheckKill()
	n := rt.CurNode()
	if f, ok := n.Vals["screenfail"].(bool); ok && f {
		rt.S.Fault("terminal_error")
		return nil, errors.New("terminal entry not found")
	}
	w, h := 80, 24
	if d, ok := n.Vals["screensize"].([2]int); ok {
		w, h = d[0], d[1]
	}
	s := &SimScreen{n: n, w: w, h: h, style: real.StyleDefault}
	n.Vals["screen"] = s
	return s, nil
}
func NewTerminfoScreen() (real.Screen, error) { return NewScreen() }
func NewConsoleScreen() (real.Screen, error)  { return NewScreen() }

func (s *SimScreen) Init() error {
	if f, ok := s.n.Vals["initfail"].(bool); ok && f {
		rt.S.Fault("terminal_error")
		return errors.New("open /dev/tty: no such device or address")
	}
	s.cells.Resize(s.w, s.h)
	s.inited = true
	s.PostEvent(real.NewEventResize(s.w, s.h))
	return nil
}
func (s *SimScreen) Fini() {
	if rt.Killed() {
		return
	}
	s.fini = true
	s.Lines = nil
	s.wakeAll()
}
func (s *SimScreen) wakeAll() {
	q := s.wait
	s.wait = nil
	for _, t := range q {
		rt.S.Ready(t)
	}
}
func (s *SimScreen) Clear()                     { rt.Y(); s.cells.Fill(' ', s.style) }
func (s *SimScreen) Fill(r rune, st real.Style) { rt.Y(); s.cells.Fill(r, st) }
func (s *SimScreen) SetCell(x, y int, st real.Style, ch ...rune) {
	if len(ch) > 0 {
		s.cells.SetContent(x, y, ch[0], ch[1:], st)
	} else {
		s.cells.SetContent(x, y, ' ', nil, st)
	}
}
func (s *SimScreen) GetContent(x, y int) (rune, []rune, real.Style, int) {
	return s.cells.GetContent(x, y)
}
func (s *SimScreen) SetContent(x, y int, m rune, c []rune, st real.Style) {
	s.cells.SetContent(x, y, m, c, st)
}
func (s *SimScreen) SetStyle(st real.Style) { s.style = st }
func (s *SimScreen) ShowCursor(x, y int)    {}
func (s *SimScreen) HideCursor()            {}
func (s *SimScreen) Size() (int, int)       { return s.w, s.h }
func (s *SimScreen) PollEvent() real.Event {
	rt.Y()
	for {
		rt.CheckKill()
		if len(s.ev) > 0 {
			e := s.ev[0]
			s.ev = s.ev[1:]
			return e
		}
		if s.fini {
			return nil
		}
		s.wait = append(s.wait, rt.Cur())
		rt.Park("poll event")
	}
}
func (s *SimScreen) PostEvent(e real.Event) error {
	if len(s.ev) > 10 {
		return real.ErrEventQFull
	}
	s.ev = append(s.ev, e)
	s.wakeAll()
	return nil
}
func (s *SimScreen) PostEventWait(e real.Event)            { s.ev = append(s.ev, e); s.wakeAll() }
func (s *SimScreen) EnableMouse()                          {}
func (s *SimScreen) DisableMouse()                         {}
func (s *SimScreen) HasMouse() bool                        { return false }
func (s *SimScreen) Colors() int                           { return 256 }
func (s *SimScreen) CharacterSet() string                  { return "UTF-8" }
func (s *SimScreen) RegisterRuneFallback(r rune, f string) {}
func (s *SimScreen) UnregisterRuneFallback(r rune)         {}
func (s *SimScreen) CanDisplay(r rune, fb bool) bool       { return true }
func (s *SimScreen) Resize(int, int, int, int)             {}
func (s *SimScreen) HasKey(real.Key) bool                  { return true }
func (s *SimScreen) Sync()                                 { s.Show() }
func (s *SimScreen) Show() {
	rt.Y()
	if rt.Killed() || s.fini {
		return
	}
	lines := make([]string, s.h)
	for y := range lines {
		b := make([]rune, s.w)
		for x := 0; x < s.w; x++ {
			r, comb, _, wd := s.cells.GetContent(x, y)
			if r == 0 {
				r = ' '
			}
			if wd > s.w-x { // as the real screen does: a character too wide to fit
				r, comb, wd = ' ', nil, 1
			}
			b[x] = rt.Glyph(r, comb)
			for ; wd > 1; wd-- { // covered by the wide character
				x++
				b[x] = rt.Covered
			}
		}
		lines[y] = string(b)
	}
	s.Lines = lines
	s.ShowAt = rt.S.Now()
	s.Shows++
	if f, ok := s.n.Vals["onshow"].(func([]string)); ok {
		f(lines)
	}
}

// Width returns how many columns a character takes.
func Width(r rune) int {
	var c real.CellBuffer
	c.Resize(1, 1)
	c.SetContent(0, 0, r, nil, real.StyleDefault)
	_, _, _, wd := c.GetContent(0, 0)
	return wd
}

// Left reports whether the terminal is still in the state for drawing on it.
func (s *SimScreen) Left() bool { return s.inited && !s.fini }

// SetSize resizes the terminal (called by the harness).
func (s *SimScreen) SetSize(w, h int) {
	s.w, s.h = w, h
	s.cells.Resize(w, h)
	s.PostEvent(real.NewEventResize(w, h))
}

// Key presses a key (called by the harness).
func (s *SimScreen) Key(k real.Key) { s.PostEvent(real.NewEventKey(k, 0, 0)) }
