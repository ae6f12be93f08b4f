package main

import (
	"strings"
	"unicode/utf16"
	"unicode/utf8"
)

// Tags are strings in scenarios, where runes from rawByte on stand for single bytes.
const rawByte = 0xf700

func tagBytes(s string) []byte {
	var b []byte
	for _, r := range s {
		if r >= rawByte && r <= rawByte+0xff {
			b = append(b, byte(r-rawByte))
		} else {
			b = append(b, string(r)...)
		}
	}
	return b
}

// latin tells whether s can be written in ISO 8859-1.
func latin(s string) ([]byte, bool) {
	var b []byte
	for _, r := range s {
		if r > 0xff {
			return nil, false
		}
		b = append(b, byte(r))
	}
	return b, true
}

// id3 are the tags at the beginning of the file.
func (sp *SongSpec) id3() []byte {
	if sp.Form == "v1" {
		return nil
	}
	var fr []byte
	frame := func(id string, d []byte) {
		n := len(d)
		fr = append(fr, id...)
		if sp.Form == "v23" {
			fr = append(fr, byte(n>>24), byte(n>>16), byte(n>>8), byte(n), 0, 0)
		} else {
			fr = append(fr, byte(n>>21&127), byte(n>>14&127), byte(n>>7&127), byte(n&127), 0, 0)
		}
		fr = append(fr, d...)
	}
	add := func(id, v string) {
		if v == "" {
			return
		}
		d := append([]byte{3}, tagBytes(v)...)
		if sp.Form == "latin" || sp.Form == "v23" {
			if b, ok := latin(v); ok {
				d = append([]byte{0}, b...)
			}
		}
		if sp.Form == "utf16" || sp.Form == "v23" && d[0] == 3 {
			d = []byte{1, 0xff, 0xfe}
			for _, c := range utf16.Encode([]rune(v)) {
				d = append(d, byte(c), byte(c>>8))
			}
		}
		frame(id, d)
	}
	add("TIT2", sp.Title)
	switch sp.Form {
	case "comm": // comments have a language of three letters
		frame("COMM", []byte{3, 'e'})
	case "apic": // pictures have a type that ends with a zero
		frame("APIC", []byte{0, 'p', 'n', 'g'})
	}
	add("TPE1", sp.Artist)
	add("TALB", sp.Album)
	if len(fr) == 0 {
		add("TCON", "x")
	}
	n := len(fr)
	v := byte(4)
	if sp.Form == "v23" {
		v = 3
	}
	h := []byte{'I', 'D', '3', v, 0, 0, byte(n >> 21 & 127), byte(n >> 14 & 127), byte(n >> 7 & 127), byte(n & 127)}
	return append(h, fr...)
}

// id3v1 are the tags at the end of the file.
func (sp *SongSpec) id3v1() []byte {
	if sp.Form != "v1" {
		return nil
	}
	b := make([]byte, 128)
	copy(b, "TAG")
	copy(b[3:33], tagBytes(sp.Title))
	copy(b[33:63], tagBytes(sp.Artist))
	copy(b[63:93], tagBytes(sp.Album))
	b[127] = 12
	return b
}

// tagOK tells whether a tag can be announced as got.
func (sp *SongSpec) tagOK(tag, got string) bool {
	if got == tag {
		return true
	}
	switch sp.Form {
	case "comm", "apic":
		return got == "" // unintelligible tags say nothing
	case "latin", "v23", "utf16":
		return false
	}
	b := tagBytes(tag)
	if sp.Form == "v1" {
		if len(b) > 30 {
			b = b[:30]
		}
		b = []byte(strings.TrimSpace(strings.Trim(string(b), "\x00")))
	}
	s := string(b)
	if utf8.ValidString(s) {
		return got == s
	}
	l := make([]rune, len(b))
	for i, c := range b {
		l[i] = rune(c)
	}
	// what is not UTF-8 can be left out, replaced or taken for ISO 8859-1
	return got == "" || got == strings.ToValidUTF8(s, "") || got == strings.ToValidUTF8(s, "\uFFFD") || got == string([]rune(s)) || got == string(l)
}

func (sp *SongSpec) tagsOK(got [3]string) bool {
	return sp.tagOK(sp.Title, got[0]) && sp.tagOK(sp.Artist, got[1]) && sp.tagOK(sp.Album, got[2])
}

// invalid replaces runes of s so that its bytes are no UTF-8.
func (g *G) invalid(s string) string {
	rs := []rune(s)
	for k := g.Range(1, 3); k > 0; k-- {
		i := g.N(len(rs) + 1)
		rs = append(rs[:i], append([]rune{rune(rawByte + g.Range(0x80, 0xff))}, rs[i:]...)...)
	}
	return string(rs)
}

// forms chooses how the tags are written.
func (g *G) forms(sp *SongSpec) {
	sp.Form = ""
	switch {
	case g.P(0.35):
		sp.Form = g.pickS("latin", "utf16", "v23", "v1", "v1")
	case g.P(0.12):
		sp.Form = g.pickS("comm", "apic")
	}
	if (sp.Form == "" || sp.Form == "v1") && g.P(0.2) {
		for _, p := range []*string{&sp.Title, &sp.Artist, &sp.Album} {
			if *p != "" && g.P(0.6) {
				*p = g.invalid(*p)
			}
		}
	}
}
