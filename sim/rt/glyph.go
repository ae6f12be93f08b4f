//go:build go1.21

package rt

import "hash/fnv"

// Covered stands for a cell behind a character which is two columns wide.
const Covered rune = 0xE000

// Glyph returns one character which stands for a character with combining marks.
func Glyph(r rune, comb []rune) rune {
	if len(comb) == 0 {
		return r
	}
	h := fnv.New32a()
	h.Write([]byte(string(append([]rune{r}, comb...))))
	return 0xF0000 + rune(h.Sum32()%0xFFF0)
}
