package cat

import (
	"encoding/binary"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// MoLayout describes the placement choices of an MO file.
type MoLayout struct {
	BigEndian bool   `json:"be"`
	Rev       uint32 `json:"rev"`
	// Order permutes the chunks (id table, str table, hash table, id strings, str strings).
	Order []int `json:"order"`
	Pad   []int `json:"pad"`
	Hash  int   `json:"hash"`
	Share bool  `json:"share"`
	Tails bool  `json:"tails,omitempty"` // strings are stored inside of longer ones
	Empty bool  `json:"empty"`           // keep untranslated entries
}

// GenMoLayout draws a layout.
func GenMoLayout(t *rapid.T) MoLayout {
	l := MoLayout{
		BigEndian: rapid.Bool().Draw(t, "be"),
		Rev:       rapid.SampledFrom([]uint32{0, 0, 0, 1, 0x10000, 0x10001}).Draw(t, "rev"),
		Order:     rapid.Permutation([]int{0, 1, 2, 3, 4}).Draw(t, "order"),
		Hash:      rapid.SampledFrom([]int{0, 0, 0, 3, 7, 7, 31, 31, 1009}).Draw(t, "hash"),
		Share:     rapid.Bool().Draw(t, "share"),
		Empty:     rapid.Bool().Draw(t, "keepempty"),
		Tails:     rapid.IntRange(0, 3).Draw(t, "tails") == 0,
	}
	for i := 0; i < 5; i++ {
		l.Pad = append(l.Pad, rapid.SampledFrom([]int{0, 0, 0, 1, 3, 4, 13, 100}).Draw(t, "pad"))
	}
	return l
}

type moMsg struct{ id, str string }

// MoMessages lists the raw (id, str) pairs of a catalogue.
func MoMessages(c *Cat, keepEmpty bool) []moMsg {
	var ms []moMsg
	if ht := c.HeaderText(); ht != "" {
		ms = append(ms, moMsg{"", ht})
	}
	for i := range c.Entries {
		e := &c.Entries[i]
		id := e.ID
		if e.Ctx != "" {
			id = e.Ctx + "\x04" + id
		}
		str := e.Str(0)
		any := str != ""
		if e.Plural != "" {
			id += "\x00" + e.Plural
			maxI := 0
			for _, f := range e.Forms {
				if f.I > maxI {
					maxI = f.I
				}
				any = any || f.S != ""
			}
			parts := make([]string, maxI+1)
			for _, f := range e.Forms {
				parts[f.I] = f.S
			}
			str = strings.Join(parts, "\x00")
		}
		if !any && !keepEmpty {
			continue
		}
		ms = append(ms, moMsg{id, str})
	}
	sort.SliceStable(ms, func(i, j int) bool { return ms[i].id < ms[j].id })
	return ms
}

// WriteMO renders a catalogue as an MO file.
func WriteMO(c *Cat, l MoLayout) []byte {
	ms := MoMessages(c, l.Empty)
	var bo binary.ByteOrder = binary.LittleEndian
	if l.BigEndian {
		bo = binary.BigEndian
	}
	n := len(ms)
	buf := make([]byte, 28)
	idTab := make([]uint32, 2*n)
	strTab := make([]uint32, 2*n)
	var idOff, strOff, hashOff int
	placed := map[string]int{}
	var long []string
	put := func(s string) (int, int) {
		if l.Share {
			if off, ok := placed[s]; ok {
				return len(s), off
			}
		}
		if l.Tails {
			for _, p := range long {
				if k := strings.Index(p+"\x00", s+"\x00"); k >= 0 {
					return len(s), placed[p] + k
				}
			}
		}
		off := len(buf)
		buf = append(buf, s...)
		buf = append(buf, 0)
		placed[s] = off
		long = append(long, s)
		return len(s), off
	}
	// all writes the strings and fills in their table. Long ones come first if others may be parts of them.
	all := func(tab []uint32, str func(m moMsg) string) {
		idx := make([]int, n)
		for i := range idx {
			idx[i] = i
		}
		if l.Tails {
			sort.SliceStable(idx, func(i, j int) bool { return len(str(ms[idx[i]])) > len(str(ms[idx[j]])) })
		}
		for _, i := range idx {
			ln, off := put(str(ms[i]))
			tab[2*i], tab[2*i+1] = uint32(ln), uint32(off)
		}
	}
	for k, chunk := range l.Order {
		for i := 0; i < l.Pad[k]; i++ {
			buf = append(buf, byte('p'))
		}
		switch chunk {
		case 0:
			idOff = len(buf)
			buf = append(buf, make([]byte, 8*n)...)
		case 1:
			strOff = len(buf)
			buf = append(buf, make([]byte, 8*n)...)
		case 2:
			hashOff = len(buf)
			buf = append(buf, make([]byte, 4*l.Hash)...)
		case 3:
			all(idTab, func(m moMsg) string { return m.id })
		case 4:
			all(strTab, func(m moMsg) string { return m.str })
		}
	}
	for i, v := range idTab {
		bo.PutUint32(buf[idOff+4*i:], v)
	}
	for i, v := range strTab {
		bo.PutUint32(buf[strOff+4*i:], v)
	}
	for i, v := range []uint32{0x950412de, l.Rev, uint32(n), uint32(idOff), uint32(strOff), uint32(l.Hash), uint32(hashOff)} {
		bo.PutUint32(buf[4*i:], v)
	}
	return buf
}
