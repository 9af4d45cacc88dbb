package ref

import (
	"encoding/binary"
	"errors"
	"fmt"
	"time"
)

// Header is what a member header says.
type Header struct {
	Level    int
	Method   string
	Packed   int // size of the data
	Size     int
	Stamp    uint32 // the raw time field: DOS on levels 0 and 1, UNIX on 2 and 3
	Attr     byte
	Name     string // '/' separated, directory part included
	CRC      uint16
	NoCRC    bool // level 0 without a CRC field
	OS       byte
	NoOS     bool // level 0 without the OS byte
	HasMode  bool
	Mode     uint16
	HasIDs   bool
	UID, GID uint16
	User     string
	Group    string
	HasMTime bool
	MTime    uint32 // of the UNIX extensions
	HasWin   bool
	WinMTime uint64 // FILETIME
	HasAttr  bool
	DosAttr  uint16
	HasHCRC  bool

	// when building
	Minor     byte
	PlainName bool  // levels 2 and 3: no directory extension, whole name in 0x01
	NameExt   bool  // level 1: name in extension 0x01
	Unknown   []Ext // unknown extensions to add
	Slack     int   // level 0/1: bytes of slack in the basic header
	Order     []int // a permutation of the extensions (indices are taken modulo)
	Pad       bool  // level 2: a padding byte though it is not needed

	Len int // size of the header, when read
}

// Ext is an extension of levels 1 to 3.
type Ext struct {
	Type byte
	Data []byte
}

// DosTime packs a time in DOS format, in its own location.
func DosTime(t time.Time) uint32 {
	return uint32(t.Year()-1980)<<25 | uint32(t.Month())<<21 | uint32(t.Day())<<16 |
		uint32(t.Hour())<<11 | uint32(t.Minute())<<5 | uint32(t.Second()/2)
}

// FromDos is the time of a DOS stamp in loc.
func FromDos(v uint32, loc *time.Location) time.Time {
	return time.Date(int(v>>25)+1980, time.Month(v>>21&15), int(v>>16&31), int(v>>11&31), int(v>>5&63), int(v&31)*2, 0, loc)
}

// WinTime is a FILETIME of UNIX seconds.
func WinTime(sec int64, sub uint32) uint64 {
	return uint64(sec+11644473600)*10000000 + uint64(sub)
}

func splitName(name string) (dir, base string) {
	for i := len(name) - 1; i >= 0; i-- {
		if name[i] == '/' {
			return name[:i+1], name[i+1:]
		}
	}
	return "", name
}

func seps(s string, c byte) []byte {
	b := []byte(s)
	for i := range b {
		if b[i] == '/' {
			b[i] = c
		}
	}
	return b
}

func (h *Header) exts() []Ext {
	var e []Ext
	dir, base := splitName(h.Name)
	le := binary.LittleEndian
	if h.HasHCRC {
		e = append(e, Ext{0, []byte{0, 0}})
	}
	if h.Level >= 2 || h.NameExt {
		if h.PlainName {
			e = append(e, Ext{1, seps(h.Name, 0xff)})
		} else {
			e = append(e, Ext{1, []byte(base)})
		}
	}
	if dir != "" && !h.PlainName {
		e = append(e, Ext{2, seps(dir, 0xff)})
	}
	if h.HasAttr {
		e = append(e, Ext{0x40, le.AppendUint16(nil, h.DosAttr)})
	}
	if h.HasWin {
		d := le.AppendUint64(nil, h.WinMTime-12345678)
		d = le.AppendUint64(d, h.WinMTime)
		d = le.AppendUint64(d, h.WinMTime+987654321)
		e = append(e, Ext{0x41, d})
	}
	if h.HasMode {
		e = append(e, Ext{0x50, le.AppendUint16(nil, h.Mode)})
	}
	if h.HasIDs {
		e = append(e, Ext{0x51, le.AppendUint16(le.AppendUint16(nil, h.GID), h.UID)})
	}
	if h.Group != "" {
		e = append(e, Ext{0x52, []byte(h.Group)})
	}
	if h.User != "" {
		e = append(e, Ext{0x53, []byte(h.User)})
	}
	if h.HasMTime {
		e = append(e, Ext{0x54, le.AppendUint32(nil, h.MTime)})
	}
	e = append(e, h.Unknown...)
	if len(h.Order) > 0 {
		for i := len(e) - 1; i > 0; i-- {
			j := h.Order[i%len(h.Order)] % (i + 1)
			e[i], e[j] = e[j], e[i]
		}
	}
	return e
}

// Build makes the bytes of the header.
func (h *Header) Build() []byte {
	le := binary.LittleEndian
	b := []byte{0, 0}
	b = append(b, h.Method...)
	if len(b) != 7 {
		panic("ref: method " + h.Method)
	}
	b = le.AppendUint32(b, uint32(h.Packed))
	b = le.AppendUint32(b, uint32(h.Size))
	b = le.AppendUint32(b, h.Stamp)
	b = append(b, h.Attr, byte(h.Level))
	sum := func() {
		if len(b)-2 > 255 {
			panic("ref: level 0/1 header too long")
		}
		b[0] = byte(len(b) - 2)
		var s byte
		for _, c := range b[2:] {
			s += c
		}
		b[1] = s
	}
	switch h.Level {
	case 0:
		n := seps(h.Name, '\\')
		b = append(b, byte(len(n)))
		b = append(b, n...)
		if !h.NoCRC {
			b = le.AppendUint16(b, h.CRC)
			if !h.NoOS {
				b = append(b, h.OS)
				if h.OS == 'U' {
					b = append(b, h.Minor)
					b = le.AppendUint32(b, h.MTime)
					b = le.AppendUint16(b, h.Mode)
					b = le.AppendUint16(b, h.UID)
					b = le.AppendUint16(b, h.GID)
				}
				b = append(b, slackBytes(h.Slack)...)
			}
		}
		sum()
		return b
	case 1:
		_, base := splitName(h.Name)
		if h.NameExt {
			b = append(b, 0)
		} else {
			b = append(b, byte(len(base)))
			b = append(b, base...)
		}
		b = le.AppendUint16(b, h.CRC)
		b = append(b, h.OS)
		b = append(b, slackBytes(h.Slack)...)
		var x []byte
		e := h.exts()
		for _, y := range e {
			x = le.AppendUint16(x, uint16(len(y.Data)+3))
			x = append(x, y.Type)
			x = append(x, y.Data...)
		}
		x = append(x, 0, 0)
		b = append(b, x[:2]...)
		le.PutUint32(b[7:], uint32(h.Packed+len(x)-2))
		sum()
		return append(b, x[2:]...)
	case 2, 3:
		b = le.AppendUint16(b, h.CRC)
		b = append(b, h.OS)
		sz := 2
		if h.Level == 3 {
			sz = 4
			b = append(b, 0, 0, 0, 0)
		}
		put := func(n int) {
			if sz == 4 {
				b = le.AppendUint32(b, uint32(n))
			} else {
				b = le.AppendUint16(b, uint16(n))
			}
		}
		at := -1
		for _, y := range h.exts() {
			put(len(y.Data) + 1 + sz)
			b = append(b, y.Type)
			if y.Type == 0 {
				at = len(b)
			}
			b = append(b, y.Data...)
		}
		put(0)
		if h.Level == 2 {
			if h.Pad || len(b)&0xff == 0 {
				b = append(b, 0)
			}
			if len(b)&0xff == 0 {
				panic("ref: level 2 header size ends in 00")
			}
			le.PutUint16(b, uint16(len(b)))
		} else {
			le.PutUint16(b, 4)
			le.PutUint32(b[24:], uint32(len(b)))
		}
		if at >= 0 {
			le.PutUint16(b[at:], CRC16(b))
		}
		return b
	}
	panic("ref: level")
}

// ErrEnd is the end of the archive.
var ErrEnd = errors.New("end of archive")

// ParseHeader reads a header strictly.
func ParseHeader(b []byte) (h *Header, err error) {
	le := binary.LittleEndian
	if len(b) == 0 || b[0] == 0 {
		return nil, ErrEnd
	}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("header is cut short")
		}
	}()
	h = &Header{Method: string(b[2:7]), Packed: int(le.Uint32(b[7:])), Size: int(le.Uint32(b[11:])),
		Stamp: le.Uint32(b[15:]), Attr: b[19], Level: int(b[20])}
	checkSum := func() error {
		var s byte
		n := int(b[0]) + 2
		for _, c := range b[2:n] {
			s += c
		}
		if s != b[1] {
			return fmt.Errorf("checksum %02x, header says %02x", s, b[1])
		}
		h.Len = n
		return nil
	}
	var dir, name string
	names, dirs, hcrcAt := 0, 0, -1
	ext := func(pos, size, sz int) (int, error) {
		for size != 0 {
			if size < 1+sz {
				return 0, fmt.Errorf("extension of size %d", size)
			}
			e := b[pos : pos+size]
			d := e[1 : size-sz]
			switch e[0] {
			case 0:
				if len(d) < 2 {
					return 0, fmt.Errorf("short header CRC")
				}
				hcrcAt = pos + 1
				h.HasHCRC = true
			case 1:
				name = string(d)
				names++
			case 2:
				dir = string(d)
				dirs++
			case 0x40:
				h.HasAttr, h.DosAttr = true, le.Uint16(d)
			case 0x41:
				h.HasWin, h.WinMTime = true, le.Uint64(d[8:])
			case 0x50:
				h.HasMode, h.Mode = true, le.Uint16(d)
			case 0x51:
				h.HasIDs, h.GID, h.UID = true, le.Uint16(d), le.Uint16(d[2:])
			case 0x52:
				h.Group = string(d)
			case 0x53:
				h.User = string(d)
			case 0x54:
				h.HasMTime, h.MTime = true, le.Uint32(d)
			default:
				h.Unknown = append(h.Unknown, Ext{e[0], d})
			}
			pos += size
			if sz == 4 {
				size = int(le.Uint32(e[size-4:]))
			} else {
				size = int(le.Uint16(e[size-2:]))
			}
		}
		return pos, nil
	}
	switch h.Level {
	case 0:
		if err = checkSum(); err != nil {
			return nil, err
		}
		n := int(b[21])
		name = string(b[22 : 22+n])
		rest := b[22+n : h.Len]
		if len(rest) == 0 {
			h.NoCRC, h.NoOS = true, true
		} else {
			h.CRC = le.Uint16(rest)
			rest = rest[2:]
			if len(rest) == 0 {
				h.NoOS = true
			} else {
				h.OS = rest[0]
				if h.OS == 'U' {
					if h.Slack = len(rest) - 12; h.Slack < 0 {
						return nil, fmt.Errorf("UNIX extension of %d bytes", len(rest))
					}
					h.Minor, h.MTime, h.Mode, h.UID, h.GID = rest[1], le.Uint32(rest[2:]), le.Uint16(rest[6:]), le.Uint16(rest[8:]), le.Uint16(rest[10:])
					h.HasMTime, h.HasMode, h.HasIDs = true, true, true
				}
			}
		}
	case 1:
		if err = checkSum(); err != nil {
			return nil, err
		}
		n := int(b[21])
		base := string(b[22 : 22+n])
		h.CRC = le.Uint16(b[22+n:])
		h.OS = b[24+n]
		first := h.Len
		end, err := ext(first, int(le.Uint16(b[first-2:])), 2)
		if err != nil {
			return nil, err
		}
		if names == 0 {
			name = base
		} else if base != "" {
			return nil, fmt.Errorf("the name is given twice")
		}
		h.Packed -= end - first
		h.Len = end
	case 2:
		h.CRC = le.Uint16(b[21:])
		h.OS = b[23]
		h.Len = int(le.Uint16(b))
		end, err := ext(26, int(le.Uint16(b[24:])), 2)
		if err != nil {
			return nil, err
		}
		if h.Len != end && h.Len != end+1 {
			return nil, fmt.Errorf("header of %d bytes says %d", end, h.Len)
		}
	case 3:
		if le.Uint16(b) != 4 {
			return nil, fmt.Errorf("size fields of %d bytes", le.Uint16(b))
		}
		h.CRC = le.Uint16(b[21:])
		h.OS = b[23]
		h.Len = int(le.Uint32(b[24:]))
		end, err := ext(32, int(le.Uint32(b[28:])), 4)
		if err != nil {
			return nil, err
		}
		if h.Len != end {
			return nil, fmt.Errorf("header of %d bytes says %d", end, h.Len)
		}
	default:
		return nil, fmt.Errorf("level %d", h.Level)
	}
	if names > 1 || dirs > 1 {
		return nil, fmt.Errorf("the name is given twice")
	}
	if h.Level >= 2 && names == 0 {
		return nil, fmt.Errorf("no name extension")
	}
	if hcrcAt >= 0 {
		c := append([]byte(nil), b[:h.Len]...)
		c[hcrcAt], c[hcrcAt+1] = 0, 0
		if got := CRC16(c); got != le.Uint16(b[hcrcAt:]) {
			return nil, fmt.Errorf("header CRC %04x, header says %04x", got, le.Uint16(b[hcrcAt:]))
		}
	}
	if h.Packed < 0 || h.Len > len(b) {
		return nil, fmt.Errorf("header is cut short")
	}
	whole := []byte(dir + name)
	for i, c := range whole {
		if c == 0xff || h.Level == 0 && c == '\\' {
			whole[i] = '/'
		}
	}
	h.Name = string(whole)
	return h, nil
}

// Member is one member of an archive.
type Member struct {
	Header
	Off  int
	Raw  []byte // header and data
	Data []byte // packed
}

// ParseArchive walks a whole archive: it must end with an end mark and
// nothing after it.
func ParseArchive(b []byte) ([]*Member, error) {
	var ms []*Member
	pos := 0
	for {
		if pos >= len(b) {
			return ms, fmt.Errorf("no end mark at %d", pos)
		}
		h, err := ParseHeader(b[pos:])
		if err == ErrEnd {
			if pos != len(b)-1 {
				return ms, fmt.Errorf("%d bytes follow the end mark", len(b)-1-pos)
			}
			return ms, nil
		}
		if err != nil {
			return ms, fmt.Errorf("member %d at %d: %v", len(ms), pos, err)
		}
		end := pos + h.Len + h.Packed
		if end > len(b) {
			return ms, fmt.Errorf("member %q at %d: data ends at %d of %d", h.Name, pos, end, len(b))
		}
		ms = append(ms, &Member{Header: *h, Off: pos, Raw: b[pos:end], Data: b[pos+h.Len : end]})
		pos = end
	}
}

// Unpack decodes the data of the methods the repository writes.
func (m *Member) Unpack() ([]byte, error) {
	var out []byte
	used, ok := 0, false
	switch m.Method {
	case "-lhd-":
		if m.Size != 0 || m.Packed != 0 {
			return nil, fmt.Errorf("directory with data")
		}
		return nil, nil
	case "-lh0-":
		out, used, ok = m.Data, len(m.Data), len(m.Data) == m.Size
	case "-lh1-":
		out, used, ok = DecodeLh1(m.Data, m.Size)
	case "-lh4-", "-lh5-", "-lh6-", "-lh7-":
		out, used, ok = DecodeStatic(m.Data, m.Size, Static[m.Method[3]])
	default:
		return nil, fmt.Errorf("method %q", m.Method)
	}
	if !ok {
		return out, fmt.Errorf("%s data of %q is not well formed", m.Method, m.Name)
	}
	// some packers flush one byte more than the code needs
	if d := len(m.Data) - used; d < 0 || d > 2 {
		return out, fmt.Errorf("%s data of %q takes %d bytes of %d", m.Method, m.Name, used, len(m.Data))
	}
	if !m.NoCRC && CRC16(out) != m.CRC {
		return out, fmt.Errorf("CRC of %q is %04x, header says %04x", m.Name, CRC16(out), m.CRC)
	}
	return out, nil
}

// slackBytes are bytes a reader has to pass over.
func slackBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*37 + n)
	}
	return b
}
