package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"github.com/jeromelesaux/lha"

	"lhaverif/ref"
)

func cstr(b []byte) string {
	if i := bytes.IndexByte(b, 0); i >= 0 {
		b = b[:i]
	}
	return string(b)
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

func mustRead(path string) []byte {
	b, err := os.ReadFile(path)
	must(err)
	return b
}

// mode is what a case runs under besides its own options: how much is printed
// must not matter to anything but what is printed.
var mode struct{ verbose, listing bool }

// newLha is a handle in the mode of the case.
func newLha(name string) *lha.Lha {
	l := lha.NewLha(name)
	l.Verbose, l.VerboseListing = mode.verbose, mode.listing
	return l
}

func hdrNamed(name string) *lha.LzHeader {
	h := lha.NewLzHeader()
	h.Name = append([]byte(name), 0)
	return h
}

// diffBytes tells where two byte strings part.
func diffBytes(got, want []byte) string {
	if bytes.Equal(got, want) {
		return ""
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("%d bytes instead of %d, first difference at %d", len(got), len(want), i)
}

// member makes one member of an archive with the independent encoder.
type member struct {
	h     ref.Header
	data  []byte
	plain []byte
}

func (m *member) bytes() []byte {
	m.h.Packed = len(m.data)
	m.h.Size = len(m.plain)
	m.h.CRC = ref.CRC16(m.plain)
	return append(m.h.Build(), m.data...)
}

func archiveOf(ms ...*member) []byte {
	var b []byte
	for _, m := range ms {
		b = append(b, m.bytes()...)
	}
	return append(b, 0)
}

// simpleMember is a member with a plain header.
func simpleMember(level int, method, name string, data, plain []byte) *member {
	m := &member{h: ref.Header{Level: level, Method: method, Name: name, Attr: 0x20, OS: 'U', Stamp: 0x2f6b5a31}, data: data, plain: plain}
	m.h.HasMode, m.h.Mode = true, 0100644
	m.h.HasIDs = true
	m.h.UID, m.h.GID = nobody, nobody
	m.h.HasMTime, m.h.MTime = true, 1000000000
	switch level {
	case 2, 3:
		m.h.Stamp = 1000000000
		m.h.HasMTime = false
		m.h.HasHCRC = true
	}
	return m
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x.. (%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// sizeClass groups sizes for signatures.
func sizeClass(n int) string {
	switch {
	case n == 0:
		return "0"
	case n < 3:
		return "<3"
	}
	k := 0
	for m := n; m > 0; m >>= 1 {
		k++
	}
	return fmt.Sprintf("2^%d", k)
}

func lines(s string) []string { return strings.Split(strings.TrimRight(s, "\n"), "\n") }
