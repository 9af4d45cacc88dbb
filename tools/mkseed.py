import os,subprocess,json,sys,shutil
SEED='/verif/seeded'
B=[]
def b(id,prop,edits,needs,breaks,main): B.append((id,prop,edits,needs,breaks,main))
PRE='''package main

import (
%s
)

func fail(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\\n", a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		fail("%%v", err)
	}
}
'''
def M(imports,body):
    return PRE%'\n'.join('\t"%s"'%i for i in sorted(set(imports+['fmt','os'])))+body
LHA='github.com/jeromelesaux/lha'
# level 0/1/2 member builders for demos
RAW='''
func crc16(b []byte) int {
	c := 0
	for _, x := range b {
		c ^= int(x)
		for i := 0; i < 8; i++ {
			if c&1 != 0 {
				c = c>>1 ^ 0xa001
			} else {
				c >>= 1
			}
		}
	}
	return c
}

func le(n, v int) []byte {
	var o []byte
	for ; n > 0; n-- {
		o = append(o, byte(v))
		v >>= 8
	}
	return o
}

func sum(h []byte) []byte {
	h[0] = byte(len(h) - 2)
	s := 0
	for _, x := range h[2:] {
		s += int(x)
	}
	h[1] = byte(s)
	return h
}

func cat(p ...[]byte) []byte {
	var o []byte
	for _, x := range p {
		o = append(o, x...)
	}
	return o
}

// level0 makes a generic level 0 header; crc -1: without the field
func level0(name, method string, packed, size, crc int) []byte {
	h := cat([]byte{0, 0}, []byte(method), le(4, packed), le(4, size), le(4, 0x2a210000), []byte{0x20, 0, byte(len(name))}, []byte(name))
	if crc >= 0 {
		h = append(h, le(2, crc)...)
	}
	return sum(h)
}

func name0(h []byte) string {
	for i, c := range h {
		if c == 0 {
			return string(h[:i])
		}
	}
	return string(h)
}

func find(hs []*lha.LzHeader, name string) *lha.LzHeader {
	for _, h := range hs {
		if name0(h.Name) == name {
			return h
		}
	}
	fail("%s is not listed", name)
	return nil
}
'''
b('b01-token-buffer-full','C01',[('huf.go','(bufsiz-3)*uint16(charBit)','(bufsiz-1)*uint16(charBit)')],
 'more than 64 KB of tokens in one block with eight matches in a row when the token buffer is nearly full',
 'the last flag group of a block of matches overruns the token buffer: compressing such data crashes or loses data',
 M([LHA,'bytes','math/rand'],'''
func main() {
	lha.Quiet = true
	// matches of length 3 and 4 only: 64 KB of tokens
	for seed := int64(0); seed < 30; seed++ {
		r := rand.New(rand.NewSource(seed))
		var b []byte
		for i := 0; i < 4096; i++ {
			b = append(b, byte(r.Intn(256)))
		}
		for len(b) < 140000 {
			if r.Intn(3000) == 0 {
				b = append(b, byte(r.Intn(256)))
			}
			n := 3 + r.Intn(2)
			p := len(b) - 1 - r.Intn(4000)
			if p+n > len(b) {
				p = len(b) - n
			}
			b = append(b, b[p:p+n]...)
		}
		for _, m := range []int{lha.Lzhuff5MethodNum, lha.Lzhuff6MethodNum} {
			os.Remove("a.lzh")
			l := lha.NewLha("a.lzh")
			must(l.CompressBytes("f", b, m, 2))
			hs, err := lha.NewLha("a.lzh").Headers()
			must(err)
			d, err := lha.NewLha("a.lzh").DecompresBytes(hs[0])
			must(err)
			if !bytes.Equal(d, b) {
				fail("seed %d: other data", seed)
			}
		}
	}
}
'''))
b('b02-lh2-rebuild-early','C04',[('dhuf.go','if totalP == 0x8000 {','if totalP == 0x4000 {')],
 'an -lh2- member with more than 16384 matches, so that the tree of positions is rebuilt',
 'long -lh2- members of other packers do not decode any more',
 M([LHA,'hash/crc32'],'''
func main() {
	lha.Quiet = true
	hs, err := lha.NewLha("data.lzh").Headers()
	must(err)
	d, err := lha.NewLha("data.lzh").DecompresBytes(hs[0])
	must(err)
	if crc32.ChecksumIEEE(d) != 1455740552 {
		fail("other data")
	}
}
'''))
b('b03-level1-one-byte-area','C05',[('header.go','if dummy > 0 {\n\t\tskipBytes(dummy) /* skip old style','if dummy > 1 {\n\t\tskipBytes(dummy) /* skip old style')],
 'a level 1 header with exactly one byte between the OS id and the next-header size',
 'the size of the first extended header is read one byte early: such archives cannot be read',
 M([LHA],RAW+'''
func main() {
	lha.Quiet = true
	body := []byte("hello, world")
	for extra := 0; extra < 4; extra++ {
		ext := cat([]byte{1}, []byte("long-name"), le(2, 0))
		h := cat([]byte{0, 0}, []byte("-lh0-"), le(4, len(body)+len(ext)), le(4, len(body)), le(4, 0x2a210000), []byte{0x20, 1, 1}, []byte("x"), le(2, crc16(body)), []byte{'M'}, make([]byte, extra), le(2, len(ext)))
		must(os.WriteFile("a.lzh", cat(sum(h), ext, body, []byte{0}), 0644))
		hs, err := lha.NewLha("a.lzh").Headers()
		must(err)
		if len(hs) != 1 || name0(hs[0].Name) != "long-name" || hs[0].PackedSize != len(body) {
			fail("%d bytes: %v", extra, hs)
		}
	}
}
'''))
b('b04-level1-name-limit','C18',[('header.go','limit = 255 - iLevel1HeaderSize + 2\n\tif nameLength > limit {\n\t\tputByte(0)','limit = 255 - iLevel1HeaderSize + 3\n\tif nameLength > limit {\n\t\tputByte(0)')],
 'a file name of exactly 231 bytes in a level 1 header',
 'the size byte of the header wraps to 0, an end mark: the member and all after it are lost',
 M([LHA,'bytes','strings'],RAW+'''
func main() {
	lha.Quiet = true
	for n := 225; n < 236; n++ {
		name := strings.Repeat("n", n)
		os.Remove("a.lzh")
		must(lha.NewLha("a.lzh").CompressBytes(name, []byte("some data"), 0, 1))
		hs, err := lha.NewLha("a.lzh").Headers()
		must(err)
		d, err := lha.NewLha("a.lzh").DecompresBytes(find(hs, name))
		must(err)
		if !bytes.Equal(d, []byte("some data")) {
			fail("%d: %q", n, d)
		}
	}
}
'''))
b('b05-crc-low-byte','C06',[('lhext.go','if hdr.HasCrc && crc != hdr.Crc {\n\t\t\treturn 0, outputData','if hdr.HasCrc && byte(crc) != byte(hdr.Crc) {\n\t\t\treturn 0, outputData')],
 'damage that happens to leave the low byte of the CRC as it was (one in 256)',
 'damaged data is returned as good by DecompresBytes',
 M([LHA,'bytes'],RAW+'''
func main() {
	lha.Quiet = true
	body := []byte("0123456789abcdefghijklmnopqrstuvwxyz")
	n := 0
	for i := 0; i < 65536; i += 37 {
		bad := append([]byte{}, body...)
		bad[5] ^= byte(i)
		bad[20] ^= byte(i >> 8)
		if bytes.Equal(bad, body) {
			continue
		}
		must(os.WriteFile("a.lzh", cat(level0("f", "-lh0-", len(body), len(body), crc16(body)), bad, []byte{0}), 0644))
		l := lha.NewLha("a.lzh")
		h := lha.NewLzHeader()
		h.Name = []byte("f")
		if _, err := l.DecompresBytes(h); err == nil {
			fail("damage %04x is not seen", i)
		}
		n++
	}
}
'''))
b('b06-dot-dot-after-dot','C08',[('lhext.go',"""				if path[i] == '/' {
					state = 0
				} else {
					state = 3
				}""","""				state = 3""")],
 'a member name with a "." component before the ".."',
 'names such as ./../x escape from the directory of extraction',
 M([LHA],RAW+'''
func main() {
	lha.Quiet = true
	body := []byte("evil")
	must(os.MkdirAll("in/side", 0755))
	for _, name := range []string{"../x", "./../x", "d/./../../x", "a/../../x"} {
		must(os.WriteFile("a.lzh", cat(level0(name, "-lh0-", 4, 4, crc16(body)), body, []byte{0}), 0644))
		l := lha.NewLha("a.lzh")
		l.ExtractDirectory = "in/side"
		lha.MakeCrcTable()
		_ = lha.CommandExtract("a.lzh", l)
		for _, p := range []string{"x", "in/x"} {
			if _, err := os.Lstat(p); err == nil {
				fail("%q is written to %s", name, p)
			}
		}
	}
}
'''))
b('b07-one-directory-only','C02',[('lhext.go','	for l.dirinfo != nil && l.dirinfo.Hdr != nil {\n','	if l.dirinfo != nil && l.dirinfo.Hdr != nil {\n')],
 'two or more directories extracted in one run',
 'only one of the directories gets its time and permissions back',
 M([LHA,'time'],'''
func main() {
	lha.Quiet = true
	must(os.MkdirAll("src/d/one/two", 0755))
	must(os.WriteFile("src/d/one/two/f", []byte("x"), 0644))
	tm := time.Unix(1000000000, 0)
	dirs := []string{"d/one/two", "d/one", "d"}
	for _, d := range dirs {
		must(os.Chmod("src/"+d, 0750))
		must(os.Chtimes("src/"+d, tm, tm))
	}
	l := lha.NewLha("a.lzh")
	l.RecursiveArchiving = true
	must(l.Compress("src/d", 0, 2))
	l = lha.NewLha("a.lzh")
	l.ExtractDirectory = "out"
	must(os.Mkdir("out", 0755))
	must(lha.CommandExtract("a.lzh", l))
	for _, d := range dirs {
		st, err := os.Stat("out/" + d)
		must(err)
		if st.ModTime().Unix() != 1000000000 || st.Mode().Perm() != 0750 {
			fail("%s: %v %v", d, st.ModTime(), st.Mode())
		}
	}
}
'''))
b('b08-block-left-open','C12',[('huf.go','	initCodeCache()\n	blocksize = 0\n','	initCodeCache()\n')],
 'a member whose decoding stopped inside a block, then another member decoded in the same process',
 'after one damaged archive good ones do not decode any more',
 M([LHA,'bytes'],'''
func main() {
	lha.Quiet = true
	good := bytes.Repeat([]byte("a good member, "), 100)
	must(lha.NewLha("good.lzh").CompressBytes("f", good, lha.Lzhuff5MethodNum, 2))
	b, err := os.ReadFile("good.lzh")
	must(err)
	must(os.WriteFile("cut.lzh", b[:len(b)-12], 0644))
	hs, err := lha.NewLha("good.lzh").Headers()
	must(err)
	if _, err := lha.NewLha("cut.lzh").DecompresBytes(hs[0]); err == nil {
		fail("the cut archive is read")
	}
	d, err := lha.NewLha("good.lzh").DecompresBytes(hs[0])
	must(err)
	if !bytes.Equal(d, good) {
		fail("other data")
	}
}
'''))
b('b09-level0-long-extension','C09',[('header.go','	if extendSize > 0 {\n		skipBytes(extendSize)\n	}\n\n	l.HeaderSize += 2\n','	if extendSize > 12 {\n		extendSize = 12\n		l.HeaderSize--\n	}\n	if extendSize > 0 {\n		skipBytes(extendSize)\n	}\n\n	l.HeaderSize += 2\n')],
 'a level 0 header with more than 12 bytes after the UNIX fields, in an archive that is updated',
 'the member is copied one byte short: the updated archive is ruined',
 M([LHA,'bytes'],RAW+'''
func main() {
	lha.Quiet = true
	body := []byte("the old data")
	for extra := 0; extra < 20; extra++ {
		h := level0("f", "-lh0-", len(body), len(body), crc16(body))
		h = cat(h, []byte{'U', 0}, le(4, 1000000000), le(2, 0100644), le(2, 1), le(2, 2), bytes.Repeat([]byte{1}, extra))
		must(os.WriteFile("a.lzh", cat(sum(h), body, []byte{0}), 0644))
		must(lha.NewLha("a.lzh").CompressBytes("g", []byte("new"), 0, 0))
		hs, err := lha.NewLha("a.lzh").Headers()
		must(err)
		find(hs, "g")
		d, err := lha.NewLha("a.lzh").DecompresBytes(find(hs, "f"))
		must(err)
		if !bytes.Equal(d, body) {
			fail("%d more bytes: %q", extra, d)
		}
	}
}
'''))
b('b10-exclude-case-below','C19',[('lhext.go','b := strings.ToUpper(files[j].Name())','b := files[j].Name()')],
 'a file with lower case letters in its name below an archived directory, excluded by name',
 'excluded files are archived all the same',
 M([LHA],RAW+'''
func main() {
	lha.Quiet = true
	must(os.MkdirAll("src/d", 0755))
	must(os.WriteFile("src/d/secret.key", []byte("x"), 0644))
	must(os.WriteFile("src/d/ok", []byte("x"), 0644))
	l := lha.NewLha("a.lzh")
	l.RecursiveArchiving = true
	l.ExcludeFiles = []string{"secret.key"}
	must(l.Compress("src/d", 0, 2))
	hs, err := lha.NewLha("a.lzh").Headers()
	must(err)
	find(hs, "d/ok")
	for _, h := range hs {
		if name0(h.Name) == "d/secret.key" {
			fail("the excluded file is archived")
		}
	}
}
'''))
b('b11-exclude-list-split','C16',[('cmd/lharc.go','l.ExcludeFiles = strings.Split(*excludefiles, ",")','l.ExcludeFiles = strings.SplitN(*excludefiles, ",", 2)')],
 'three or more patterns given to -x',
 'the second and later patterns of -x are taken for one name and exclude nothing',
 M([LHA,'os/exec'],RAW+'''
func main() {
	for _, n := range []string{"a", "b", "c", "k"} {
		must(os.WriteFile(n, []byte("x"), 0644))
		out, err := exec.Command(os.Getenv("LHARC"), "-a", n, "-x", "a,b,c", "-archive", "x.lzh").CombinedOutput()
		if err != nil {
			fail("%v %s", err, out)
		}
	}
	lha.Quiet = true
	hs, err := lha.NewLha("x.lzh").Headers()
	must(err)
	find(hs, "k")
	for _, h := range hs {
		if n := name0(h.Name); n == "a" || n == "b" || n == "c" {
			fail("%s is excluded and archived", n)
		}
	}
}
'''))
b('b12-member-prefix','C17',[('lhext.go','		if l.CmdFilev[i] == name {\n','		if strings.HasPrefix(name, l.CmdFilev[i]) {\n')],
 'a selected name that is the beginning of the name of another member',
 'members that were not asked for are extracted too',
 M([LHA],'''
func main() {
	lha.Quiet = true
	l := lha.NewLha("a.lzh")
	for _, n := range []string{"file", "file2", "fil"} {
		must(l.CompressBytes(n, []byte(n), 0, 2))
	}
	must(os.Mkdir("out", 0755))
	l = lha.NewLha("a.lzh")
	l.ExtractDirectory = "out"
	l.CmdFilev = []string{"file"}
	l.CmdFilec = 1
	must(lha.CommandExtract("a.lzh", l))
	e, err := os.ReadDir("out")
	must(err)
	if len(e) != 1 || e[0].Name() != "file" {
		fail("%v", e)
	}
}
'''))
b('b13-com-program-overwritten','C20',[('util.go','extension == ".COM" || extension == ".EXE"','extension == ".EXE"')],
 'an update of a self-extracting .com program',
 'the program is replaced by the new archive instead of a new archive beside it',
 M([LHA,'bytes'],RAW+'''
func main() {
	lha.Quiet = true
	body := []byte("data")
	for _, n := range []string{"prog.com", "PROG.COM", "prog.exe"} {
		b := cat(bytes.Repeat([]byte("MZ stub."), 30), level0("f", "-lh0-", 4, 4, crc16(body)), body, []byte{0})
		must(os.WriteFile(n, b, 0644))
		must(lha.NewLha(n).CompressBytes("g", []byte("new"), 0, 0))
		now, err := os.ReadFile(n)
		must(err)
		if !bytes.Equal(now, b) {
			fail("%s is changed", n)
		}
	}
}
'''))
b('b14-nineteen-absent-bytes','C03',[('huf.go','				if count == 19 {\n					_ = l.putcode','				if count == 20 {\n					_ = l.putcode')],
 'a block in which exactly 19 consecutive byte values never occur',
 'the table of code lengths is written wrongly: the archive cannot be decoded',
 M([LHA,'bytes'],'''
func main() {
	lha.Quiet = true
	for gap := 15; gap < 25; gap++ {
		var b []byte
		for i := 0; i < 400; i++ {
			for v := 60; v < 64; v++ {
				b = append(b, byte(v), byte(64+gap), byte(64+gap+i%7))
			}
		}
		os.Remove("a.lzh")
		must(lha.NewLha("a.lzh").CompressBytes("f", b, lha.Lzhuff5MethodNum, 2))
		hs, err := lha.NewLha("a.lzh").Headers()
		must(err)
		d, err := lha.NewLha("a.lzh").DecompresBytes(hs[0])
		must(err)
		if !bytes.Equal(d, b) {
			fail("gap %d: other data", gap)
		}
	}
}
'''))
b('b15-short-reads','C15',[('crcio.go','n, err = io.ReadFull(fp, buf[:cap(buf)])','n, err = io.LimitReader(fp, int64(cap(buf))).Read(buf[:cap(buf)])')],
 'a stream that delivers its data in several pieces',
 'data after the first piece is missing in the archive, or ends too early',
 M([LHA,'bytes','io','strings','testing/iotest'],'''
func main() {
	lha.Quiet = true
	lha.MakeCrcTable()
	data := strings.Repeat("some text to pack. ", 5000)
	var ref []byte
	for i, rd := range []io.Reader{strings.NewReader(data), iotest.OneByteReader(strings.NewReader(data)), iotest.HalfReader(strings.NewReader(data))} {
		var out bytes.Buffer
		var w io.Writer = &out
		var o, p int
		l := lha.NewLha("x")
		l.CompressMethod = lha.Lzhuff5MethodNum
		_, err := l.EncodeLzhuf(&rd, &w, len(data), &o, &p, []byte("f"), []byte("-lh5-"))
		must(err)
		if i == 0 {
			ref = out.Bytes()
		} else if !bytes.Equal(ref, out.Bytes()) || o != len(data) {
			fail("reader %d: %d bytes packed, size %d", i, out.Len(), o)
		}
	}
}
'''))
b('b16-write-error-lost','C11',[('crcio.go','		return fmt.Errorf("file write error :%v", err.Error())\n','		fmt.Printf("file write error :%v\\n", err.Error())\n')],
 'a failing write (a full disk) while a compressed member is extracted',
 'the extraction reports success although the file is incomplete',
 M([LHA,'bytes','errors','io'],'''
type full struct{ n int }

func (f *full) Write(b []byte) (int, error) {
	f.n -= len(b)
	if f.n < 0 {
		return 0, errors.New("no space left")
	}
	return len(b), nil
}

func main() {
	lha.Quiet = true
	data := bytes.Repeat([]byte("some text to pack. "), 3000)
	must(lha.NewLha("a.lzh").CompressBytes("f", data, lha.Lzhuff5MethodNum, 2))
	null, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	must(err)
	saved := os.Stdout
	os.Stdout = null
	l := lha.NewLha("a.lzh")
	l.OutputToStdout = true
	err = lha.CommandExtract("a.lzh", l)
	os.Stdout = saved
	if err == nil {
		fail("printing to a full device succeeds")
	}
	_ = io.Discard
}
'''))
b('b17-quiet-overwrites','C14',[('lhext.go','		if !l.Force {\n			switch inquire','		if !l.Force && !Quiet {\n			switch inquire')],
 'an extraction in quiet mode over files that exist',
 'existing files are replaced without asking and without force',
 M([LHA],'''
func main() {
	must(lha.NewLha("a.lzh").CompressBytes("f", []byte("new"), 0, 2))
	for _, q := range []bool{false, true} {
		lha.Quiet = q
		must(os.WriteFile("f", []byte("mine"), 0644))
		null, err := os.Open(os.DevNull)
		must(err)
		os.Stdin = null
		l := lha.NewLha("a.lzh")
		must(lha.CommandExtract("a.lzh", l))
		b, err := os.ReadFile("f")
		must(err)
		if string(b) != "mine" {
			fail("quiet %v: the file is replaced: %s", q, b)
		}
	}
}
'''))
b('b18-short-header-panic','C07',[('header.go','''	remainSize = headerSize + 2 - commonHeaderSize
	if remainSize <= 0 {
		return fmt.Errorf("invalid header size (LHarc file ?)"), false
	}
	nb, err''','''	remainSize = headerSize + 2 - commonHeaderSize
	if headerSize <= 0 {
		return fmt.Errorf("invalid header size (LHarc file ?)"), false
	}
	nb, err''')],
 'a level 1 header that claims to be shorter than its fixed part',
 'reading such a file crashes the program',
 M([LHA],'''
func main() {
	lha.Quiet = true
	for n := 1; n < 40; n++ {
		b := make([]byte, 64)
		b[0] = byte(n)
		copy(b[2:], "-lh0-")
		b[20] = 1
		must(os.WriteFile("a.lzh", b, 0644))
		func() {
			defer func() {
				if e := recover(); e != nil {
					fail("header size %d: %v", n, e)
				}
			}()
			_, _ = lha.NewLha("a.lzh").Headers()
		}()
	}
}
'''))
b('b19-total-of-all','C21',[('lhext.go','			packedSizeTotal += hdr.PackedSize\n			originalSizeTotal += hdr.OriginalSize\n		}\n','			originalSizeTotal += hdr.OriginalSize\n		}\n		packedSizeTotal += hdr.PackedSize\n')],
 'a listing of some members only',
 'the total of the packed sizes and the ratio count members that are not listed',
 M([LHA,'io','strings'],'''
func main() {
	lha.Quiet = true
	l := lha.NewLha("a.lzh")
	must(l.CompressBytes("one", make([]byte, 100), 0, 2))
	must(l.CompressBytes("two", make([]byte, 1000), 0, 2))
	lha.Quiet = false
	r, w, err := os.Pipe()
	must(err)
	saved := os.Stdout
	os.Stdout = w
	l = lha.NewLha("a.lzh")
	l.CmdFilev, l.CmdFilec = []string{"one"}, 1
	l.VerboseListing = true
	err = lha.CommandList("a.lzh", l)
	os.Stdout = saved
	w.Close()
	must(err)
	b, _ := io.ReadAll(r)
	lines := strings.Split(strings.TrimSpace(string(b)), "\\n")
	last := strings.Fields(lines[len(lines)-1])
	if len(last) < 6 || last[3] != "100" && last[4] != "100" || strings.Contains(lines[len(lines)-1], "1100") {
		fail("%s", b)
	}
}
'''))

b('b20-remove-before-rename','C10',[('lhext.go','		if len(l.newArchiveName) >= 0 {\n','		if _ = os.Remove(l.newArchiveName); len(l.newArchiveName) >= 0 {\n')],
 'the process dies between the removal of the old archive and the renaming of the new one',
 'the archive is gone: its members are only in a temporary file of an unknown name',
 M([LHA,'os/exec'],'''
func main() {
	lha.Quiet = true
	if len(os.Args) > 1 {
		must(lha.NewLha("a.lzh").CompressBytes("two", []byte("second"), 5, 2))
		return
	}
	must(lha.NewLha("a.lzh").CompressBytes("one", []byte("first"), 5, 2))
	for _, c := range []string{"renameat", "rename", "renameat2"} {
		// killed at the call which puts the new archive in place
		_ = exec.Command("strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace="+c, "-e", "inject="+c+":signal=KILL", os.Args[0], "again").Run()
		hs, err := lha.NewLha("a.lzh").Headers()
		must(err)
		if len(hs) == 0 {
			fail("nothing is left")
		}
	}
}
'''))
b('b21-verify-touches-files','C13',[('lhext.go','	if !l.OutputToStdout && !VerifyMode {\n','	if !l.OutputToStdout {\n')],
 'an archive is listed or verified in a directory that holds files of the names of its members',
 'reading the headers of an archive changes the times and permissions of files with the names of members',
 M([LHA,'time'],'''
func main() {
	lha.Quiet = true
	must(os.WriteFile("f", []byte("first"), 0644))
	must(lha.NewLha("a.lzh").Compress("f", 5, 2))
	must(os.Chmod("f", 0600))
	tm := time.Unix(1000000000, 0)
	must(os.Chtimes("f", tm, tm))
	_, err := lha.NewLha("a.lzh").Headers()
	must(err)
	st, err := os.Stat("f")
	must(err)
	if !st.ModTime().Equal(tm) || st.Mode().Perm() != 0600 {
		fail("f is now %v %v", st.Mode(), st.ModTime())
	}
}
'''))
b('b22-verbose-left-set','C12',[('lhext.go','			Quiet = saveQuiet\n			l.Verbose = saveVerbose\n','			Quiet = saveQuiet\n			l.Verbose = l.Verbose || saveVerbose\n')],
 'the headers are read and then the archive is listed with the same handle',
 'the listing after a verification is printed in another form than the one that was asked for',
 M([LHA,'io'],'''
func list(l *lha.Lha) string {
	r, w, err := os.Pipe()
	must(err)
	saved := os.Stdout
	os.Stdout = w
	err = lha.CommandList("a.lzh", l)
	os.Stdout = saved
	w.Close()
	must(err)
	b, _ := io.ReadAll(r)
	return string(b)
}

func main() {
	lha.Quiet = true
	must(lha.NewLha("a.lzh").CompressBytes("one", []byte("first"), 5, 2))
	lha.Quiet = false
	l := lha.NewLha("a.lzh")
	before := list(l)
	null, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	must(err)
	os.Stdout, null = null, os.Stdout
	_, err = l.Headers()
	os.Stdout = null
	must(err)
	if after := list(l); after != before {
		fail("%s %s", before, after)
	}
}
'''))
b('b23-zero-crc-is-none','C06',[('lhext.go',"""		if hdr.HasCrc && crc != hdr.Crc {
			return 0, outputData.Bytes(), fmt.Errorf(""","""		if hdr.HasCrc && hdr.Crc != 0 && crc != hdr.Crc {
			return 0, outputData.Bytes(), fmt.Errorf(""")],
 'a member whose checksum is zero, a file of zero bytes for one, with damaged data, read into memory',
 'the damage is not noticed',
 M([LHA],"""
func main() {
	lha.Quiet = true
	l := lha.NewLha("a.lzh")
	must(l.CompressBytes("zeros", make([]byte, 100), 0, 2))
	hs, err := l.Headers()
	must(err)
	b, err := os.ReadFile("a.lzh")
	must(err)
	b[hs[0].HeaderSize+50] = 1
	must(os.WriteFile("a.lzh", b, 0644))
	if d, err := lha.NewLha("a.lzh").DecompresBytes(hs[0]); err == nil {
		fail("%d damaged bytes without an error", len(d))
	}
}
"""))
b('b24-level2-no-padding','C18',[('header.go','		putByte(0) /* padding */\n		headerSize++\n','		putByte(0) /* padding */\n')],
 'a level 2 header of exactly 256 or 512 bytes',
 'the header starts with a zero byte, an end mark: the member and all after it are lost',
 M([LHA,'bytes','io','strings'],'''
func main() {
	for n := 100; n < 300; n++ {
		h := lha.NewLzHeader()
		h.HeaderLevel = 2
		copy(h.Method, "-lh0-")
		h.Name = append([]byte(strings.Repeat("n", n)), 0)
		h.UnixMode = 0100644
		h.UnixLastModifiedStamp = 1000000000
		var buf bytes.Buffer
		var w io.Writer = &buf
		must(lha.WriteHeader(&w, h))
		var r io.Reader = &buf
		g := lha.NewLzHeader()
		err, ok := g.GetHeader(&r)
		if err != nil || !ok {
			fail("name of %d bytes: %v %v", n, err, ok)
		}
	}
}
'''))
b('b25-stamp-signed','C05',[('header.go',"""			/* UNIX last modified time */
			l.UnixLastModifiedStamp = int64(getLongword())
""","""			/* UNIX last modified time */
			l.UnixLastModifiedStamp = int64(int32(getLongword()))
""")],
 'a level 1 header whose extension for the UNIX time holds a time after January 2038',
 'the time is that of 136 years before',
 M([LHA,'time'],RAW+"""
func main() {
	lha.Quiet = true
	tm := time.Date(2050, 1, 1, 0, 0, 0, 0, time.UTC).Unix()
	ext := cat([]byte{0x54}, le(4, int(tm)), le(2, 0))
	h := cat([]byte{0, 0}, []byte("-lh0-"), le(4, 1+len(ext)), le(4, 1), le(4, 0x2a210000), []byte{0x20, 1, 1}, []byte("f"), le(2, crc16([]byte("x"))), []byte("U"), le(2, len(ext)))
	must(os.WriteFile("a.lzh", cat(sum(h), ext, []byte("x"), []byte{0}), 0644))
	hs, err := lha.NewLha("a.lzh").Headers()
	must(err)
	if hs[0].UnixLastModifiedStamp != tm {
		fail("%v", time.Unix(hs[0].UnixLastModifiedStamp, 0))
	}
}
"""))
b('b26-quiet-names-empty','C22',[('indicator.go',"""	if Quiet {
		return
	}

	fmt.Printf("%s\\t- ", name)
""","""	if Quiet && size != 0 {
		return
	}

	fmt.Printf("%s\\t- ", name)
""")],
 'an empty file extracted or added quietly',
 'Quiet prints its name',
 M([LHA,'io'],"""
func main() {
	lha.Quiet = true
	must(os.WriteFile("empty", nil, 0644))
	out := os.Stdout
	r, w, err := os.Pipe()
	must(err)
	os.Stdout = w
	err = lha.NewLha("a.lzh").Compress("empty", 5, 2)
	os.Stdout = out
	must(err)
	must(w.Close())
	b, err := io.ReadAll(r)
	must(err)
	if len(b) > 0 {
		fail("prints %q", b)
	}
}
"""))
b('b27-lz5-descending','C04',[('larc.go',"""		dtext[256*13+256+18+i] = byte(255 - i)
""","""		dtext[256*13+256+18+i] = byte(0x100 - i)
""")],
 'an -lz5- member that refers to the descending part of the initial window',
 'it decodes to other bytes',
 M([LHA],RAW+"""
func main() {
	lha.Quiet = true
	want := []byte{0xff, 0xfe, 0xfd}
	data := []byte{0, 0x00, 0xe0}
	h := level0("f", "-lz5-", len(data), len(want), crc16(want))
	must(os.WriteFile("a.lzh", cat(h, data, []byte{0}), 0644))
	hs, err := lha.NewLha("a.lzh").Headers()
	must(err)
	b, err := lha.NewLha("a.lzh").DecompresBytes(hs[0])
	must(err)
	if string(b) != string(want) {
		fail("%x", b)
	}
}
"""))
b('b28-code-of-seventeen','C07',[('maketbl.go',"""		if (*bitlen)[i] > 16 {
""","""		if (*bitlen)[i] > 17 {
""")],
 'a member whose code table holds a length of 17',
 'decoding panics instead of reporting an error',
 M([LHA],RAW+"""
func main() {
	lha.Quiet = true
	// block of 1, table of 1 entry: 111 1111111111 0
	bits := "0000000000000001" + "00001" + "111" + "1111111111" + "0" + "000000000000000000000000000000000000000000000000"
	var data []byte
	for i := 0; i+8 <= len(bits); i += 8 {
		v := 0
		for _, c := range bits[i : i+8] {
			v = v*2 + int(c-'0')
		}
		data = append(data, byte(v))
	}
	h := level0("f", "-lh5-", len(data), 100, 0)
	must(os.WriteFile("a.lzh", cat(h, data, []byte{0}), 0644))
	if _, err := lha.NewLha("a.lzh").Headers(); err == nil {
		fail("no error")
	}
}
"""))
only=sys.argv[1:]
for id,prop,edits,needs,breaks,main in B:
    if only and not any(id.startswith(o) for o in only): continue
    d=f'{SEED}/{id}'
    os.makedirs(d,exist_ok=True)
    wt='/tmp/seedrepo'
    shutil.rmtree(wt,ignore_errors=True)
    subprocess.run(['cp','-a','/repo',wt],check=True)
    for f,o,n in edits:
        p=f'{wt}/{f}'; s=open(p).read()
        assert s.count(o)>=1,(id,f,o)
        if s.count(o)>1: print(id,'NOTE multiple',s.count(o))
        open(p,'w').write(s.replace(o,n,1))
    diff=subprocess.run(['git','-C',wt,'diff'],capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(diff)
    shutil.copy('/tmp/seed/demo.sh',d+'/demo.sh'); os.chmod(d+'/demo.sh',0o755)
    if main: open(d+'/main.go','w').write(main)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    r0=subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',capture_output=True,text=True)
    t=subprocess.run('cd %s && . /opt/vp/env.sh && go build ./... && go test ./... 2>&1 | grep -E "^(---|\\s*---) (FAIL|PASS)" ; go vet . 2>&1|head -3; go test -list . . | grep -c Test; git checkout -q -- . ; git apply %s/patch.diff; go test -v . 2>&1 | grep -E "^--- (PASS|FAIL)"'%(wt,d),shell=True,capture_output=True,text=True,executable='/bin/bash')
    fails=[l for l in t.stdout.split('\n') if l.startswith('--- FAIL') and 'TestCompressBytes' not in l]
    r1=subprocess.run(['bash',d+'/demo.sh'],cwd=wt,capture_output=True,text=True)
    print(id,prop,'clean',r0.returncode,'patched',r1.returncode,'testfails',fails, '' if r0.returncode==0 else r0.stderr[-300:], r1.stderr[-150:].replace('\n',' '))
    shutil.rmtree(wt,ignore_errors=True)
