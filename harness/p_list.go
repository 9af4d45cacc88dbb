package main

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/jeromelesaux/lha"

	"lhaverif/ref"
)

func init() {
	register(&Prop{ID: "C21", Level: "exploration", Quick: 2400, Thorough: 40000, Run: runC21,
		Rule: "A case is an archive of 0 to 30 members of all levels, systems and methods (sizes up to 4 GB declared), listed in the four forms, quiet and not, whole and with selections, by the library or the command; every entry, their order and the totals are compared with what was put in the headers; then one header is damaged or the archive cut or removed and the listing must fail. Distinct: form, level, system, kind, owner by name, checksum present.",
		Min:  map[string]int{"listings": 20000, "entries_compared": 60000, "stamps_compared": 50000, "totals_compared": 10000, "selections": 4000, "links": 3000, "directories": 3000, "no_checksum": 500, "owner_names": 2000, "failures_reported": 3000, "command_runs": 100, "big_sizes": 5000}})
}

func runC21(c *Ctx) {
	for i := 0; i < 6; i++ {
		c.Case("listing", func(t *T) { t.listing() })
	}
	if c.Chunk%300 == 3 {
		c.Case("many", func(t *T) { t.manyListing() })
	}
}

var blanks = regexp.MustCompile(`[ \t]+`)

// norm takes the layout of columns away.
func norm(s string) string {
	s = blanks.ReplaceAllString(s, " ")
	return strings.ReplaceAll(strings.ReplaceAll(s, " \n", "\n"), "\n ", "\n")
}

var systemNames = map[byte]string{0: "[generic]", 'C': "[CP/M]", 'F': "[FLEX]", '9': "[OS-9]", 'M': "[MS-DOS]", 'm': "[Mac OS]", '2': "[OS/2]", 'H': "[Human68K]", '3': "[OS-386]", 'R': "[Runser]", 'T': "[TownsOS]", 'J': "[JAVA]"}

func bits(mode uint16, letters string, special map[int]byte) string {
	out := []byte(letters)
	for i := range out {
		if mode>>(len(out)-1-i)&1 == 0 {
			out[i] = '-'
		}
	}
	for i, c := range special {
		out[i] = c
	}
	return string(out)
}

// shown is what the columns before the sizes say.
func shown(w *wantHeader) string {
	s := ""
	switch w.OS {
	case 'U':
		special := map[int]byte{}
		if w.Mode&04000 != 0 {
			special[2] = 's'
		}
		if w.Mode&02000 != 0 {
			special[5] = 's'
		}
		if w.Mode&01000 != 0 {
			special[8] = 't'
		}
		s = map[uint16]string{0040000: "d", 0120000: "l"}[w.Mode&0170000]
		if s == "" {
			s = "-"
		}
		s += bits(w.Mode&0777, "rwxrwxrwx", special)
	case 'K', 'X':
		s = bits(w.Mode&0377, "dsewrewr", nil)
	default:
		s = systemNames[w.OS]
		if s == "" {
			s = "[unknown]"
		}
		return s + " "
	}
	first := func(name string) string {
		if r := []rune(name); len(r) > 5 {
			return string(r[:5])
		}
		return name
	}
	if w.User != "" {
		s += " " + first(w.User)
	} else {
		s += fmt.Sprintf(" %d", w.UID)
	}
	if w.Group != "" {
		s += "/" + first(w.Group)
	} else {
		s += fmt.Sprintf("/%d", w.GID)
	}
	return s + " "
}

// stamps are the forms in which a time may be shown: with the time of the day
// when it is of the last 180 days or later, else with the year.
func stamps(sec int64, loc *time.Location, full bool) []string {
	if sec == 0 {
		return []string{""}
	}
	at := time.Unix(sec, 0).In(loc)
	if full {
		return []string{fmt.Sprintf(" %04d-%02d-%02d %02d:%02d:%02d", at.Year(), at.Month(), at.Day(), at.Hour(), at.Minute(), at.Second())}
	}
	month := "JanFebMarAprMayJunJulAugSepOctNovDec"[at.Month()*3-3 : at.Month()*3]
	old := fmt.Sprintf(" %s %d %04d", month, at.Day(), at.Year())
	recent := fmt.Sprintf(" %s %d %02d:%02d", month, at.Day(), at.Hour(), at.Minute())
	const day = 86400
	switch age := time.Now().Unix() - sec; {
	case age < 180*day-3*3600: // (give or take a change of the clock)
		// the year is not shown
		return []string{recent}
	case age > 180*day+3*3600:
		return []string{old}
	}
	return []string{old, recent}
}

var processZone = time.Local

var anyStamp = regexp.MustCompile(`^( \d+-\d\d-\d\d \d\d:\d\d:\d\d| [A-Z][a-z][a-z] \d+ (\d\d:\d\d|\d+))?`)

type listed struct {
	loc           *time.Location
	verbose, long bool
	rest          string
	t             *T
	what          string
}

// eat takes the expected text off the listing.
func (l *listed) eat(s, about string) {
	s = norm(s)
	if !strings.HasPrefix(l.rest, s) {
		l.t.Failf("entry", "%s: %q expected, the listing has %q; %s", about, clip(s), clip(l.rest), l.what)
	}
	l.rest = l.rest[len(s):]
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

func (l *listed) ratio(packed, size int, about string) {
	i := strings.IndexAny(l.rest, " \n")
	if i < 0 {
		i = len(l.rest)
	}
	got := l.rest[:i]
	l.rest = l.rest[i:]
	if size == 0 {
		if got != "******" {
			l.t.Failf("ratio", "%s: the ratio of nothing is %q; %s", about, got, l.what)
		}
		return
	}
	v, err := strconv.ParseFloat(strings.TrimSuffix(got, "%"), 64)
	want := float64(packed) * 100 / float64(size)
	if err != nil || !strings.HasSuffix(got, "%") || math.Abs(v-want) > 0.0501+want*1e-12 {
		l.t.Failf("ratio", "%s: the ratio is %q, must be %.1f%%; %s", about, got, want, l.what)
	}
}

func (l *listed) sizes(packed, size int, about string) {
	if l.long {
		l.eat(fmt.Sprintf("%d ", packed), about)
	}
	l.eat(fmt.Sprintf("%d ", size), about)
	l.ratio(packed, size, about)
}

func (l *listed) entry(w *wantHeader) {
	about := fmt.Sprintf("member %q", clip(w.Name))
	name := w.Name
	if w.Mode&0120000 == 0120000 {
		name += " -> " + w.Real
	}
	if l.verbose {
		l.eat(strings.TrimLeft(name, " \t")+"\n", about)
	}
	l.eat(shown(w), about)
	l.sizes(w.Packed, w.Size, about)
	if l.long {
		crc := "****"
		if w.HasCRC {
			crc = fmt.Sprintf("%04x", w.CRC)
		}
		l.eat(fmt.Sprintf(" %s %s", w.Method, crc), about)
	}
	if w.noTime {
		l.rest = l.rest[len(anyStamp.FindString(l.rest)):]
	} else {
		all := stamps(w.Time, l.loc, l.long && l.verbose)
		if len(all) > 1 && strings.HasPrefix(l.rest, all[1]) {
			all = all[1:]
		}
		l.eat(all[0], about)
		if all[0] != "" {
			l.t.Add("stamps_compared", 1)
		}
	}
	if l.verbose {
		l.eat(fmt.Sprintf(" [%d]\n", w.Level), about)
	} else {
		l.eat(" "+name+"\n", about)
	}
}

func (l *listed) line() string {
	i := strings.IndexByte(l.rest, '\n')
	if i < 0 {
		l.t.Failf("entry", "the listing ends in %q; %s", clip(l.rest), l.what)
	}
	s := l.rest[:i]
	l.rest = l.rest[i+1:]
	return s
}

func isBar(s string) bool { return strings.Trim(s, "- ") == "" && strings.Contains(s, "---") }

// judge compares a listing with the members that it must show.
func (l *listed) judge(ws []*wantHeader, quiet bool) {
	t := l.t
	if strings.IndexByte(l.rest, 0) >= 0 {
		t.Failf("text", "the listing has NUL bytes; %s", l.what)
	}
	l.rest = strings.TrimLeft(norm(l.rest), " ")
	if !quiet {
		title := l.line()
		// the title names the columns of this form of listing
		has := func(c string) bool { return strings.Contains(title, c) }
		if !has("PERMISSION") || !has("SIZE") || !has("RATIO") || !has("STAMP") || has("PACKED") != l.long || has("METHOD") != l.long || has("CRC") != l.long || has("LV") != l.verbose || has("NAME") == l.verbose {
			t.Failf("title", "the title is %q; %s", title, l.what)
		}
		if b := l.line(); !isBar(b) {
			t.Failf("title", "%q follows the title; %s", b, l.what)
		}
	}
	packed, size := 0, 0
	for _, w := range ws {
		l.entry(w)
		packed += w.Packed
		size += w.Size
		t.Add("entries_compared", 1)
	}
	if !quiet {
		if b := l.line(); !isBar(b) {
			t.Failf("entries", "after the last member: %q; %s", clip(b), l.what)
		}
		s := "s"
		if len(ws) == 1 {
			s = ""
		}
		l.rest = strings.TrimLeft(l.rest, " ")
		l.eat(fmt.Sprintf("Total %d file%s ", len(ws), s), "the last line")
		l.sizes(packed, size, "the last line")
		l.eat("\n", "the last line")
		t.Add("totals_compared", 1)
	}
	if l.rest != "" {
		t.Failf("entries", "at the end: %q; %s", clip(l.rest), l.what)
	}
}

func (t *T) listing() {
	r := t.R
	t.setZone()
	n := r.Intn(9)
	if r.Intn(12) == 0 {
		n = 30
	}
	var ms []*member
	var ws []*wantHeader
	level := r.Intn(6)
	for i := 0; i < n; i++ {
		lv := level
		if lv > 3 {
			lv = r.Intn(4)
		}
		h, kind := richHeader(r, lv, i)
		if r.Intn(2) == 0 {
			h.OS = []byte{'U', 'U', 'U', 'K', 'X', 'M', 0}[r.Intn(7)]
			if lv == 0 && h.OS != 'U' && kind == "link" {
				h.OS = 'U'
			}
		}
		if lv > 0 && r.Intn(3) == 0 {
			h.User = []string{"root", "nobody", "me", "abcde", "abcdef", "x", "müller", "12345"}[r.Intn(8)]
		}
		if lv > 0 && r.Intn(3) == 0 {
			h.Group = []string{"wheel", "users", "g", "abcdef", "staffers", "0", "größe"}[r.Intn(7)]
		}
		if lv > 0 && kind == "file" && r.Intn(4) == 0 {
			h.HasMode, h.Mode = true, 0100000|uint16(r.Intn(010000))
		}
		if lv > 0 && h.OS == 'U' && !h.HasIDs && r.Intn(2) == 0 {
			h.HasIDs, h.UID, h.GID = true, uint16(r.Intn(65536)), uint16(r.Intn(65536))
		}
		if i := strings.IndexByte(h.Name, '|'); kind == "link" && r.Intn(2) == 0 {
			h.Name = fmt.Sprintf("l%d|", r.Intn(1000)) + h.Name[i+1:]
		}
		if r.Intn(3) == 0 { // about the last year
			now := time.Now().Unix() + int64(r.Intn(30)-330)*86400 + int64(r.Intn(86400))
			switch r.Intn(4) {
			case 0, 1:
				now += 300 * 86400
			case 2:
				off := int64(3*3600 + 600 + r.Intn(20*3600))
				if r.Intn(2) == 0 {
					off = -off
				}
				now = time.Now().Unix() - 180*86400 + off
			}
			if lv < 2 {
				h.Stamp = ref.DosTime(time.Unix(now, 0).In(time.Local))
				h.MTime = uint32(now)
			} else {
				h.Stamp = uint32(now)
			}
		}
		m := &member{h: h}
		if kind == "file" {
			m.h.Method = allMethods[r.Intn(len(allMethods))]
			m.data = make([]byte, bodySize(r, 3000))
			r.Read(m.data)
			switch r.Intn(4) {
			case 0:
				m.h.Size = len(m.data)
			case 1:
				m.h.Size = r.Intn(1 << uint(r.Intn(32)))
			case 2:
				m.h.Size = len(m.data) + r.Intn(len(m.data)+1)
			case 3:
				m.h.Size = 1<<32 - 1 - r.Intn(1<<uint(r.Intn(32)))
			}
			if m.h.Size > 1<<24 {
				t.Add("big_sizes", 1)
			}
			m.h.CRC = uint16(r.Intn(65536))
			if r.Intn(4) == 0 {
				m.h.CRC &= 0xff
			}
		}
		m.h.Packed = len(m.data)
		safeBuild(&m.h)
		w := expectHeader(&m.h, time.Local)
		if strings.ContainsAny(w.Name+w.Real, "\n\t") || w.Name == "" {
			continue
		}
		if m := w.Mode & 0170000; w.OS == 'U' && m != 0100000 && m != 0040000 && m != 0120000 {
			continue
		}
		ms, ws = append(ms, m), append(ws, &w)
		t.Add(map[string]string{"file": "files", "dir": "directories", "link": "links"}[kind], 1)
		if !w.HasCRC {
			t.Add("no_checksum", 1)
		}
		if w.User != "" || w.Group != "" {
			t.Add("owner_names", 1)
		}
	}
	n = len(ms)
	var arch []byte
	var starts []int
	for _, m := range ms {
		starts = append(starts, len(arch))
		arch = append(arch, m.h.Build()...)
		arch = append(arch, m.data...)
	}
	arch = append(arch, 0)
	must(writeFile("x.lzh", arch))
	handle := lha.NewLha("x.lzh")
	for form := 0; form < 4; form++ {
		for _, quiet := range []bool{false, true} {
			q := opReq{Kind: "list", Archive: "x.lzh", Verbose: form&1 != 0, VerboseListing: form&2 != 0}
			want := ws
			if n > 0 && r.Intn(3) == 0 {
				ask := map[string]bool{}
				for k := 1 + r.Intn(3); k > 0; k-- {
					ask[ws[r.Intn(n)].Name] = true
				}
				want = nil
				for name := range ask {
					q.Files = append(q.Files, name)
				}
				if r.Intn(3) == 0 {
					q.Files = append(q.Files, "not there")
				}
				for _, w := range ws {
					if ask[w.Name] {
						want = append(want, w)
					}
				}
				t.Add("selections", 1)
			}
			l := &listed{verbose: q.Verbose, long: q.VerboseListing, t: t, loc: time.Local}
			l.what = fmt.Sprintf("verbose %v, long %v, quiet %v, files %.200q of %d members", q.Verbose, q.VerboseListing, quiet, q.Files, n)
			if r.Intn(100) == 0 && !quiet && len(q.Files) == 0 && !q.Verbose {
				arg := "-l"
				if q.VerboseListing {
					arg = "-lv"
				}
				res := t.lharc(t.Dir, "", arg, "-archive", "x.lzh")
				if c := res.crashed(); c != "" || res.code != 0 {
					t.Failf("command", "%s: %s %v", arg, c, res)
				}
				l.rest = res.out
				l.loc = processZone
				want = nil
				for _, m := range ms {
					w := expectHeader(&m.h, l.loc)
					want = append(want, &w)
				}
				l.what = "lharc " + arg
				t.Add("command_runs", 1)
			} else {
				lha.Quiet = quiet
				hd := handle
				if r.Intn(2) == 0 {
					hd = nil
				}
				res := t.outDo(&q, hd)
				lha.Quiet = false
				if res.Err != "" {
					t.Failf("error", "%s; %s", res.Err, l.what)
				}
				l.rest = res.Out
			}
			l.judge(want, quiet)
			t.Add("listings", 1)
			for _, w := range want {
				t.Sig("%d/%d/%c/%o/%v/%v/%v", form, w.Level, w.OS, w.Mode&0170000, w.User != "", w.Group != "", w.HasCRC)
			}
		}
	}
	if n > 0 {
		t.Sample(fmt.Sprintf("%d members, the first %s", n, describe(&ms[0].h)))
		t.brokenList(arch, ms, starts, ws)
	}
}

// brokenList: what cannot be read is not listed as if it were complete.
func (t *T) brokenList(arch []byte, ms []*member, starts []int, ws []*wantHeader) {
	r := t.R
	i := r.Intn(len(ms))
	h := &ms[i].h
	hl := len(h.Build())
	bad := append([]byte(nil), arch...)
	how := ""
	switch r.Intn(3) {
	case 0:
		cut := starts[i] + 1 + r.Intn(hl-1)
		bad, how = bad[:cut], fmt.Sprintf("cut at %d of %d bytes of header %d", cut-starts[i], hl, i)
	case 1: // a byte of the header
		off := 2 + r.Intn(hl-2)
		switch {
		case h.Level < 2:
			off = 2 + r.Intn(min(hl-2, int(bad[starts[i]])))
			if off == 20 { // the level itself
				off = 3
			}
		case !h.HasHCRC:
			return
		case off == 20 || off == 0 || off == 1 || h.Level == 3 && off >= 24 && off < 28:
			off = 15
		}
		// the sizes of extensions and the CRC have their own meaning: only fixed fields
		if h.Level >= 2 && off > 20 {
			off = 7 + r.Intn(12)
		}
		bad[starts[i]+off] ^= byte(1 << uint(r.Intn(8)))
		how = fmt.Sprintf("byte %d of header %d (level %d) changed", off, i, h.Level)
	case 2:
		must(writeFile("x.lzh", arch))
		q := opReq{Kind: "list", Archive: "missing.lzh"}
		res := t.outDo(&q, nil)
		if res.Err == "" {
			t.Failf("missing", "the listing of a missing archive reports no error")
		}
		t.Add("failures_reported", 1)
		return
	}
	must(writeFile("bad.lzh", bad))
	q := opReq{Kind: "list", Archive: "bad.lzh", Verbose: r.Intn(2) == 0, VerboseListing: r.Intn(2) == 0}
	lha.Quiet = true
	res := t.outDo(&q, nil)
	lha.Quiet = false
	if res.Err == "" {
		t.Failf("unreported", "an archive of %d members, %s, is listed without an error", len(ms), how)
	}
	// those before it are shown
	l := &listed{verbose: q.Verbose, long: q.VerboseListing, t: t, loc: time.Local, rest: strings.TrimLeft(norm(res.Out), " "), what: how}
	for _, w := range ws[:i] {
		l.entry(w)
	}
	if l.rest != "" {
		t.Failf("unread", "a header that cannot be read is listed: %q; %s", clip(l.rest), how)
	}
	t.Add("failures_reported", 1)
	t.Sig("broken/%d/%s", h.Level, strings.Fields(how)[0])
}
