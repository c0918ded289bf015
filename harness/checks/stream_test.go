package checks

import (
	"errors"
	"fmt"
	"io"
	"runtime"
	"sort"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/32bitkid/bitreader"
	"github.com/32bitkid/mpeg/pes"
	"github.com/32bitkid/mpeg/ps"
	"github.com/32bitkid/mpeg/ts"
	"github.com/32bitkid/mpeg/video"
	"pgregory.net/rapid"

	"verifharness/core"
	"verifharness/mpv"
	"verifharness/mux"
)

// I02: live sources. Everything is delivered as soon as the bytes that make it
// have arrived; a source that pauses behind them holds nothing up.

// tap is a source that blocks until more is fed or it is shut.
type tap struct {
	mu   sync.Mutex
	buf  []byte
	shut bool
	more chan struct{}
}

func newTap() *tap { return &tap{more: make(chan struct{}, 1)} }

func (s *tap) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	for {
		s.mu.Lock()
		n := copy(p, s.buf)
		s.buf = s.buf[n:]
		shut := s.shut
		s.mu.Unlock()
		if n > 0 {
			return n, nil
		}
		if shut {
			return 0, io.EOF
		}
		<-s.more
	}
}

func (s *tap) feed(b []byte, shut bool) {
	s.mu.Lock()
	s.buf = append(s.buf, b...)
	s.shut = s.shut || shut
	s.mu.Unlock()
	select {
	case s.more <- struct{}{}:
	default:
	}
}

// liveItem is one thing to come: when (bytes of the source), on which lane.
type liveItem struct {
	need int
	lane int
	text string
}

// slack are the bytes that follow a PES packet or pack header and may be looked
// at before it is handed out: the next start code.
const slack = 4

type liveCase struct {
	Kind  string
	TS    []mux.TSPacket  `json:",omitempty"`
	Where []*expr         `json:",omitempty"`
	PES   []mux.PESPacket `json:",omitempty"`
	Packs []mux.PSPack    `json:",omitempty"`
	Sizes []int           // of the reads
	Feeds []int           // sizes of what arrives at a time
}

var liveKinds = []string{"ts packets", "ts payload", "ts units", "ts demux", "ts demux payload", "ts demux units",
	"pes packets", "pes payload", "ps decoder", "ps reader"}

// plan gives the data and what is to come of it.
func (c *liveCase) plan() (data []byte, items []liveItem) {
	add := func(need, lane int, what []byte) {
		items = append(items, liveItem{need, lane, fmt.Sprintf("%x", what)})
	}
	switch c.Kind[:2] {
	case "ts":
		data = mux.BytesOf(c.TS)
		for lane, w := range c.Where {
			unit, open := []byte(nil), false
			for i := range c.TS {
				p := &c.TS[i]
				if !w.eval(p) {
					continue
				}
				end := 188 * (i + 1)
				switch c.Kind {
				case "ts units", "ts demux units":
					if p.PUSI {
						if open {
							add(end, lane, unit)
						}
						unit, open = nil, true
					}
					unit = append(unit, p.Payload...)
				case "ts payload":
					if len(p.Payload) > 0 {
						add(end, lane, p.Payload)
					}
				default:
					add(end, lane, p.Payload)
				}
			}
			if open {
				add(len(data)+1, lane, unit)
			}
		}
	case "pe":
		for i := range c.PES {
			p := &c.PES[i]
			data = append(data, p.Bytes()...)
			pay := p.Payload
			if p.StreamID == 0xbe {
				pay = nil
			}
			if c.Kind == "pes packets" || len(pay) > 0 {
				add(len(data)+slack, 0, pay)
			}
		}
	case "ps":
		for i := range c.Packs {
			h, _ := c.Packs[i].H.Encode()
			data = append(data, h...)
			if c.Kind == "ps decoder" {
				add(len(data)+slack, 0, []byte("pack"))
			}
			for j := range c.Packs[i].Packets {
				p := &c.Packs[i].Packets[j]
				data = append(data, p.Bytes()...)
				pay := p.Payload
				if p.StreamID == 0xbe {
					pay = nil
				}
				if c.Kind == "ps decoder" || len(pay) > 0 {
					add(len(data)+slack, 0, pay)
				}
			}
		}
		data = append(data, mux.ProgramEnd...)
	}
	sort.SliceStable(items, func(i, j int) bool { return items[i].need < items[j].need })
	return data, items
}

func (c *liveCase) check(x *core.Ctx) error {
	data, items := c.plan()
	src := newTap()
	lanes := max(1, len(c.Where))
	var mu sync.Mutex
	got := make([][]string, lanes)
	put := func(lane int, what []byte) {
		mu.Lock()
		got[lane] = append(got[lane], fmt.Sprintf("%x", what))
		mu.Unlock()
	}
	var consumers []func() error
	eof := func(err error) error {
		if err != io.EOF && err != io.ErrUnexpectedEOF {
			return err
		}
		return nil
	}
	// exact reads the payloads expected, never asking for more than the
	// payload under way still has
	exact := func(r io.Reader) func() error {
		return func() error {
			k := 0
			for i := range items {
				want := make([]byte, len(items[i].text)/2)
				for n := 0; n < len(want); {
					size := len(want) - n
					if len(c.Sizes) > 0 {
						size = min(size, max(1, c.Sizes[k%len(c.Sizes)]))
						k++
					}
					if _, err := io.ReadFull(r, want[n:n+size]); err != nil {
						return err
					}
					n += size
				}
				put(0, want)
			}
			return nil
		}
	}
	var demux *ts.Demuxer
	var done <-chan bool
	switch c.Kind {
	case "ts packets":
		br := bitreader.NewReader(src)
		w := c.Where[0].build()
		consumers = append(consumers, func() error {
			for {
				p, err := ts.NewPacket(br)
				if err != nil {
					return eof(err)
				}
				if w(p) {
					put(0, p.Payload)
				}
			}
		})
	case "ts payload":
		consumers = append(consumers, exact(ts.NewPayloadReader(src, c.Where[0].build())))
	case "ts units":
		r := ts.NewPayloadUnitReader(src, c.Where[0].build())
		consumers = append(consumers, func() error {
			var unit []byte
			for k := 0; ; k++ {
				size := 512
				if len(c.Sizes) > 0 {
					size = max(1, c.Sizes[k%len(c.Sizes)])
				}
				buf := make([]byte, size)
				n, err := r.Read(buf)
				unit = append(unit, buf[:n]...)
				if err == ts.EOP {
					put(0, unit)
					unit = nil
				} else if err != nil {
					return eof(err)
				}
			}
		})
	case "ts demux", "ts demux payload", "ts demux units":
		demux = ts.NewDemuxer(src)
		for lane := range c.Where {
			ch := demux.Where(c.Where[lane].build())
			var pay <-chan []byte
			switch c.Kind {
			case "ts demux payload":
				pay = ch.PayloadOnly()
			case "ts demux units":
				pay = ch.PayloadUnit()
			}
			consumers = append(consumers, func() error {
				for {
					var b []byte
					if pay != nil {
						p, ok := <-pay
						if !ok {
							return nil
						}
						b = p
					} else {
						p, ok := <-ch
						if !ok {
							return nil
						}
						b = p.Payload
					}
					put(lane, b)
				}
			})
		}
		done = demux.Go()
	case "pes packets":
		br := bitreader.NewReader(src)
		consumers = append(consumers, func() error {
			for {
				p, err := pes.NewPacket(br)
				if err != nil {
					return eof(err)
				}
				put(0, p.Payload)
			}
		})
	case "pes payload":
		consumers = append(consumers, exact(pes.NewPayloadReader(src)))
	case "ps decoder":
		d := ps.NewDecoder(bitreader.NewReader(src))
		consumers = append(consumers, func() error {
			for p := range d.Packs() {
				put(0, []byte("pack"))
				for q := range p.Packets() {
					put(0, q.Payload)
				}
			}
			return nil
		})
		done = d.Go()
	case "ps reader":
		consumers = append(consumers, exact(ps.NewPackReader(src)))
	}
	errs := make([]error, len(consumers))
	var wg sync.WaitGroup
	for i, f := range consumers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = core.Protect(f)
		}()
	}
	if done != nil {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-done
		}()
	}
	fed, k := 0, 0
	upTo := func(to int) {
		to = min(to, len(data))
		for fed < to {
			n := to - fed
			if len(c.Feeds) > 0 {
				n = min(n, max(1, c.Feeds[k%len(c.Feeds)]))
				k++
			}
			src.feed(data[fed:fed+n], false)
			fed += n
			if len(c.Feeds) > 0 && k < 200 {
				synctest.Wait()
			}
		}
	}
	due := make([]int, lanes)
	paused := 0
	for i, it := range items {
		due[it.lane]++
		upTo(it.need)
		if i+1 < len(items) && items[i+1].need <= fed {
			continue // more is due
		}
		if it.need > len(data) {
			break
		}
		synctest.Wait()
		mu.Lock()
		for lane := range got {
			if len(got[lane]) < due[lane] {
				n := len(got[lane])
				mu.Unlock()
				src.feed(nil, true)
				wg.Wait()
				return fmt.Errorf("%s: %d items delivered on channel %d after %d of %d bytes of a live source, of which %d are in those bytes", c.Kind, n, lane, fed, len(data), due[lane])
			}
		}
		mu.Unlock()
		if fed < len(data) {
			paused++
		}
	}
	upTo(len(data))
	src.feed(nil, true)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return fmt.Errorf("%s: %w", c.Kind, err)
		}
	}
	if demux != nil && demux.Err() != nil && demux.Err() != io.EOF {
		return fmt.Errorf("%s: Err() = %v", c.Kind, demux.Err())
	}
	want := make([][]string, lanes)
	for _, it := range items {
		want[it.lane] = append(want[it.lane], it.text)
	}
	for lane := range want {
		for i := range want[lane] {
			if i >= len(got[lane]) || got[lane][i] != want[lane][i] {
				return fmt.Errorf("%s: item %d of %d on channel %d is missing or another than multiplexed", c.Kind, i, len(want[lane]), lane)
			}
		}
		if len(got[lane]) > len(want[lane]) {
			return fmt.Errorf("%s: %d items on channel %d, expected %d", c.Kind, len(got[lane]), lane, len(want[lane]))
		}
	}
	x.Class("%s", c.Kind)
	x.Count("pauses behind a complete item", paused)
	if paused > 0 {
		x.NonTrivial([]byte(deepText(c)))
	}
	return nil
}

func TestI02(t *testing.T) {
	core.Run(t, core.Prop[liveCase]{
		ID:   "I02",
		Rule: "the source paused at least once behind a complete item, with more of the stream to come",
		Gen: func(t *rapid.T) liveCase {
			c := liveCase{Kind: rapid.SampledFrom(liveKinds).Draw(t, "kind"), Sizes: mux.GenSizes(t, "read", false), Feeds: mux.GenSizes(t, "feed", false)}
			switch c.Kind[:2] {
			case "ts":
				c.TS = genPackets(t, 10, mux.TSOpts{PIDs: somePIDs[:3], PUSIPct: 40})
				n := 1
				if c.Kind[:4] == "ts d" {
					n = rapid.IntRange(1, 3).Draw(t, "channels")
				}
				for i := 0; i < n; i++ {
					if mux.Chance(t, 60, "plain") {
						c.Where = append(c.Where, &expr{Op: "pid", N: somePIDs[i]})
					} else {
						c.Where = append(c.Where, genExpr(t, somePIDs[:3], 2))
					}
				}
			case "pe":
				n := rapid.IntRange(1, 6).Draw(t, "n")
				for i := 0; i < n; i++ {
					c.PES = append(c.PES, mux.GenPES(t, rapid.SampledFrom([]int{1, 40, 3000}).Draw(t, "max")))
				}
			case "ps":
				c.Packs = mux.GenPacks(t, 4, 4, rapid.SampledFrom([]int{3, 40, 3000}).Draw(t, "max"))
			}
			return c
		},
		Check: func(c liveCase, x *core.Ctx) error {
			return core.Bubble(x, func() error { return c.check(x) })
		},
	})
}

// R01: memory. Reading a stream takes no more of it however long the stream is.

// loop repeats a block until total bytes have been read and measures the live
// heap at a quarter and at the end.
type loop struct {
	block []byte
	total int
	tail  []byte
	sizes []int

	off, i  int
	quarter uint64
	end     uint64
	after   int
}

func liveHeap() uint64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

func (l *loop) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if l.end == 0 && l.off >= l.total-len(l.block) {
		l.end = liveHeap()
	}
	if l.quarter == 0 && l.off >= l.total/4 {
		l.quarter = liveHeap()
	}
	if l.off >= l.total+len(l.tail) {
		if l.after++; l.after > 20000 {
			panic(core.ErrSpin)
		}
		return 0, io.EOF
	}
	n := len(p)
	if len(l.sizes) > 0 {
		n = min(n, max(1, l.sizes[l.i%len(l.sizes)]))
		l.i++
	}
	if l.off >= l.total {
		n = copy(p[:n], l.tail[l.off-l.total:])
	} else {
		n = copy(p[:n], l.block[l.off%len(l.block):])
	}
	l.off += n
	return n, nil
}

type longCase struct {
	Kind  string
	TS    []mux.TSPacket  `json:",omitempty"`
	PES   []mux.PESPacket `json:",omitempty"`
	Packs []mux.PSPack    `json:",omitempty"`
	S     *mpv.Stream     `json:",omitempty"`
	End   bool            // every repetition of the video is a sequence of its own
	Sizes []int
	Buf   int // bytes read at a time
	Total int // bytes, at least
}

// growth is how much larger the live heap may be at the end of a stream than
// at a quarter of it.
const growth = 64 << 10

func (c *longCase) check(x *core.Ctx) error {
	src := &loop{sizes: c.Sizes}
	switch c.Kind[:2] {
	case "ts":
		src.block = mux.BytesOf(c.TS)
	case "pe":
		for i := range c.PES {
			src.block = append(src.block, c.PES[i].Bytes()...)
		}
	case "ps":
		for i := range c.Packs {
			src.block = append(src.block, c.Packs[i].Bytes()...)
		}
		src.tail = mux.ProgramEnd
	case "vi":
		c.S.Expand()
		src.block = c.S.Encode().Buf
		if !c.End {
			n := len(src.block) - 4
			src.block, src.tail = src.block[:n:n], src.block[n:]
		}
	}
	src.total = (max(c.Total/len(src.block), 40) + 4) / 4 * 4 * len(src.block)
	before := runtime.NumGoroutine()
	buf := make([]byte, c.Buf)
	drain := func(r io.Reader) error {
		for {
			if _, err := r.Read(buf); err == io.EOF {
				return nil
			} else if err != nil && err != ts.EOP {
				return err
			}
		}
	}
	eof := func(err error) error {
		if err == io.EOF {
			return nil
		}
		return err
	}
	where := ts.IsPID(somePIDs[0])
	err := func() error {
		switch c.Kind {
		case "ts packets":
			br := bitreader.NewReader(src)
			for {
				if _, err := ts.NewPacket(br); err != nil {
					return eof(err)
				}
			}
		case "ts reused":
			br := bitreader.NewReader(src)
			var p ts.Packet
			for {
				if err := p.Next(br); err != nil {
					return eof(err)
				}
			}
		case "ts payload":
			return drain(ts.NewPayloadReader(src, where))
		case "ts units":
			return drain(ts.NewPayloadUnitReader(src, where))
		case "ts demux", "ts demux payload", "ts demux units":
			d := ts.NewDemuxer(src)
			var wg sync.WaitGroup
			for i := 0; i < 2; i++ {
				w := where
				if i == 1 {
					w = where.Not().Or(ts.IsPayloadUnitStart)
				}
				ch := d.Where(w)
				wg.Add(1)
				go func() {
					defer wg.Done()
					switch c.Kind {
					case "ts demux":
						for range ch {
						}
					case "ts demux payload":
						for range ch.PayloadOnly() {
						}
					default:
						for range ch.PayloadUnit() {
						}
					}
				}()
			}
			done := d.Go()
			wg.Wait()
			<-done
			return eof(d.Err())
		case "pes packets":
			br := bitreader.NewReader(src)
			for {
				if _, err := pes.NewPacket(br); err != nil {
					return eof(err)
				}
			}
		case "pes reused":
			br := bitreader.NewReader(src)
			var p pes.Packet
			for {
				if err := p.Next(br); err != nil {
					return eof(err)
				}
			}
		case "pes payload":
			return drain(pes.NewPayloadReader(src))
		case "ps decoder", "ps decoder payload":
			d := ps.NewDecoder(bitreader.NewReader(src))
			done := d.Go()
			fin := make(chan bool, 1)
			go func() { fin <- <-done }()
			for p := range d.Packs() {
				if c.Kind == "ps decoder" {
					for range p.Packets() {
					}
				} else {
					for range p.Packets().PayloadOnly() {
					}
				}
			}
			<-fin
			return eof(d.Err())
		case "ps reader":
			return drain(ps.NewPackReader(src))
		case "video":
			vs := video.NewVideoSequence(src)
			for {
				img, err := vs.Next()
				if err == video.EOS {
					if src.off >= src.total {
						return nil
					}
				} else if err != nil {
					return err
				} else if img == nil {
					return errors.New("neither picture nor error")
				}
			}
		}
		panic("kind " + c.Kind)
	}()
	if err != nil {
		return fmt.Errorf("%s, after %d of %d bytes: %w", c.Kind, src.off, src.total, err)
	}
	if src.off < src.total {
		return fmt.Errorf("%s: only %d of %d bytes read", c.Kind, src.off, src.total)
	}
	// what is being read at the moment counts too
	if src.end > src.quarter+growth+2*uint64(len(src.block)) {
		return fmt.Errorf("%s: the live heap grew from %d bytes after a quarter of the stream to %d at its end (%d repetitions of %d bytes)", c.Kind, src.quarter, src.end, src.total/len(src.block), len(src.block))
	}
	for i := 0; runtime.NumGoroutine() > before; i++ {
		if i == 400 {
			return fmt.Errorf("%s: %d goroutines left after the end", c.Kind, runtime.NumGoroutine()-before)
		}
		time.Sleep(time.Millisecond * time.Duration(1+i/10))
	}
	x.Class("%s", c.Kind)
	x.Count("bytes read", src.off)
	if src.end > src.quarter {
		x.Class(fmt.Sprintf("heap grew by up to %d kB", 1+(src.end-src.quarter)/1024))
	}
	if src.total >= 40*len(src.block) {
		x.NonTrivial(append(append([]byte(c.Kind), src.block...), fmt.Sprint(c.Sizes)...))
	}
	return nil
}

var longKinds = []string{"video", "ts packets", "ts reused", "ts payload", "ts units", "ts demux", "ts demux payload", "ts demux units",
	"pes packets", "pes reused", "pes payload", "ps decoder", "ps decoder payload", "ps reader", "video"}

func TestR01(t *testing.T) {
	core.Run(t, core.Prop[longCase]{
		ID:   "R01",
		Rule: "at least forty repetitions of the block were read and the live heap compared",
		Gen: func(t *rapid.T) longCase {
			c := longCase{Kind: rapid.SampledFrom(longKinds).Draw(t, "kind"), Sizes: rapid.SampledFrom([][]int{nil, {188}, {4096}, {1000, 7, 64}}).Draw(t, "sizes")}
			c.Total = rapid.IntRange(1_000_000, 5_000_000).Draw(t, "total")
			c.Buf = rapid.OneOf(rapid.IntRange(20, 300), rapid.IntRange(20, 5000)).Draw(t, "buf")
			switch c.Kind[:2] {
			case "ts":
				c.TS = genPackets(t, 10, mux.TSOpts{PIDs: somePIDs[:3], PUSIPct: 40})
				p := mux.GenPacket(t, mux.TSOpts{PIDs: somePIDs[:1]})
				p.PUSI = true
				c.TS = append([]mux.TSPacket{p}, c.TS...)
			case "pe":
				n := rapid.IntRange(1, 6).Draw(t, "n")
				for i := 0; i < n; i++ {
					c.PES = append(c.PES, mux.GenPES(t, rapid.SampledFrom([]int{1, 40, 3000}).Draw(t, "max")))
				}
			case "ps":
				c.Packs = mux.GenPacks(t, 4, 4, rapid.SampledFrom([]int{3, 40, 3000}).Draw(t, "max"))
			case "vi":
				c.End = mux.Chance(t, 40, "end")
				if !mux.Chance(t, 25, "long") {
					c.Total /= 6
				}
				c.S = mpv.GenStream(t, mpv.Opts{Types: "IPB", Plain: true, MaxPics: 5, MaxMB: 2, GroupMax: 4, Extras: 20, Repeat: 20})
				if c.S.Items[0].GOP == nil {
					c.S.Items[0].GOP = mpv.GenGOP(t, true, mpv.Opts{})
				}
				c.S.Stuff = 0
			}
			return c
		},
		Check: func(c longCase, x *core.Ctx) error { return c.check(x) },
	})
}
