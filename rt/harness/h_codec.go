package main

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/zdecoder"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zinterceptor"
	"github.com/aceld/zinx/znet"
	"github.com/aceld/zinx/zpack"
	"github.com/aceld/zinx/zzmc/mc"
)

// ---- C01: length-field framing ------------------------------------------------

type geom struct {
	order      binary.ByteOrder
	off, w     int
	adj, strip int
	max        uint64
}

func (g geom) String() string {
	e := "BE"
	if g.order == binary.LittleEndian {
		e = "LE"
	} else if g.order == nil {
		e = "default order"
	}
	return fmt.Sprintf("{%s offset %d width %d adjustment %d strip %d max %d}", e, g.off, g.w, g.adj, g.strip, g.max)
}

func (g geom) lf() ziface.LengthField {
	return ziface.LengthField{Order: g.order, MaxFrameLength: g.max, LengthFieldOffset: g.off, LengthFieldLength: g.w, LengthAdjustment: g.adj, InitialBytesToStrip: g.strip}
}

// raw encodes a length-field value.
func (g geom) putLen(b []byte, v uint64) {
	for i := 0; i < g.w; i++ {
		k := i
		if g.order != binary.LittleEndian {
			k = g.w - 1 - i
		}
		b[k] = byte(v >> (8 * uint(i)))
	}
}

func (g geom) getLen(b []byte) (v uint64) {
	for i := 0; i < g.w; i++ {
		k := i
		if g.order != binary.LittleEndian {
			k = g.w - 1 - i
		}
		v |= uint64(b[k]) << (8 * uint(i))
	}
	return
}

// frame builds a frame with n bytes after the length field.
func (g geom) frame(n int, tag byte) []byte {
	b := make([]byte, g.off+g.w+n)
	for i := range b {
		b[i] = tag + byte(i)
	}
	g.putLen(b[g.off:], uint64(n-g.adj))
	return b
}

// parse is the reference: the frames of a whole stream, and whether it ends
// in a malformed header.
func (g geom) parse(s []byte) (out [][]byte, malformed bool) {
	end := g.off + g.w
	for len(s) >= end {
		v := g.getLen(s[g.off:])
		if g.w == 8 && int64(v) < 0 {
			return out, true
		}
		if v > 1<<62 {
			return out, true
		}
		total := int64(v) + int64(g.adj) + int64(end)
		if total < int64(end) || total < int64(g.strip) {
			return out, true
		}
		if uint64(total) > g.max {
			if total > int64(len(s)) {
				return out, false
			}
			s = s[total:]
			continue
		}
		if int64(len(s)) < total {
			return out, false
		}
		out = append(out, append([]byte{}, s[g.strip:total]...))
		s = s[total:]
	}
	return out, false
}

// feed runs the real decoder over the segments, through one reused read buffer.
func (g geom) feed(s []byte, cuts []int, want [][]byte, malformed bool) {
	d := zinterceptor.NewFrameDecoder(g.lf())
	buf := make([]byte, len(s)+1)
	var got [][]byte
	prev := 0
	panicked := interface{}(nil)
	for i := 0; i <= len(cuts); i++ {
		next := len(s)
		if i < len(cuts) {
			next = cuts[i]
		}
		n := copy(buf, s[prev:next])
		var fr [][]byte
		panicked = catch(func() { fr = d.Decode(buf[:n]) })
		if panicked != nil {
			break
		}
		got = append(got, fr...)
		// frames complete so far must have been delivered by now
		w, _ := g.parse(s[:next])
		if !malformed && len(got) != len(w) {
			mc.Fail("%v: stream %x cut at %v: after %d bytes %d frames were delivered, the stream holds %d", g, s, cuts, next, len(got), len(w))
		}
		for k := range buf {
			buf[k] = 0xEE
		}
		prev = next
	}
	if panicked != nil && !malformed {
		mc.Fail("%v: stream %x cut at %v: the decoder panicked: %v", g, s, cuts, panicked)
	}
	if len(got) > len(want) || !malformed && len(got) != len(want) {
		mc.Fail("%v: stream %x cut at %v: frames %x delivered, want %x", g, s, cuts, got, want)
	}
	for i := range got {
		if !bytes.Equal(got[i], want[i]) {
			mc.Fail("%v: stream %x cut at %v: frames %x delivered, want %x", g, s, cuts, got, want)
		}
	}
}

// allCuts calls f with every segmentation of n bytes into at most k+1 reads.
func allCuts(n, k int, f func([]int)) {
	var rec func(from int, cur []int)
	rec = func(from int, cur []int) {
		f(cur)
		if len(cur) == k {
			return
		}
		for i := from; i < n; i++ {
			rec(i+1, append(cur[:len(cur):len(cur)], i))
		}
	}
	rec(1, nil)
}

func everyByte(n int) []int {
	var c []int
	for i := 1; i < n; i++ {
		c = append(c, i)
	}
	return c
}

func pick(s ...int) int { return s[mc.Choose(len(s))] }

func frames1(order binary.ByteOrder, nf, kcuts int, full bool) func() {
	return func() {
		boot()
		g := geom{order: order}
		g.w = pick(1, 2, 3, 4, 8)
		g.off = pick(0, 1, 2)
		end := g.off + g.w
		g.adj = []int{0, 2, -end, -g.w, -1}[mc.Choose(5)]
		g.strip = []int{0, end, 1}[mc.Choose(3)]
		lim := 3 // largest body that fits
		g.max = uint64(end + lim)
		if mc.Choose(2) == 1 {
			g.max = 1 << 40
		}
		alpha := []int{0, 1, lim, lim + 1, lim + 3} // around the maximum
		if !full {
			alpha = []int{0, 2, lim + 2}
		}
		var s []byte
		var idx []int
		for i := 0; i < nf; i++ {
			n := alpha[mc.Choose(len(alpha))]
			if n < g.adj { // cannot be announced
				n = g.adj
			}
			idx = append(idx, n)
			s = append(s, g.frame(n, byte(0x10*(i+1)))...)
		}
		// an incomplete tail
		t := g.frame(2+g.adjMin(), 0x70)
		s = append(s, t[:len(t)-1]...)
		want, mal := g.parse(s)
		must(!mal, "harness: stream is malformed")
		n := int64(0)
		allCuts(len(s), kcuts, func(c []int) { g.feed(s, c, want, false); n++ })
		g.feed(s, everyByte(len(s)), want, false)
		mc.Count(n + 1)
		mc.Outcome("%v %d", idx, len(want))
	}
}

func (g geom) adjMin() int {
	if g.adj > 0 {
		return g.adj
	}
	return 0
}

// every stream of n bytes over a small alphabet: lengths of all kinds,
// including malformed ones, in every segmentation.
func streams(n int, alpha []byte) func() {
	return func() {
		boot()
		gs := []geom{
			{binary.BigEndian, 0, 1, 0, 0, 3},
			{binary.BigEndian, 0, 1, 0, 1, 4},
			{binary.BigEndian, 0, 1, -1, 0, 3}, // whole-message length
			{binary.BigEndian, 0, 1, -1, 1, 3},
			{binary.BigEndian, 0, 1, -2, 0, 4}, // lengths below the header possible
			{binary.BigEndian, 0, 1, 1, 2, 4},
			{binary.BigEndian, 1, 1, 0, 0, 5},
			{binary.BigEndian, 1, 1, -2, 2, 4},
			{binary.BigEndian, 1, 1, 0, 3, 6}, // strip more than an empty frame
			{binary.BigEndian, 0, 2, 0, 0, 5},
			{binary.LittleEndian, 0, 2, 0, 0, 5},
			{binary.BigEndian, 0, 2, -2, 2, 5},
			{binary.LittleEndian, 0, 3, 0, 0, 6},
			{binary.BigEndian, 0, 1, 0, 0, 1 << 40},
		}
		g := gs[mc.Choose(len(gs))]
		a, b2 := mc.Choose(len(alpha)), mc.Choose(len(alpha))
		s := make([]byte, n)
		s[0], s[1] = alpha[a], alpha[b2]
		total := 1
		for i := 2; i < n; i++ {
			total *= len(alpha)
		}
		k := int64(0)
		for x := 0; x < total; x++ {
			y := x
			for i := 2; i < n; i++ {
				s[i] = alpha[y%len(alpha)]
				y /= len(alpha)
			}
			want, mal := g.parse(s)
			for m := 0; m < 1<<uint(n-1); m++ {
				var c []int
				for i := 1; i < n; i++ {
					if m>>uint(i-1)&1 == 1 {
						c = append(c, i)
					}
				}
				g.feed(s, c, want, mal)
				k++
			}
		}
		mc.Count(k)
		mc.Outcome("ok")
	}
}

// long: a wide length field announcing sizes that overflow or go negative.
func badLengths() func() {
	return func() {
		boot()
		orders := []binary.ByteOrder{binary.BigEndian, binary.LittleEndian}
		g := geom{order: orders[mc.Choose(2)], w: 8, off: mc.Choose(2)}
		g.adj = []int{0, 5, -8, -9, -20}[mc.Choose(5)]
		g.strip = pick(0, 8)
		g.max = []uint64{20, 1 << 40, 1<<64 - 1}[mc.Choose(3)]
		vals := []uint64{0, 1, 3, 7, 8, 9, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1<<63 - 3, 1 << 63, 1<<64 - 1, 1<<64 - 8, 1<<64 - 9}
		v := vals[mc.Choose(len(vals))]
		s := append(make([]byte, g.off), make([]byte, 8)...)
		g.putLen(s[g.off:], v)
		s = append(s, []byte("abcdefghij")...)
		pre := g.frame(5+g.adjMin(), 0x20)
		s = append(pre, s...)
		want, mal := g.parse(s)
		if v > 1<<62 {
			mal = true // not announceable; anything but a frame or a hang
		}
		allCuts(len(s), 2, func(c []int) { g.feed(s, c, want, mal); mc.Count(1) })
		mc.Outcome("%v", mal)
	}
}

// bigLengths: lengths that use every byte of the length field.
func bigLengths() {
	boot()
	orders := []binary.ByteOrder{binary.BigEndian, binary.LittleEndian, nil}
	g := geom{order: orders[mc.Choose(3)], w: pick(1, 2, 3, 4, 8), off: pick(0, 3)}
	g.adj = pick(0, -g.w)
	end := g.off + g.w
	g.strip = pick(0, end)
	lens := []int{127, 128, 254, 255, 256, 258, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 66051}
	n := lens[mc.Choose(len(lens))]
	if g.w == 1 && n-g.adj > 255 || g.w == 2 && n-g.adj > 65535 {
		mc.Outcome("not announceable")
		return
	}
	g.max = []uint64{uint64(end + n), uint64(end + n - 1), 1 << 32}[mc.Choose(3)]
	s := append(append(g.frame(n, 1), g.frame(1, 0x30)...), g.frame(0, 0x50)...)
	want, _ := g.parse(s)
	for _, c := range [][]int{nil, {1}, {end - 1}, {end}, {end + 1}, {end + n - 1}, {end + n}, {end + n + 1}, {end, end + n}, {end - 1, end + n - 1}, {end + 5, end + 100}} {
		ok := true
		for _, x := range c {
			if x < 1 || x >= len(s) {
				ok = false
			}
		}
		if ok {
			g.feed(s, c, want, false)
			mc.Count(1)
		}
	}
	mc.Outcome("%d", len(want))
}

// tooLong: announced lengths far beyond the maximum swallow what follows.
func tooLong() {
	boot()
	orders := []binary.ByteOrder{binary.BigEndian, binary.LittleEndian, nil}
	g := geom{order: orders[mc.Choose(3)], w: pick(2, 3, 4, 8), off: pick(0, 1), max: 20}
	vals := []uint64{0x7fff, 0x8000, 0xffff, 0x7fffff, 0x800000, 0xffffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 1 << 40}
	v := vals[mc.Choose(len(vals))]
	if g.w < 8 && v>>(8*uint(g.w)) != 0 {
		mc.Outcome("not announceable")
		return
	}
	s := g.frame(3, 1)
	h := make([]byte, g.off+g.w)
	g.putLen(h[g.off:], v)
	s = append(s, h...)
	for i := 0; i < 4; i++ {
		s = append(s, g.frame(0, 0x30)...)
	}
	want, mal := g.parse(s)
	allCuts(len(s), 2, func(c []int) { g.feed(s, c, want, mal); mc.Count(1) })
	mc.Outcome("%d", len(want))
}

// byParams: the positional constructor means the same as the struct.
func byParams() {
	boot()
	g := geom{order: binary.BigEndian, w: pick(1, 2, 4), off: pick(0, 1), adj: pick(0, 1), strip: pick(0, 1, 2), max: 9}
	s := append(append(g.frame(3, 1), g.frame(7, 0x20)...), g.frame(1, 0x40)...)
	want, _ := g.parse(s)
	d := zinterceptor.NewFrameDecoderByParams(g.max, g.off, g.w, g.adj, g.strip)
	got := d.Decode(s)
	eq(fmt.Sprintf("%v frames", g), fmt.Sprintf("%x", got), fmt.Sprintf("%x", want))
	// two decoders do not share state
	d2 := zinterceptor.NewFrameDecoder(g.lf())
	d3 := zinterceptor.NewFrameDecoder(g.lf())
	d2.Decode(s[:1])
	eq("frames of an independent decoder", fmt.Sprintf("%x", d3.Decode(s)), fmt.Sprintf("%x", want))
	mc.Count(1)
	mc.Outcome("%d", len(want))
}

// ---- C02: codecs -----------------------------------------------------------------

var idAlpha = []uint32{0, 1, 2, 255, 256, 0x01020304, 0x7fffffff, 0x80000000, 0xffffffff}

func payload(n int, pat int) []byte {
	b := make([]byte, n)
	for i := range b {
		switch pat {
		case 0:
			b[i] = byte(i*7 + 1)
		case 1:
			b[i] = 0xff
		}
	}
	return b
}

func packs() {
	boot()
	kind := []string{ziface.ZinxDataPack, ziface.ZinxDataPackOld, "custom-unknown"}[mc.Choose(3)]
	le := kind == ziface.ZinxDataPackOld
	id := idAlpha[mc.Choose(len(idAlpha))]
	n := pick(0, 1, 2, 7, 8, 9, 63, 64, 65, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 70000)
	pat := mc.Choose(2)
	max := []uint32{0, 16, 256, 4096, 0xffffffff}[mc.Choose(5)]
	zconf.GlobalObject.MaxPacketSize = max
	dp := zpack.Factory().NewPack(kind)
	eq("head length", dp.GetHeadLen(), 8)
	body := payload(n, pat)
	in := append([]byte{}, body...)
	raw, err := dp.Pack(zpack.NewMsgPackage(id, in))
	must(err == nil, "pack failed: %v", err)
	want := make([]byte, 8)
	if le {
		binary.LittleEndian.PutUint32(want, uint32(n))
		binary.LittleEndian.PutUint32(want[4:], id)
	} else {
		binary.BigEndian.PutUint32(want, id)
		binary.BigEndian.PutUint32(want[4:], uint32(n))
	}
	want = append(want, body...)
	eqBytes("packed frame", raw, want)
	eqBytes("payload after packing", in, body)
	raw2, _ := dp.Pack(zpack.NewMsgPackage(id+1, payload(n, 1-pat)))
	eqBytes("packed frame after packing another", raw, want)
	_ = raw2
	for k := 0; k < 8; k++ {
		_, err := dp.Unpack(raw[:k])
		must(err != nil, "a header of %d bytes was unpacked", k)
		mc.Count(1)
	}
	for _, k := range []int{8, len(raw)} {
		m, err := dp.Unpack(raw[:k])
		if max > 0 && uint32(n) > max {
			must(err != nil, "a header announcing %d bytes was accepted although the maximum is %d", n, max)
			continue
		}
		must(err == nil && m != nil, "unpacking %d bytes under maximum %d failed: %v", n, max, err)
		eq("unpacked id", m.GetMsgID(), id)
		eq("unpacked length", m.GetDataLen(), n)
		mc.Count(1)
	}
	// announced lengths around the limit, with no payload at all
	for _, l := range []uint32{0, 1, max - 1, max, max + 1, max + 2, 0x7fffffff, 0x80000000, 0xffffffff} {
		h := append([]byte{}, want[:8]...)
		if le {
			binary.LittleEndian.PutUint32(h, l)
		} else {
			binary.BigEndian.PutUint32(h[4:], l)
		}
		m, err := dp.Unpack(h)
		if max > 0 && l > max {
			must(err != nil, "a header announcing %d bytes was accepted although the maximum is %d", l, max)
		} else {
			must(err == nil, "a header announcing %d bytes was refused although the maximum is %d: %v", l, max, err)
			eq("unpacked length", m.GetDataLen(), l)
			eq("unpacked id", m.GetMsgID(), id)
		}
		mc.Count(1)
	}
	mc.Outcome("ok")
}

type capture struct {
	id   uint32
	dlen uint32
	data []byte
	resp ziface.IcResp
	n    int
}

func (c *capture) Intercept(ch ziface.IChain) ziface.IcResp {
	r := ch.Request().(ziface.IRequest)
	m := r.GetMessage()
	c.id, c.dlen, c.data, c.resp = m.GetMsgID(), m.GetDataLen(), append([]byte{}, m.GetData()...), r.GetResponse()
	c.n++
	return ch.Proceed(ch.Request())
}

// through pushes a stream through frame decoder and codec as a connection does.
func through(dec ziface.IDecoder, fd ziface.IFrameDecoder, seg []byte) (out []capture, died interface{}) {
	died = catch(func() {
		for _, fr := range fd.Decode(seg) {
			c := &capture{}
			req := znet.NewRequest(nil, zpack.NewMessage(uint32(len(fr)), fr))
			zinterceptor.NewChain([]ziface.IInterceptor{dec, c}, 0, req).Proceed(req)
			if c.n > 1 {
				mc.Fail("the codec passed one frame on %d times", c.n)
			}
			if c.n == 1 {
				out = append(out, *c)
			}
		}
	})
	return
}

func tlvStream() {
	boot()
	le := mc.Choose(2) == 1
	var dec ziface.IDecoder
	var dp ziface.IDataPack
	if le {
		dec, dp = zdecoder.NewLTV_Little_Decoder(), zpack.NewDataPackLtv()
	} else {
		dec, dp = zdecoder.NewTLVDecoder(), zpack.NewDataPack()
	}
	id1, id2 := idAlpha[mc.Choose(len(idAlpha))], idAlpha[mc.Choose(len(idAlpha))]
	n1, n2 := pick(0, 1, 3, 8, 300), pick(0, 2, 9)
	b1, b2 := payload(n1, 0), payload(n2, 1)
	f1, _ := dp.Pack(zpack.NewMsgPackage(id1, b1))
	f2, _ := dp.Pack(zpack.NewMsgPackage(id2, b2))
	s := append(append([]byte{}, f1...), f2...)
	k := 2
	if len(s) > 60 {
		k = 1
	}
	allCuts(len(s), k, func(cuts []int) {
		fd := zinterceptor.NewFrameDecoder(*dec.GetLengthField())
		var got []capture
		prev := 0
		for _, c := range append(cuts[:len(cuts):len(cuts)], len(s)) {
			o, died := through(dec, fd, s[prev:c])
			must(died == nil, "decoding %x cut at %v panicked: %v", s, cuts, died)
			got = append(got, o...)
			prev = c
		}
		eq("messages decoded", len(got), 2)
		for i, w := range []struct {
			id uint32
			d  []byte
		}{{id1, b1}, {id2, b2}} {
			eq("decoded id", got[i].id, w.id)
			eq("decoded length", got[i].dlen, len(w.d))
			eqBytes("decoded data", got[i].data, w.d)
			switch r := got[i].resp.(type) {
			case zdecoder.TLVDecoder:
				eq("response tag", r.Tag, w.id)
				eq("response length", r.Length, len(w.d))
				eqBytes("response value", r.Value, w.d)
			case zdecoder.LTV_Little_Decoder:
				eq("response tag", r.Tag, w.id)
				eq("response length", r.Length, len(w.d))
				eqBytes("response value", r.Value, w.d)
			default:
				mc.Fail("unexpected response %T", r)
			}
		}
		mc.Count(1)
	})
	mc.Outcome("ok")
}

// crcRef is CRC-16/MODBUS computed bit by bit.
func crcRef(b []byte) []byte {
	c := uint16(0xffff)
	for _, x := range b {
		c ^= uint16(x)
		for i := 0; i < 8; i++ {
			if c&1 == 1 {
				c = c>>1 ^ 0xa001
			} else {
				c >>= 1
			}
		}
	}
	return []byte{byte(c), byte(c >> 8)}
}

func htlv(head, fn byte, body []byte) []byte {
	b := append([]byte{head, fn, byte(len(body))}, body...)
	return append(b, crcRef(b)...)
}

func crcAll() {
	boot()
	a := mc.Choose(128)
	for _, hi := range []byte{0, 128} {
		for y := 0; y < 256; y++ {
			in := []byte{byte(a) + hi, byte(y)}
			eqBytes(fmt.Sprintf("CRC of %x", in), zdecoder.GetCrC(in), crcRef(in))
			mc.Count(1)
		}
	}
	long := payload(a*3, 0)
	eqBytes("CRC of a long input", zdecoder.GetCrC(long), crcRef(long))
	c := crcRef(long)
	must(zdecoder.CheckCRC(long, c), "a correct CRC is rejected")
	must(!zdecoder.CheckCRC(long, []byte{c[0] ^ 1, c[1]}) && !zdecoder.CheckCRC(long, []byte{c[0], c[1] ^ 1}) && !zdecoder.CheckCRC(long, c[:1]) && !zdecoder.CheckCRC(long, nil), "a wrong CRC is accepted")
	mc.Outcome("ok")
}

func htlvCheck(got []capture, want [][]byte, what string) {
	eq(what+": messages delivered", len(got), len(want))
	for i, w := range want {
		eq(what+": id", got[i].id, w[1])
		eqBytes(what+": data", got[i].data, w)
		r, ok := got[i].resp.(zdecoder.HtlvCrcDecoder)
		must(ok, "%s: response is %T", what, got[i].resp)
		eq(what+": head", r.Head, w[0])
		eq(what+": function", r.Funcode, w[1])
		eq(what+": length", r.Length, w[2])
		eqBytes(what+": body", r.Body, w[3:len(w)-2])
		eqBytes(what+": crc", r.Crc, w[len(w)-2:])
		eqBytes(what+": raw", r.Data, w)
	}
}

func htlvStream() {
	boot()
	n := pick(0, 1, 2, 14, 100, 253, 254, 255)
	fn := byte(pick(0, 1, 0x10, 255))
	f1 := htlv(0xA2, fn, payload(n, mc.Choose(2)))
	f2 := htlv(0xA3, 7, payload(3, 0))
	s := append(append([]byte{}, f1...), f2...)
	allCuts(len(s), 1, func(cuts []int) {
		dec := zdecoder.NewHTLVCRCDecoder()
		fd := zinterceptor.NewFrameDecoder(*dec.GetLengthField())
		var got []capture
		prev := 0
		for _, c := range append(cuts[:len(cuts):len(cuts)], len(s)) {
			o, died := through(dec, fd, s[prev:c])
			must(died == nil, "decoding %x panicked: %v", s, died)
			got = append(got, o...)
			prev = c
		}
		htlvCheck(got, [][]byte{f1, f2}, fmt.Sprintf("stream of bodies %d and 3 cut at %v", n, cuts))
		mc.Count(1)
	})
	mc.Outcome("ok")
}

// htlvCorrupt: every value of every byte of a frame, then a good frame.
func htlvCorrupt() {
	boot()
	n := pick(0, 1, 2, 6)
	f1 := htlv(0xA2, 0x10, payload(n, 0))
	pos := mc.Choose(len(f1))
	f2 := htlv(0xA2, 0x11, payload(2, 1))
	for d := 1; d < 256; d++ {
		bad := append([]byte{}, f1...)
		bad[pos] ^= byte(d)
		s := append(append([]byte{}, bad...), f2...)
		// reference
		var want [][]byte
		t := s
		for len(t) >= 3 && len(t) >= int(t[2])+5 {
			f := t[:int(t[2])+5]
			if bytes.Equal(crcRef(f[:len(f)-2]), f[len(f)-2:]) {
				want = append(want, f)
			}
			t = t[len(f):]
		}
		dec := zdecoder.NewHTLVCRCDecoder()
		fd := zinterceptor.NewFrameDecoder(*dec.GetLengthField())
		got, died := through(dec, fd, s)
		must(died == nil, "a corrupted frame %x makes the codec panic: %v", bad, died)
		htlvCheck(got, want, fmt.Sprintf("byte %d of a frame corrupted by %02x", pos, d))
		mc.Count(1)
	}
	mc.Outcome("ok")
}

// shortMsgs: a codec handed less than a header passes it on or drops it.
func shortMsgs() {
	boot()
	mk := []func() ziface.IDecoder{zdecoder.NewTLVDecoder, zdecoder.NewLTV_Little_Decoder, zdecoder.NewHTLVCRCDecoder}[mc.Choose(3)]
	n := mc.Choose(8)
	dec := mk()
	if n >= 5 {
		if dec.GetLengthField().LengthFieldLength == 1 {
			n = 4
		}
	}
	d := payload(n, 0)
	c := &capture{}
	req := znet.NewRequest(nil, zpack.NewMessage(uint32(n), d))
	p := catch(func() {
		zinterceptor.NewChain([]ziface.IInterceptor{dec, c}, 0, req).Proceed(req)
	})
	must(p == nil, "a frame of %d bytes makes the codec panic: %v", n, p)
	if c.n == 1 {
		eqBytes("data passed on", c.data, d)
		must(c.resp == nil, "a frame shorter than a header was decoded into %v", c.resp)
	}
	mc.Outcome("%d", c.n)
}

func init() {
	for n, o := range map[string]binary.ByteOrder{"be": binary.BigEndian, "le": binary.LittleEndian, "default": nil} {
		add(&Scenario{Prop: "C01", Name: "C01/frames2-" + n, Q: data(), Body: frames1(o, 2, 2, true), Weight: 4, Bounds: "450 geometries x 25 pairs of frames around the maximum + an incomplete tail x every segmentation into at most 3 reads and byte by byte"})
		add(&Scenario{Prop: "C01", Name: "C01/frames3-" + n, Q: data(), Body: frames1(o, 3, 1, false), Weight: 4, Bounds: "450 geometries x 27 triples of frames + an incomplete tail x every segmentation into at most 2 reads and byte by byte"})
		add(&Scenario{Prop: "C01", Name: "C01/frames3full-" + n, T: data(), Body: frames1(o, 3, 2, true), Weight: 9, Bounds: "450 geometries x 125 triples of frames + an incomplete tail x every segmentation into at most 3 reads"})
		add(&Scenario{Prop: "C01", Name: "C01/frames2full-" + n, T: data(), Body: frames1(o, 2, 4, true), Weight: 9, Bounds: "450 geometries x 25 pairs of frames + an incomplete tail x every segmentation into at most 5 reads"})
	}
	add(&Scenario{Prop: "C01", Name: "C01/streams5", Q: data(), Body: streams(5, []byte{0, 1, 2, 3, 5}), Weight: 4, Bounds: "14 geometries x every stream of 5 bytes over {0,1,2,3,5} x every segmentation"})
	add(&Scenario{Prop: "C01", Name: "C01/streams6", Q: data(), Body: streams(6, []byte{0, 1, 3}), Weight: 4, Bounds: "14 geometries x every stream of 6 bytes over {0,1,3} x every segmentation"})
	add(&Scenario{Prop: "C01", Name: "C01/streams6full", T: data(), Body: streams(6, []byte{0, 1, 2, 3, 5, 255}), Weight: 9, Bounds: "14 geometries x every stream of 6 bytes over {0,1,2,3,5,255} x every segmentation"})
	add(&Scenario{Prop: "C01", Name: "C01/streams8", T: data(), Body: streams(8, []byte{0, 1, 3, 5}), Weight: 9, Bounds: "14 geometries x every stream of 8 bytes over {0,1,3,5} x every segmentation"})
	add(&Scenario{Prop: "C01", Name: "C01/badlengths", Q: data(), Body: badLengths(), Weight: 2, Bounds: "8-byte length fields with overflowing and negative values"})
	add(&Scenario{Prop: "C01", Name: "C01/biglengths", Q: data(), Body: bigLengths, Weight: 2, Bounds: "body lengths 127..66051 in fields of 1..8 bytes, cuts around every boundary"})
	add(&Scenario{Prop: "C01", Name: "C01/toolong", Q: data(), Body: tooLong, Weight: 2, Bounds: "announced lengths up to 2^40 beyond the maximum"})
	add(&Scenario{Prop: "C01", Name: "C01/byparams", Q: data(), Body: byParams, Bounds: "positional constructor, independence of decoders"})
	add(&Scenario{Prop: "C02", Name: "C02/packs", Q: data(), Body: packs, Weight: 3, Bounds: "3 pack kinds x 9 ids x 18 lengths x 2 patterns x 5 maxima, all header truncations"})
	add(&Scenario{Prop: "C02", Name: "C02/tlv", Q: data(), Body: tlvStream, Weight: 3, Bounds: "TLV and LTV, 81 id pairs x 15 length pairs x all segmentations into at most 3 reads"})
	add(&Scenario{Prop: "C02", Name: "C02/htlv", Q: data(), Body: htlvStream, Weight: 2, Bounds: "all boundary body lengths x every cut"})
	add(&Scenario{Prop: "C02", Name: "C02/htlv-corrupt", Q: data(), Body: htlvCorrupt, Weight: 2, Bounds: "every value of every byte of a frame"})
	add(&Scenario{Prop: "C02", Name: "C02/crc", Q: data(), Body: crcAll, Weight: 1, Bounds: "CRC of every two-byte string against a bitwise reference"})
	add(&Scenario{Prop: "C02", Name: "C02/short", Q: data(), Body: shortMsgs, Bounds: "frames of 0..7 bytes"})
}
