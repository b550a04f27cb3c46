package main

import (
	"bytes"
	"encoding/binary"
	"hash/crc32"
	"math/rand"
)

// makeImage makes the smallest useful file of a format with the given size,
// followed by random payload so that every image has its own bytes.
func makeImage(r *rand.Rand, format string, w, h int) []byte {
	var b bytes.Buffer
	be := func(n int, v uint32) {
		for i := n - 1; i >= 0; i-- {
			b.WriteByte(byte(v >> (8 * i)))
		}
	}
	switch format {
	case "png":
		b.WriteString("\x89PNG\r\n\x1a\n")
		be(4, 13)
		var hd bytes.Buffer
		hd.WriteString("IHDR")
		_ = binary.Write(&hd, binary.BigEndian, uint32(w))
		_ = binary.Write(&hd, binary.BigEndian, uint32(h))
		hd.Write([]byte{8, 2, 0, 0, 0})
		b.Write(hd.Bytes())
		be(4, crc32.ChecksumIEEE(hd.Bytes()))
	case "gif":
		b.WriteString([]string{"GIF89a", "GIF87a"}[r.Intn(2)])
		_ = binary.Write(&b, binary.LittleEndian, uint16(w))
		_ = binary.Write(&b, binary.LittleEndian, uint16(h))
		b.Write([]byte{0x80, 0, 0, 0, 0, 0, 255, 255, 255})
	case "jpeg":
		b.Write([]byte{0xff, 0xd8, 0xff, 0xe0})
		be(2, 16)
		b.WriteString("JFIF\x00\x01\x01\x00\x00\x01\x00\x01\x00\x00")
		b.Write([]byte{0xff, []byte{0xc0, 0xc2}[r.Intn(2)]})
		be(2, 17)
		b.WriteByte(8)
		be(2, uint32(h))
		be(2, uint32(w))
		b.Write([]byte{3, 1, 0x22, 0, 2, 0x11, 1, 3, 0x11, 1})
		b.Write([]byte{0xff, 0xda})
	case "webp": // VP8X
		var p bytes.Buffer
		p.WriteString("WEBPVP8X")
		_ = binary.Write(&p, binary.LittleEndian, uint32(10))
		p.Write([]byte{0, 0, 0, 0, byte(w - 1), byte((w - 1) >> 8), byte((w - 1) >> 16), byte(h - 1), byte((h - 1) >> 8), byte((h - 1) >> 16)})
		b.WriteString("RIFF")
		n := 8 + r.Intn(64)
		_ = binary.Write(&b, binary.LittleEndian, uint32(p.Len()+n))
		b.Write(p.Bytes())
		tail := make([]byte, n)
		r.Read(tail)
		b.Write(tail)
		return b.Bytes()
	}
	tail := make([]byte, 8+r.Intn(200))
	r.Read(tail)
	b.Write(tail)
	return b.Bytes()
}

// similar gives another picture of the same size in bytes and in pixels, which
// differs only at the end.
func similar(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	b[len(b)-1-r.Intn(2)] ^= byte(1 + r.Intn(255))
	return b
}

// larger makes a picture of some ten thousand bytes or more out of a small one.
func larger(r *rand.Rand, b []byte) []byte {
	n := []int{1 << 12, 1 << 15, 1 << 16, 1<<16 + 1, 100000, 1 << 18}[r.Intn(6)] - r.Intn(3) - len(b)
	if n <= 0 {
		return b
	}
	tail := make([]byte, n)
	r.Read(tail)
	return append(append([]byte(nil), b...), tail...)
}

var imageFormats = []string{"png", "jpeg", "gif", "webp"}
