// Package buffer is a stand-in for github.com/indigo-web/utils/buffer (not available offline):
// a growing arena of at most max bytes, written in segments.
package buffer

type Buffer struct {
	memory  []byte
	begin   int
	maxSize int
}

func New(initial, max int) *Buffer {
	return &Buffer{memory: make([]byte, 0, initial), maxSize: max}
}

// Append adds data to the current segment; false when the limit would be exceeded.
func (b *Buffer) Append(elements []byte) bool {
	if len(b.memory)+len(elements) > b.maxSize {
		return false
	}
	b.memory = append(b.memory, elements...)
	return true
}

func (b *Buffer) AppendByte(c byte) bool {
	if len(b.memory)+1 > b.maxSize {
		return false
	}
	b.memory = append(b.memory, c)
	return true
}

func (b *Buffer) AppendBytes(elements ...byte) bool { return b.Append(elements) }

// SegmentLength is the size of the unfinished segment.
func (b *Buffer) SegmentLength() int { return len(b.memory) - b.begin }

// Trunc cuts n bytes off the current segment.
func (b *Buffer) Trunc(n int) {
	if n > b.SegmentLength() {
		n = b.SegmentLength()
	}
	b.memory = b.memory[:len(b.memory)-n]
}

// Discard drops the current segment, keeping its first n bytes.
func (b *Buffer) Discard(n int) { b.memory = b.memory[:b.begin+n] }

// Preview returns the current segment without completing it.
func (b *Buffer) Preview() []byte { return b.memory[b.begin:] }

// Finish completes and returns the current segment.
func (b *Buffer) Finish() []byte {
	seg := b.memory[b.begin:]
	b.begin = len(b.memory)
	return seg
}

// Clear forgets everything (the memory is reused).
func (b *Buffer) Clear() {
	b.begin = 0
	b.memory = b.memory[:0]
}
