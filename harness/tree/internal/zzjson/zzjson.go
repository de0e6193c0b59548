// Package zzjson stands in for the JSON library in package http (the import is redirected, see
// engine/cmd/vc/rewrite.go): the library works by reflection on memory, which is beyond the
// encoding. The harness decides what a text means and what a model is written as; what is checked
// is everything around it.
package zzjson

import "io"

var (
	// OnRead is called with the whole text that is to be read into the model.
	OnRead func(data []byte, model any) error
	// OnWrite returns the pieces a model is written in.
	OnWrite func(model any) (pieces []string, err error)
)

type Config struct{}

var ConfigDefault = new(Config)

type Iterator struct {
	data  []byte
	Error error
}

func (*Config) BorrowIterator(data []byte) *Iterator { return &Iterator{data: data} }

// ReturnIterator forgets everything, as the library's pool does.
func (*Config) ReturnIterator(it *Iterator) { it.data, it.Error = nil, nil }

func (it *Iterator) ReadVal(model any) { it.Error = OnRead(it.data, model) }

type Stream struct {
	w     io.Writer
	buff  []byte
	Error error
}

func (*Config) BorrowStream(w io.Writer) *Stream { return &Stream{w: w} }

// ReturnStream forgets everything, as the library's pool does.
func (*Config) ReturnStream(s *Stream) {
	for i := range s.buff {
		s.buff[i] = '#'
	}
	s.w, s.buff, s.Error = nil, nil, nil
}

// WriteVal buffers the value; the pieces before the last one are flushed at once, as the library
// does when its buffer is full.
func (s *Stream) WriteVal(model any) {
	pieces, err := OnWrite(model)
	for i, p := range pieces {
		s.buff = append(s.buff[:0], p...)
		if i < len(pieces)-1 {
			s.Flush()
		}
	}
	s.Error = err
}

func (s *Stream) Flush() error {
	if s.Error != nil {
		return s.Error
	}
	_, err := s.w.Write(s.buff)
	for i := range s.buff {
		s.buff[i] = '#'
	}
	s.buff = s.buff[:0]
	return err
}

func (s *Stream) Buffer() []byte { return s.buff }

func Marshal(model any) ([]byte, error) {
	pieces, err := OnWrite(model)
	if err != nil {
		return nil, err
	}
	var b []byte
	for _, p := range pieces {
		b = append(b, p...)
	}
	return b, nil
}

func (*Config) Marshal(model any) ([]byte, error)        { return Marshal(model) }
func (*Config) Unmarshal(data []byte, model any) error   { return OnRead(data, model) }
func Unmarshal(data []byte, model any) error             { return OnRead(data, model) }

type Encoder struct{ w io.Writer }

func NewEncoder(w io.Writer) *Encoder { return &Encoder{w} }

func (e *Encoder) Encode(model any) error {
	b, err := Marshal(model)
	if err == nil {
		_, err = e.w.Write(b)
	}
	return err
}

type Decoder struct{ r io.Reader }

func NewDecoder(r io.Reader) *Decoder { return &Decoder{r} }

func (d *Decoder) Decode(model any) error {
	b, err := io.ReadAll(d.r)
	if err != nil {
		return err
	}
	return OnRead(b, model)
}
