// Package chunkedbody is a stand-in for github.com/indigo-web/chunkedbody (not available offline):
// an incremental decoder of the chunked transfer coding.
package chunkedbody

import (
	"errors"
	"io"
)

var (
	ErrBadRequest = errors.New("bad request")
	ErrTooLarge   = errors.New("too large")
)

type Settings struct {
	MaxChunkSize int64
}

func DefaultSettings() Settings { return Settings{MaxChunkSize: 131072} }

type state uint8

const (
	eLength state = iota
	eLengthDigits
	eExt
	eLengthLF
	eBody
	eBodyEnd
	eBodyEndLF
	eLast
	eLastLF
	eTrailer
	eTrailerLine
	eTrailerLineLF
	eTrailerEndLF
)

type Parser struct {
	settings Settings
	state    state
	left     int64
}

func NewParser(s Settings) *Parser { return &Parser{settings: s} }

// Parse returns the next piece of the body and what has not been consumed. io.EOF comes with the end of the body.
func (p *Parser) Parse(data []byte, trailer bool) (chunk, extra []byte, err error) {
	for i := 0; i < len(data); i++ {
		c := data[i]
		switch p.state {
		case eLength, eLengthDigits:
			d := unhex(c)
			switch {
			case d < 16:
				p.left = p.left<<4 | int64(d)
				if p.left > p.settings.MaxChunkSize {
					return p.fail(ErrTooLarge)
				}
				p.state = eLengthDigits
			case p.state == eLength:
				return p.fail(ErrBadRequest)
			case c == ';':
				p.state = eExt
			case c == '\r':
				p.state = eLengthLF
			case c == '\n':
				p.lengthDone(trailer)
			default:
				return p.fail(ErrBadRequest)
			}
		case eExt:
			if c == '\r' {
				p.state = eLengthLF
			} else if c == '\n' {
				p.lengthDone(trailer)
			}
		case eLengthLF:
			if c != '\n' {
				return p.fail(ErrBadRequest)
			}
			p.lengthDone(trailer)
		case eBody:
			rest := data[i:]
			if int64(len(rest)) >= p.left {
				n := int(p.left)
				p.left = 0
				p.state = eBodyEnd
				return rest[:n], rest[n:], nil
			}
			p.left -= int64(len(rest))
			return rest, nil, nil
		case eBodyEnd:
			if c == '\r' {
				p.state = eBodyEndLF
			} else if c == '\n' {
				p.state = eLength
			} else {
				return p.fail(ErrBadRequest)
			}
		case eBodyEndLF:
			if c != '\n' {
				return p.fail(ErrBadRequest)
			}
			p.state = eLength
		case eLast:
			if c == '\r' {
				p.state = eLastLF
			} else if c == '\n' {
				return p.done(data[i+1:])
			} else {
				return p.fail(ErrBadRequest)
			}
		case eLastLF, eTrailerEndLF:
			if c != '\n' {
				return p.fail(ErrBadRequest)
			}
			return p.done(data[i+1:])
		case eTrailer:
			if c == '\r' {
				p.state = eTrailerEndLF
			} else if c == '\n' {
				return p.done(data[i+1:])
			} else {
				p.state = eTrailerLine
			}
		case eTrailerLine:
			if c == '\n' {
				p.state = eTrailer
			}
		}
	}
	return nil, nil, nil
}

func (p *Parser) lengthDone(trailer bool) {
	switch {
	case p.left > 0:
		p.state = eBody
	case trailer:
		p.state = eTrailer
	default:
		p.state = eLast
	}
}

func (p *Parser) done(extra []byte) ([]byte, []byte, error) {
	p.state, p.left = eLength, 0
	return nil, extra, io.EOF
}

func (p *Parser) fail(err error) ([]byte, []byte, error) {
	p.state, p.left = eLength, 0
	return nil, nil, err
}

func unhex(c byte) byte {
	switch {
	case c >= '0' && c <= '9':
		return c - '0'
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10
	case c >= 'A' && c <= 'F':
		return c - 'A' + 10
	}
	return 255
}
