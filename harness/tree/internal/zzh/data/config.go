package data

import (
	"time"

	"github.com/indigo-web/indigo/config"
)

type setting struct {
	name string
	set  func(c *config.Config, v int64)
	get  func(c *config.Config) int64
}

var settings = []setting{
	{"URL.BufferSize.Default", func(c *config.Config, v int64) { c.URL.BufferSize.Default = int(v) }, func(c *config.Config) int64 { return int64(c.URL.BufferSize.Default) }},
	{"URL.BufferSize.Maximal", func(c *config.Config, v int64) { c.URL.BufferSize.Maximal = int(v) }, func(c *config.Config) int64 { return int64(c.URL.BufferSize.Maximal) }},
	{"URL.Query.PreAlloc", func(c *config.Config, v int64) { c.URL.Query.PreAlloc = int(v) }, func(c *config.Config) int64 { return int64(c.URL.Query.PreAlloc) }},
	{"Headers.Number.Default", func(c *config.Config, v int64) { c.Headers.Number.Default = int(v) }, func(c *config.Config) int64 { return int64(c.Headers.Number.Default) }},
	{"Headers.Number.Maximal", func(c *config.Config, v int64) { c.Headers.Number.Maximal = int(v) }, func(c *config.Config) int64 { return int64(c.Headers.Number.Maximal) }},
	{"Headers.MaxKeyLength", func(c *config.Config, v int64) { c.Headers.MaxKeyLength = int(v) }, func(c *config.Config) int64 { return int64(c.Headers.MaxKeyLength) }},
	{"Headers.MaxValueLength", func(c *config.Config, v int64) { c.Headers.MaxValueLength = int(v) }, func(c *config.Config) int64 { return int64(c.Headers.MaxValueLength) }},
	{"Headers.KeySpace.Default", func(c *config.Config, v int64) { c.Headers.KeySpace.Default = int(v) }, func(c *config.Config) int64 { return int64(c.Headers.KeySpace.Default) }},
	{"Headers.KeySpace.Maximal", func(c *config.Config, v int64) { c.Headers.KeySpace.Maximal = int(v) }, func(c *config.Config) int64 { return int64(c.Headers.KeySpace.Maximal) }},
	{"Headers.ValueSpace.Default", func(c *config.Config, v int64) { c.Headers.ValueSpace.Default = int(v) }, func(c *config.Config) int64 { return int64(c.Headers.ValueSpace.Default) }},
	{"Headers.ValueSpace.Maximal", func(c *config.Config, v int64) { c.Headers.ValueSpace.Maximal = int(v) }, func(c *config.Config) int64 { return int64(c.Headers.ValueSpace.Maximal) }},
	{"Headers.MaxEncodingTokens", func(c *config.Config, v int64) { c.Headers.MaxEncodingTokens = int(v) }, func(c *config.Config) int64 { return int64(c.Headers.MaxEncodingTokens) }},
	{"Headers.CookiesPreAllocate", func(c *config.Config, v int64) { c.Headers.CookiesPreAllocate = int(v) }, func(c *config.Config) int64 { return int64(c.Headers.CookiesPreAllocate) }},
	{"Body.MaxSize", func(c *config.Config, v int64) { c.Body.MaxSize = uint(v) }, func(c *config.Config) int64 { return int64(c.Body.MaxSize) }},
	{"Body.MaxChunkSize", func(c *config.Config, v int64) { c.Body.MaxChunkSize = int64(v) }, func(c *config.Config) int64 { return int64(c.Body.MaxChunkSize) }},
	{"Body.DecodingBufferSize", func(c *config.Config, v int64) { c.Body.DecodingBufferSize = int64(v) }, func(c *config.Config) int64 { return int64(c.Body.DecodingBufferSize) }},
	{"HTTP.ResponseBuffSize", func(c *config.Config, v int64) { c.HTTP.ResponseBuffSize = int(v) }, func(c *config.Config) int64 { return int64(c.HTTP.ResponseBuffSize) }},
	{"HTTP.FileBuffSize", func(c *config.Config, v int64) { c.HTTP.FileBuffSize = int(v) }, func(c *config.Config) int64 { return int64(c.HTTP.FileBuffSize) }},
	{"TCP.ReadBufferSize", func(c *config.Config, v int64) { c.TCP.ReadBufferSize = int(v) }, func(c *config.Config) int64 { return int64(c.TCP.ReadBufferSize) }},
	{"TCP.ReadTimeout", func(c *config.Config, v int64) { c.TCP.ReadTimeout = time.Duration(v) }, func(c *config.Config) int64 { return int64(c.TCP.ReadTimeout) }},
}
