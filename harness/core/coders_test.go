package core

import (
	"errors"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/extension/middleware/coder"
	"github.com/lesismal/arpc/extension/middleware/coder/gzip"
	"github.com/lesismal/arpc/extension/middleware/coder/msgpack"
	"github.com/lesismal/arpc/extension/middleware/coder/tracing"

	"verif/harness/vkit"
)

const appendKey = "vk"

func newAppender() arpc.MessageCoder {
	return coder.NewAppender(appendKey, 1,
		func(v interface{}) ([]byte, error) {
			s, ok := v.(string)
			if !ok || s == "bad" {
				return nil, errors.New("cannot be attached")
			}
			return []byte(s), nil
		},
		func(b []byte) (interface{}, error) { return string(b), nil })
}

func init() {
	vkit.CoderFactory["gzip0"] = func() arpc.MessageCoder { return gzip.New(0) }
	vkit.CoderFactory["gzip100"] = func() arpc.MessageCoder { return gzip.New(100) }
	vkit.CoderFactory["msgpack"] = func() arpc.MessageCoder { return msgpack.New() }
	vkit.CoderFactory["append"] = newAppender
	vkit.CoderFactory["tracing"] = func() arpc.MessageCoder { return tracing.NewTracer(nil) }
}
