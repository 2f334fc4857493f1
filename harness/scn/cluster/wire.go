package cluster

import (
	"context"

	gproto "google.golang.org/protobuf/proto"
	"reduction.dev/reduction-protocol/handlerpb"
	"reduction.dev/reduction/proto"
)

// wire returns what the other side of a connection gets of a message: a copy, with
// nil in the place of empty bytes.
func wire[T gproto.Message](m T) T {
	b, err := gproto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		panic(err)
	}
	c := m.ProtoReflect().New().Interface().(T)
	if err := gproto.Unmarshal(b, c); err != nil {
		panic(err)
	}
	return c
}

func wires[T gproto.Message](ms []T) []T {
	var out []T
	for _, m := range ms {
		out = append(out, wire(m))
	}
	return out
}

// wireHandler is a user handler behind a connection.
type wireHandler struct{ h proto.Handler }

func (w wireHandler) KeyEventBatch(ctx context.Context, events [][]byte) ([][]*handlerpb.KeyedEvent, error) {
	in := make([][]byte, len(events))
	for i, b := range events {
		in[i] = append([]byte{}, b...)
	}
	res, err := w.h.KeyEventBatch(ctx, in)
	if err != nil {
		return nil, err
	}
	out := make([][]*handlerpb.KeyedEvent, len(res))
	for i, evs := range res {
		out[i] = wires(evs)
	}
	return out, nil
}

func (w wireHandler) ProcessEventBatch(ctx context.Context, req *handlerpb.ProcessEventBatchRequest) (*handlerpb.ProcessEventBatchResponse, error) {
	resp, err := w.h.ProcessEventBatch(ctx, wire(req))
	if err != nil {
		return nil, err
	}
	return wire(resp), nil
}
