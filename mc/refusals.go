package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"

	"github.com/fdymylja/tmos/runtime"
	rterr "github.com/fdymylja/tmos/runtime/errors"
	"github.com/fdymylja/tmos/runtime/orm"
	"github.com/fdymylja/tmos/runtime/orm/schema"
)

// refusals are the kinds of errors a step can fail with.
var refusals = []struct {
	name string
	mk   func(text string) error
}{
	{"plain", func(t string) error { return errors.New(t) }},
	{"not found", func(t string) error { return fmt.Errorf("%w: %s", rterr.ErrNotFound, t) }},
	{"already exists", func(t string) error { return fmt.Errorf("%w: %s", rterr.ErrAlreadyExists, t) }},
	{"bad request", func(t string) error { return fmt.Errorf("%s: %w", t, rterr.ErrBadRequest) }},
	{"condition", func(t string) error { return rterr.ErrConditionNotMet }},
	{"unauthorized", func(t string) error { return fmt.Errorf("%w: %s", rterr.ErrUnauthorized, t) }},
	{"orm not found", func(t string) error { return fmt.Errorf("%s: %w", t, orm.ErrNotFound) }},
	{"orm already exists", func(t string) error { return fmt.Errorf("%s: %w", t, orm.ErrAlreadyExists) }},
	{"schema not found", func(t string) error { return schema.ErrNotFound }},
	{"schema already exists", func(t string) error { return schema.ErrAlreadyExists }},
	{"no handler", func(t string) error { return fmt.Errorf("%w: %s", runtime.ErrTransitionNotFound, t) }},
	{"registered", func(t string) error { return runtime.ErrTransitionAlreadyRegistered }},
	{"empty text", func(t string) error { return errors.New("") }},
	{"joined", func(t string) error { return errors.Join(rterr.ErrNotFound, errors.New(t)) }},
	{"canceled", func(t string) error { return context.Canceled }},
	{"deadline", func(t string) error { return context.DeadlineExceeded }},
	{"end of file", func(t string) error { return io.EOF }},
	{"own type", func(t string) error { return ownError{} }},
	{"pointer type", func(t string) error { return (*ownPtrError)(nil) }},
}

type ownError struct{}

func (ownError) Error() string   { return "" }
func (ownError) Is(error) bool   { return true }
func (ownError) Timeout() bool   { return true }
func (ownError) Temporary() bool { return true }

type ownPtrError struct{}

func (*ownPtrError) Error() string { return "nil pointer, but an error" }

// refusal is the error of a kind; kind -1 is a plain one.
func refusal(kind int, text string) error {
	if kind < 0 {
		kind = 0
	}
	return refusals[kind].mk(text)
}

// splitMode splits "mode~kind".
func splitMode(m string) (string, int) {
	if i := strings.IndexByte(m, '~'); i >= 0 {
		k, err := strconv.Atoi(m[i+1:])
		if err == nil && k < len(refusals) {
			return m[:i], k
		}
	}
	return m, -1
}
