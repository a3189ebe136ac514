//go:build go1.22

package store

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"syscall"
)

var ErrInjected = errors.New("storage: injected failure")

// Injected is the error of one failing call. It may be about another error, or
// have a text of its own.
type Injected struct {
	Method string
	Call   int
	about  error
	text   *string
}

func (e *Injected) Error() string {
	if e.text != nil {
		return *e.text
	}
	if e.about != nil {
		return "storage: " + e.about.Error()
	}
	return fmt.Sprintf("storage: injected failure of call %d (%s)", e.Call, e.Method)
}

func (e *Injected) Is(target error) bool { return target == ErrInjected }
func (e *Injected) Unwrap() error        { return e.about }

// passing is an error of the kind networks have.
type passing struct{ Injected }

func (e *passing) Timeout() bool   { return true }
func (e *passing) Temporary() bool { return true }

// several is an error that cannot be compared by ==.
type several []error

func (e several) Error() string { return "storage: several failures" }
func (e several) Is(target error) bool {
	if t, ok := target.(several); ok {
		return &t[0] == &e[0]
	}
	return target == ErrInjected
}
func (e several) Unwrap() []error { return e }

var sentinels = []error{
	io.EOF, fs.ErrNotExist, context.Canceled, context.DeadlineExceeded, fs.ErrExist, io.ErrUnexpectedEOF,
	fs.ErrClosed, fs.ErrPermission, os.ErrDeadlineExceeded, syscall.EINTR, syscall.EAGAIN, syscall.ENOENT, syscall.ENOSPC, io.ErrNoProgress,
}

var wordings = []string{
	"not found", "unknown node", "no such node", "already exists", "duplicate key", "timeout", "try again",
	"", "EOF", "node 1 has no targets", "temporarily unavailable", "locked", "empty", "%!s(MISSING)",
}

// errKinds is a prime, so that the kinds go round among the calls of an
// operation.
const errKinds = 41

// newError makes the error of a failing call: of the library's errors a
// storage would pass on, as themselves or wrapped, with texts that say
// different things, and of types that behave differently.
func newError(kind int, method string, call int) error {
	e := Injected{Method: method, Call: call}
	switch kind %= errKinds; {
	case kind < 4:
		return &e
	case kind < 4+len(sentinels):
		e.about = sentinels[kind-4]
		return &e
	case kind < 18+len(wordings):
		e.text = &wordings[kind-18]
		return &e
	case kind < 36:
		return sentinels[kind-32]
	case kind < 38:
		return &passing{e}
	case kind < 39:
		return several{&e, io.EOF}
	case kind < 40:
		return errors.Join(&e, fs.ErrNotExist)
	}
	return fmt.Errorf("storage: %w", &e)
}

// thrown is what a call panics with.
func thrown(kind int, err error) interface{} {
	switch kind % 7 {
	case 0:
		return "storage: " + err.Error()
	case 1:
		return kind
	case 2:
		return someRuntimeError
	case 3:
		return &struct{ kind int }{kind}
	case 4:
		return struct{ kind int }{kind}
	}
	if _, ok := err.(several); ok {
		return kind
	}
	return err
}

var someRuntimeError = func() (x interface{}) {
	defer func() { x = recover() }()
	var l []int
	return l[len(sentinels)]
}()
