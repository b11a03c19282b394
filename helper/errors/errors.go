// Package errors stands in for github.com/pkg/errors, which cannot be fetched
// here; the vector generators use it to wrap errors.
package errors

import (
	"errors"
	"fmt"
)

func New(msg string) error                            { return errors.New(msg) }
func Errorf(format string, args ...interface{}) error { return fmt.Errorf(format, args...) }
func WithStack(err error) error                       { return err }
func Wrap(err error, msg string) error                { return WithMessage(err, msg) }
func Wrapf(err error, f string, args ...interface{}) error {
	return WithMessage(err, fmt.Sprintf(f, args...))
}
func Cause(err error) error { return err }
func WithMessage(err error, msg string) error {
	if err == nil {
		return nil
	}
	return fmt.Errorf("%s: %v", msg, err)
}
