//go:build !linux

package main

import (
	"errors"
	"os"
)

func getwd() (string, error) { return os.Getwd() }
func signals() string        { return "" }

func watchEffects(dir string, filter bool) (*effectsState, error) {
	return nil, errors.New("effects are watched on linux/amd64 only")
}
