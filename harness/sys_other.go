//go:build !linux

package main

import "time"

// Where there are no threads to watch.

func gettid() int { return 0 }

func threadTime() time.Duration { return 0 }

func setupMem() {}
