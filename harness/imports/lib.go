//go:build lib

package main

import (
	_ "github.com/mewmew/float"
	_ "github.com/mewmew/float/bfloat"
	_ "github.com/mewmew/float/binary128"
	_ "github.com/mewmew/float/binary16"
	_ "github.com/mewmew/float/float128ppc"
	_ "github.com/mewmew/float/float80x86"
)
