package main

func setup() {
	register("C01", []string{"normal+", "normal-", "subnormal+", "subnormal-", "zero+", "zero-", "inf+", "inf-", "nan+", "nan-"}, decodeStream(libBF, 16, 16, 0))
	register("C02", []string{"normal+", "normal-", "subnormal+", "subnormal-", "zero+", "zero-", "inf+", "inf-", "nan+", "nan-"}, decodeStream(lib16, 16, 16, 0))
	register("C03", []string{"normal+", "normal-", "subnormal+", "subnormal-", "zero+", "zero-", "inf+", "inf-", "nan+", "nan-"}, decodeStream(lib128, 64, 1600, 12000))
	register("C04", []string{"normal+", "normal-", "subnormal+", "subnormal-", "zero+", "zero-", "inf+", "inf-", "nan+", "nan-", "pseudo-denormal+", "unnormal+", "pseudo-nan+", "pseudo-denormal-", "unnormal-", "pseudo-nan-"}, decodeStream(libX87, 64, 1600, 12000))
	register("C05", []string{"normalised+", "normalised-", "wide+", "wide-", "unnormalised+", "high-only+", "low-only+", "cancelled+", "cancelled-", "zero+", "zero-", "inf+", "inf-", "nan+", "nan-"},
		decodeStream(libPPC, 64, 1600, 16000),
		&Stream{Name: "isnan-float128ppc", Quick: 8, Thorough: 64, Run: func(c *C) {
			for i := 0; i < 20000; i++ {
				p := genPPC(c.RNG, dicts["float128ppc"])
				if c.OneIn(4) {
					p = patOfKind(c.RNG, libPPC, c.N(3), c.Bool())
				}
				checkPPCIsNaN(c, p)
			}
		}})
	register("C06", []string{"binary16 nan+", "binary128 nan-", "float80x86 unnormal+", "float128ppc nan+", "bfloat nan+"},
		fieldStream(libBF, 8, 8, 0), fieldStream(lib16, 8, 8, 0), fieldStream(lib128, 32, 320, 20000), fieldStream(libX87, 32, 320, 20000), fieldStream(libPPC, 32, 320, 20000))

	encNeed := []string{"exact", "up", "down", "tie-up", "tie-down", "tie-up-carry", "sub-exact", "sub-up", "sub-down", "sub-tie-up", "sub-tie-down",
		"sub-tie-up-to-normal", "sub-tie-down-to-zero", "sub-down-to-zero", "underflow-far", "overflow-far", "overflow-tie-up-carry", "overflow-up-carry", "zero", "inf"}
	register("C07", encNeed, encodeStream(lib16, 64, 2000, 16000), edgeStream(lib16, 8, 64, checkEncode))
	register("C08", encNeed, encodeStream(lib128, 64, 2000, 12000), edgeStream(lib128, 64, 640, checkEncode))
	register("C09", encNeed, encodeStream(libX87, 64, 2000, 12000), edgeStream(libX87, 64, 640, checkEncode))
	register("C10", []string{"hi-exact/lo-none", "hi-up/lo-exact", "hi-down/lo-exact", "hi-tie-up/lo-exact", "hi-down/lo-tie-down", "hi-down/lo-tie-up", "hi-up/lo-up", "hi-overflow-far", "hi-overflow-tie-up-carry", "hi-zero", "hi-inf", "hi-underflow-far/lo-underflow-far"},
		encodeStream(libPPC, 64, 2000, 12000), edgeStream(libPPC, 16, 160, checkEncode))

	var acc []*Stream
	for _, l := range encLibs {
		acc = append(acc, accBigStream(l, 32, 800, 8000), accNativeStream(l, 16, 160, 8000))
		e := edgeStream(l, 16, 160, checkAccBig)
		e.Name = "acc-" + e.Name
		acc = append(acc, e)
	}
	register("C11", []string{"binary16 big Above overflow-far", "binary16 big Below overflow-far", "binary16 f64 Below down", "binary16 f64 Above up", "binary16 f32 Above up",
		"binary128 big Below sub-down-to-zero", "float80x86 big Above up", "float80x86 f64 Exact exact", "float128ppc big Below hi-down/lo-down", "float128ppc big Above hi-down/lo-up"}, acc...)

	var nat []*Stream
	for _, l := range encLibs {
		nat = append(nat, nativeStream(l, 24, 240, 10000))
	}
	nat = append(nat, exhaustiveF32)
	register("C12", []string{"binary16 f64 nan", "binary16 f32 nan", "binary16 f64 tie-up", "binary16 f64 sub-tie-down", "binary16 f32 sub-tie-up", "binary16 f32 overflow-tie-up-carry", "binary128 f64 exact", "float80x86 f32 exact", "float128ppc f64 hi-sub-exact/lo-none"}, nat...)

	var nar, rt, tot, ord []*Stream
	for _, l := range encLibs {
		nar = append(nar, narrowStream(l, 32, 640, 6000))
		rt = append(rt, roundTripStream(l, 32, 640, 8000))
		ord = append(ord, orderStream(l, 32, 640, 800))
	}
	for _, l := range allLibs {
		tot = append(tot, totalityStream(l, 24, 320, 4000))
	}
	register("C13", []string{"binary128 float64 tie-up", "binary128 float64 sub-tie-down", "binary128 float32 overflow-far", "float80x86 float64 tie-up", "float80x86 float32 sub-up", "binary16 float32 exact", "float128ppc float64 tie-up", "float128ppc float32 overflow-far", "float128ppc nan", "binary128 nan"}, nar...)
	register("C14", []string{"binary16 subnormal-", "binary128 subnormal+", "float80x86 subnormal+", "float80x86 pseudo-denormal+", "float80x86 unnormal+", "float128ppc normalised+", "float128ppc wide-"}, rt...)
	register("C15", []string{"NaN true float128ppc", "Inf true float128ppc", "zero true binary16", "NaN true float80x86", "kept encode", "kept decode", "kept format", "twins refused"},
		&Stream{Name: "exported-kept", Quick: 192, Thorough: 1280, Run: func(c *C) {
			for i := 0; i < 4000; i++ {
				checkExportedKept(c)
			}
			checkExported(c)
		}},
		&Stream{Name: "special-chains", Quick: 32, Thorough: 640, Run: func(c *C) {
			checkExported(c)
			for i := 0; i < 8000; i++ {
				specialChain(c)
			}
			checkExported(c)
		}})
	register("C16", []string{"binary16.NewFromBig mode2 acc1 form1", "float128ppc.NewFromBig mode0 acc0 form1", "float128ppc.NewFromBig mode2 acc-1 form1", "IsExact16 mode0 acc0 form1", "IsExact64 mode0 acc0 form1", "append0"},
		&Stream{Name: "arguments", Quick: 32, Thorough: 640, Run: func(c *C) {
			for i := 0; i < 10000; i++ {
				checkImmutable(c)
			}
		}},
		&Stream{Name: "append-prefix", Quick: 8, Thorough: 64, Run: func(c *C) {
			for i := 0; i < 10000; i++ {
				checkAppendPrefix(c)
			}
		}})
	register("C17", []string{"op0 fresh=false", "op1 fresh=false", "op4 fresh=false", "op5 fresh=false"},
		&Stream{Name: "history", Quick: 160, Thorough: 4000, Run: historyChunk})
	register("C27", []string{"binary16 tie-up", "binary128 sub-tie-up", "float80x86 overflow-far", "float128ppc hi-down/lo-down"}, ord...)
	setupFmt(tot)
	setupTwins()
	setupMeta()
	setupPlain()
	setupMem()
	setupConc()
	setupExt()
	setupConfigs()
	setupEffects()
}
