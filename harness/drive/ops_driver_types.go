package main

import bbs "github.com/Ptt-official-app/go-bbs"

// connector is a connector which supports what its driver supports, and nothing else.
// One type for every set of capabilities, since a type either has a method or has not.
func connector(d *drv) bbs.Connector {
	switch d.p.caps {
	case "":
		return &struct {
			*drv
		}{d}
	case "n":
		return &struct {
			*drv
			partN
		}{d, partN{d}}
	case "b":
		return &struct {
			*drv
			partB
		}{d, partB{d}}
	case "nb":
		return &struct {
			*drv
			partN
			partB
		}{d, partN{d}, partB{d}}
	case "a":
		return &struct {
			*drv
			partA
		}{d, partA{d}}
	case "na":
		return &struct {
			*drv
			partN
			partA
		}{d, partN{d}, partA{d}}
	case "ba":
		return &struct {
			*drv
			partB
			partA
		}{d, partB{d}, partA{d}}
	case "nba":
		return &struct {
			*drv
			partN
			partB
			partA
		}{d, partN{d}, partB{d}, partA{d}}
	case "u":
		return &struct {
			*drv
			partU
		}{d, partU{d}}
	case "nu":
		return &struct {
			*drv
			partN
			partU
		}{d, partN{d}, partU{d}}
	case "bu":
		return &struct {
			*drv
			partB
			partU
		}{d, partB{d}, partU{d}}
	case "nbu":
		return &struct {
			*drv
			partN
			partB
			partU
		}{d, partN{d}, partB{d}, partU{d}}
	case "au":
		return &struct {
			*drv
			partA
			partU
		}{d, partA{d}, partU{d}}
	case "nau":
		return &struct {
			*drv
			partN
			partA
			partU
		}{d, partN{d}, partA{d}, partU{d}}
	case "bau":
		return &struct {
			*drv
			partB
			partA
			partU
		}{d, partB{d}, partA{d}, partU{d}}
	case "nbau":
		return &struct {
			*drv
			partN
			partB
			partA
			partU
		}{d, partN{d}, partB{d}, partA{d}, partU{d}}
	case "c":
		return &struct {
			*drv
			partC
		}{d, partC{d}}
	case "nc":
		return &struct {
			*drv
			partN
			partC
		}{d, partN{d}, partC{d}}
	case "bc":
		return &struct {
			*drv
			partB
			partC
		}{d, partB{d}, partC{d}}
	case "nbc":
		return &struct {
			*drv
			partN
			partB
			partC
		}{d, partN{d}, partB{d}, partC{d}}
	case "ac":
		return &struct {
			*drv
			partA
			partC
		}{d, partA{d}, partC{d}}
	case "nac":
		return &struct {
			*drv
			partN
			partA
			partC
		}{d, partN{d}, partA{d}, partC{d}}
	case "bac":
		return &struct {
			*drv
			partB
			partA
			partC
		}{d, partB{d}, partA{d}, partC{d}}
	case "nbac":
		return &struct {
			*drv
			partN
			partB
			partA
			partC
		}{d, partN{d}, partB{d}, partA{d}, partC{d}}
	case "uc":
		return &struct {
			*drv
			partU
			partC
		}{d, partU{d}, partC{d}}
	case "nuc":
		return &struct {
			*drv
			partN
			partU
			partC
		}{d, partN{d}, partU{d}, partC{d}}
	case "buc":
		return &struct {
			*drv
			partB
			partU
			partC
		}{d, partB{d}, partU{d}, partC{d}}
	case "nbuc":
		return &struct {
			*drv
			partN
			partB
			partU
			partC
		}{d, partN{d}, partB{d}, partU{d}, partC{d}}
	case "auc":
		return &struct {
			*drv
			partA
			partU
			partC
		}{d, partA{d}, partU{d}, partC{d}}
	case "nauc":
		return &struct {
			*drv
			partN
			partA
			partU
			partC
		}{d, partN{d}, partA{d}, partU{d}, partC{d}}
	case "bauc":
		return &struct {
			*drv
			partB
			partA
			partU
			partC
		}{d, partB{d}, partA{d}, partU{d}, partC{d}}
	case "nbauc":
		return &struct {
			*drv
			partN
			partB
			partA
			partU
			partC
		}{d, partN{d}, partB{d}, partA{d}, partU{d}, partC{d}}
	case "d":
		return &struct {
			*drv
			partD
		}{d, partD{d}}
	case "nd":
		return &struct {
			*drv
			partN
			partD
		}{d, partN{d}, partD{d}}
	case "bd":
		return &struct {
			*drv
			partB
			partD
		}{d, partB{d}, partD{d}}
	case "nbd":
		return &struct {
			*drv
			partN
			partB
			partD
		}{d, partN{d}, partB{d}, partD{d}}
	case "ad":
		return &struct {
			*drv
			partA
			partD
		}{d, partA{d}, partD{d}}
	case "nad":
		return &struct {
			*drv
			partN
			partA
			partD
		}{d, partN{d}, partA{d}, partD{d}}
	case "bad":
		return &struct {
			*drv
			partB
			partA
			partD
		}{d, partB{d}, partA{d}, partD{d}}
	case "nbad":
		return &struct {
			*drv
			partN
			partB
			partA
			partD
		}{d, partN{d}, partB{d}, partA{d}, partD{d}}
	case "ud":
		return &struct {
			*drv
			partU
			partD
		}{d, partU{d}, partD{d}}
	case "nud":
		return &struct {
			*drv
			partN
			partU
			partD
		}{d, partN{d}, partU{d}, partD{d}}
	case "bud":
		return &struct {
			*drv
			partB
			partU
			partD
		}{d, partB{d}, partU{d}, partD{d}}
	case "nbud":
		return &struct {
			*drv
			partN
			partB
			partU
			partD
		}{d, partN{d}, partB{d}, partU{d}, partD{d}}
	case "aud":
		return &struct {
			*drv
			partA
			partU
			partD
		}{d, partA{d}, partU{d}, partD{d}}
	case "naud":
		return &struct {
			*drv
			partN
			partA
			partU
			partD
		}{d, partN{d}, partA{d}, partU{d}, partD{d}}
	case "baud":
		return &struct {
			*drv
			partB
			partA
			partU
			partD
		}{d, partB{d}, partA{d}, partU{d}, partD{d}}
	case "nbaud":
		return &struct {
			*drv
			partN
			partB
			partA
			partU
			partD
		}{d, partN{d}, partB{d}, partA{d}, partU{d}, partD{d}}
	case "cd":
		return &struct {
			*drv
			partC
			partD
		}{d, partC{d}, partD{d}}
	case "ncd":
		return &struct {
			*drv
			partN
			partC
			partD
		}{d, partN{d}, partC{d}, partD{d}}
	case "bcd":
		return &struct {
			*drv
			partB
			partC
			partD
		}{d, partB{d}, partC{d}, partD{d}}
	case "nbcd":
		return &struct {
			*drv
			partN
			partB
			partC
			partD
		}{d, partN{d}, partB{d}, partC{d}, partD{d}}
	case "acd":
		return &struct {
			*drv
			partA
			partC
			partD
		}{d, partA{d}, partC{d}, partD{d}}
	case "nacd":
		return &struct {
			*drv
			partN
			partA
			partC
			partD
		}{d, partN{d}, partA{d}, partC{d}, partD{d}}
	case "bacd":
		return &struct {
			*drv
			partB
			partA
			partC
			partD
		}{d, partB{d}, partA{d}, partC{d}, partD{d}}
	case "nbacd":
		return &struct {
			*drv
			partN
			partB
			partA
			partC
			partD
		}{d, partN{d}, partB{d}, partA{d}, partC{d}, partD{d}}
	case "ucd":
		return &struct {
			*drv
			partU
			partC
			partD
		}{d, partU{d}, partC{d}, partD{d}}
	case "nucd":
		return &struct {
			*drv
			partN
			partU
			partC
			partD
		}{d, partN{d}, partU{d}, partC{d}, partD{d}}
	case "bucd":
		return &struct {
			*drv
			partB
			partU
			partC
			partD
		}{d, partB{d}, partU{d}, partC{d}, partD{d}}
	case "nbucd":
		return &struct {
			*drv
			partN
			partB
			partU
			partC
			partD
		}{d, partN{d}, partB{d}, partU{d}, partC{d}, partD{d}}
	case "aucd":
		return &struct {
			*drv
			partA
			partU
			partC
			partD
		}{d, partA{d}, partU{d}, partC{d}, partD{d}}
	case "naucd":
		return &struct {
			*drv
			partN
			partA
			partU
			partC
			partD
		}{d, partN{d}, partA{d}, partU{d}, partC{d}, partD{d}}
	case "baucd":
		return &struct {
			*drv
			partB
			partA
			partU
			partC
			partD
		}{d, partB{d}, partA{d}, partU{d}, partC{d}, partD{d}}
	case "nbaucd":
		return &struct {
			*drv
			partN
			partB
			partA
			partU
			partC
			partD
		}{d, partN{d}, partB{d}, partA{d}, partU{d}, partC{d}, partD{d}}
	}
	panic("harness: capabilities " + d.p.caps)
}
