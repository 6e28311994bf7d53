package main

import (
	"encoding/hex"
	"math/rand"

	"blichmann.eu/code/btrfscue/internal/identify"
	"blichmann.eu/code/btrfscue/pkg/uuid"
)

type identifyExec struct {
	blocks map[string][]byte
}

func newIdentifyExec(s *scenario) executor {
	return &identifyExec{blocks: make(map[string][]byte)}
}

func (e *identifyExec) done() {}

func toHex(b []byte) string { return hex.EncodeToString(b) }

func fromHex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		fail("hex: %v", err)
	}
	return b
}

func (e *identifyExec) run(o op) obs {
	switch o.str("op") {
	case "offsets":
		l := identify.MakeSampleOffsets(o.u64("dev"), o.u64("bs"), o.u64("n"))
		return obs{"r": "ok", "list": append([]uint64{}, l...)}
	case "block": // name, head (hex), size
		b := make([]byte, o.u64("size"))
		copy(b, fromHex(o.str("head")))
		e.blocks[o.str("name")] = b
		return obs{"r": "ok"}
	case "collect": // names of blocks, in order
		var names []string
		o.into("names", &names)
		var times []int
		o.into("times", &times)
		c := identify.FSIDCollecter{}
		// Blocks of as many other filesystems, one of each
		noise := int(o.u64("noise"))
		r := rand.New(rand.NewSource(int64(o.u64("seed"))))
		other := func(n int) {
			b := make([]byte, 512)
			for ; n > 0; n-- {
				r.Read(b[32:48])
				b[96] = byte(r.Intn(3))
				c.CollectBlock(b)
			}
		}
		before := 0
		if noise > 0 {
			before = r.Intn(noise + 1)
		}
		other(before)
		for i, n := range names {
			b, ok := e.blocks[n]
			if !ok {
				fail("no block %s", n)
			}
			t := 1
			if i < len(times) {
				t = times[i]
			}
			for ; t > 0; t-- {
				c.CollectBlock(b)
			}
		}
		other(noise - before)
		list := [][]interface{}{}
		for _, en := range c.Entries(uint(o.u64("min"))) {
			list = append(list, []interface{}{toHex(en.FSID[:]), en.Count, en.BlockSize})
		}
		return obs{"r": "ok", "list": list, "noise": noise}
	case "print":
		u := uuid.UUID{}
		copy(u[:], fromHex(o.str("id")))
		return obs{"r": "ok", "text": toHex([]byte(u.String()))}
	case "parse":
		u, err := uuid.New(string(fromHex(o.str("text"))))
		if err != nil {
			return obs{"r": "err"}
		}
		return obs{"r": "ok", "id": toHex(u[:])}
	}
	fail("unknown op %s", o.str("op"))
	return nil
}
