package medley

import (
	"fmt"
	"testing"

	"github.com/ethereum/go-ethereum/common"

	"github.com/shutter-network/shutter/shuttermint/zzverif"
)

func TestReplay_K18_lists(t *testing.T) {
	h := zzverif.New(t, "random address lists with repetitions", "to 8 addresses, some to 300")
	for n := 0; n < h.N(2000); n++ {
		k, spread := h.R.Intn(9), 1+h.R.Intn(9)
		if h.R.Intn(20) == 0 {
			k, spread = h.R.Intn(300), 1000
		}
		mk := func(i int) (a common.Address) {
			a[(i*7)%20] = byte(1 + i%255)
			a[19] ^= byte(i >> 8)
			return
		}
		backing := make([]common.Address, 0, k+3)
		for i := 0; i < k; i++ {
			backing = append(backing, mk(h.R.Intn(spread)))
		}
		full := backing[:cap(backing)]
		for i := k; i < len(full); i++ {
			full[i] = mk(2000 + i)
		}
		in := full[:k]
		desc := fmt.Sprintf("%x", in)
		before := fmt.Sprintf("%x", full)
		var want []common.Address
		first := map[common.Address]int{}
		for i, a := range in {
			if _, dup := first[a]; !dup {
				first[a] = i
				want = append(want, a)
			}
		}
		h.Case(desc)
		h.NoPanic(desc, func() {
			got := DedupAddresses(in)
			h.Check(fmt.Sprintf("%x", got) == fmt.Sprintf("%x", want), "without repetitions %x; %s", got, desc)
			for i := range got { // the result may be changed freely
				got[i][5] ^= 0xff
			}
			err := EnsureUniqueAddresses(in)
			h.Check((err != nil) == (len(want) < len(in)), "uniqueness error %v; %s", err, desc)
			for q := 0; q < 4; q++ {
				a := mk(h.R.Intn(spread + 2))
				i, err := FindAddressIndex(in, a)
				j, ok := first[a]
				h.Check((err == nil) == ok && (!ok || i == j), "lookup of %x gives %d, %v; %s", a, i, err, desc)
			}
			h.Check(fmt.Sprintf("%x", full) == before, "the list was changed to %x; %s", full, desc)
		})
	}
}
