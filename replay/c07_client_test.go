package client

import (
	"fmt"
	"math"
	"sync"
	"testing"
)

// TestVerifReplayC07 looks for a counter that yields zero, skips a number or hands the same number out twice.
func TestVerifReplayC07(t *testing.T) {
	fail := func(f string, a ...any) {
		fmt.Println("FAILING-INPUT " + fmt.Sprintf(f, a...))
		t.Fail()
	}
	next := func(name string, p *uint32, get func() uint32, rounds int) {
		for _, start := range []uint32{0, 1, 2, 254, 255, 256, 65534, 65535, 65536, math.MaxInt32 - 1, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32 - 1025, math.MaxUint32 - 1024, math.MaxUint32 - 1023, math.MaxUint32 - 2, math.MaxUint32 - 1, math.MaxUint32} {
			*p = start
			want := start
			for i := 0; i < 2100; i++ {
				got := get()
				want++
				if want == 0 {
					want = 1
				}
				if got != want {
					fail("%s: counter at %d, call %d returns %d, want %d", name, start, i+1, got, want)
					break
				}
			}
		}
		for k := 0; k < rounds; k++ {
			*p = math.MaxUint32 - 4
			start := make(chan struct{})
			rs := make([][]uint32, 8)
			var wg sync.WaitGroup
			for i := range rs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for j := 0; j < 4; j++ {
						rs[i] = append(rs[i], get())
					}
				}()
			}
			close(start)
			wg.Wait()
			dup := map[uint32]bool{}
			for _, r := range rs {
				for _, v := range r {
					if v == 0 || dup[v] {
						fail("%s: 8 concurrent callers starting at %d: %d assigned twice (or zero)", name, uint32(math.MaxUint32-4), v)
						return
					}
					dup[v] = true
				}
			}
		}
		*p = math.MaxUint32 - 5000
		const g, n = 8, 200000
		res := make([][]uint32, g)
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < n/g; j++ {
					res[i] = append(res[i], get())
				}
			}()
		}
		wg.Wait()
		seen := map[uint32]bool{}
		for _, r := range res {
			for _, v := range r {
				if v == 0 || seen[v] {
					fail("%s: %d concurrent callers get %d twice (or zero)", name, g, v)
					return
				}
				seen[v] = true
			}
		}
	}
	ch := &clientSecureChannel{}
	next("chunk sequence number", &ch.sequenceNumber, ch.getNextSequenceNumber, 20000)
	next("request handle", &ch.requestHandle, ch.getNextRequestHandle, 20000)
}
