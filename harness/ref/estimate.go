package ref

import "math"

// Estimate is the number of bytes a plain greedy packer of the family needs
// for b: longest match within the window, entropy of the codes per block.
func Estimate(b []byte, window, maxLen int) int {
	head := make([]int32, 1<<16)
	for i := range head {
		head[i] = -1
	}
	prev := make([]int32, len(b))
	hash := func(i int) int {
		return int((uint32(b[i])*2654435761 + uint32(b[i+1])*40503*257 + uint32(b[i+2])*69069*65537) >> 16)
	}
	put := func(i int) {
		if i+2 < len(b) {
			h := hash(i)
			prev[i] = head[h]
			head[h] = int32(i)
		}
	}
	var bits float64
	c := make([]int, 600)
	p := make([]int, 20)
	n := 0
	flush := func() {
		for _, f := range [][]int{c, p} {
			sum, used := 0, 0
			for _, x := range f {
				sum += x
				if x > 0 {
					used++
				}
			}
			for i, x := range f {
				if x > 0 {
					bits += float64(x) * math.Log2(float64(sum)/float64(x))
				}
				f[i] = 0
			}
			bits += float64(used)*6 + 40
		}
		n = 0
	}
	for i := 0; i < len(b); {
		best, dist := 0, 0
		if i+2 < len(b) {
			tries := 0
			for j := head[hash(i)]; j >= 0 && i-int(j) <= window && tries < 200; j = prev[j] {
				tries++
				l := 0
				for i+l < len(b) && l < maxLen && b[int(j)+l] == b[i+l] {
					l++
				}
				if l > best {
					best, dist = l, i-int(j)
					if l == maxLen {
						break
					}
				}
			}
		}
		if best >= 3 {
			c[253+best]++
			code, nb, _ := posCode(dist)
			p[code]++
			bits += float64(nb)
		} else {
			c[b[i]]++
			best = 1
		}
		for ; best > 0; best-- {
			put(i)
			i++
		}
		if n++; n >= 8000 {
			flush()
		}
	}
	flush()
	return int(bits/8) + 1
}
