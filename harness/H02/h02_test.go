//overlay: stream/httprange/zz_verif_H02_test.go

package httprange

import (
	"math/big"
	"strings"
	"testing"
	"unicode"
)

// rangeOracle reads a Content-Range value byte by byte, with unbounded numbers.
func rangeOracle(v string) (start, end, total int64, ok bool) {
	r := []rune(v)
	i, j := 0, len(v)
	_ = r
	s := v
	// surrounding white space
	for len(s) > 0 {
		c := []rune(s)[0]
		if !unicode.IsSpace(c) {
			break
		}
		s = s[len(string(c)):]
	}
	for len(s) > 0 {
		rs := []rune(s)
		c := rs[len(rs)-1]
		if !unicode.IsSpace(c) {
			break
		}
		s = s[:len(s)-len(string(c))]
	}
	i, j = 0, len(s)
	if j < 5 {
		return
	}
	for k, c := range []byte("bytes") {
		if s[k] != c && s[k] != c-'a'+'A' {
			// the two other letters that fold to s
			return
		}
	}
	i = 5
	if i >= j || s[i] != ' ' {
		return
	}
	for i < j && s[i] == ' ' {
		i++
	}
	num := func() (int64, bool) {
		b := i
		for i < j && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		if b == i {
			return 0, false
		}
		n, _ := new(big.Int).SetString(s[b:i], 10)
		if n == nil || !n.IsInt64() {
			return 0, false
		}
		return n.Int64(), true
	}
	if i < j && s[i] == '*' {
		i++
		if i >= j || s[i] != '/' {
			return
		}
		i++
		t, good := num()
		if !good || i != j {
			return
		}
		return -1, -1, t, true
	}
	a, good := num()
	if !good || i >= j || s[i] != '-' {
		return
	}
	i++
	b, good := num()
	if !good || i >= j || s[i] != '/' {
		return
	}
	i++
	t, good := num()
	if !good || i != j {
		return
	}
	if a > b || b >= t {
		return
	}
	return a, b, t, true
}

func TestVerifH02(t *testing.T) {
	s := vfNew()
	check := func(v string) {
		if strings.ContainsRune(v, 'ſ') {
			return // folds to s
		}
		s.guard("parseContentRange", v, func() {
			a, b, n, err := parseContentRange(v)
			wa, wb, wn, ok := rangeOracle(v)
			sig := "refused"
			if ok {
				sig = "accepted"
				if wa < 0 {
					sig = "unsatisfied"
				}
			}
			s.eval(sig, v)
			if (err == nil) != ok {
				s.fail("accepts", v, "parseContentRange(%q) = %d, %d, %d, %v; well formed: %v", v, a, b, n, err, ok)
				return
			}
			if ok && (a != wa || b != wb || n != wn) {
				s.fail("value", v, "parseContentRange(%q) = %d, %d, %d, want %d, %d, %d", v, a, b, n, wa, wb, wn)
			}
		})
	}
	for _, v := range s.strs {
		check(v)
	}
	nums := append([]string{"", "0", "1", "4", "5", "9", "10", "99", "499", "500", "007", "00", "-1", "+5", " 5", "5 ", "1e3", "0x10", "1_0", "*", "9223372036854775806", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "36893488147419103233", "99999999999999999999999", "٣", "5\x00"}, s.strs...)
	units := []string{"bytes", "Bytes", "BYTES", "byteS", "byte", "bytess", "items", "", "bytes ", "bytes  ", " bytes", "\tbytes", "bytes\t", "bytes="}
	seps := []string{" ", "  ", "", "\t", "   "}
	dash := []string{"-", "-", "-", "", "--", " - ", "–"}
	slash := []string{"/", "/", "/", "", "//", " / "}
	tail := []string{"", "", "", " ", "\t", "\n", ";", ",bytes 0-0/1", "/1"}
	// the plain grid first
	for _, a := range nums {
		for _, b := range nums {
			for _, c := range []string{"0", "1", "5", "500", "9223372036854775807", "*", "", "9223372036854775808"} {
				check("bytes " + a + "-" + b + "/" + c)
			}
		}
		check("bytes */" + a)
		check("bytes " + a + "/" + a)
		check("bytes */" + a + " ")
		check("bytes **/" + a)
		check("bytes -*/" + a)
	}
	mut := []byte(" -/*0159bytesBY\t+")
	for s.more() {
		v := vfPick(s, units) + vfPick(s, seps)
		if s.rng.Intn(6) == 0 {
			v += vfPick(s, []string{"*", "**", "*-*", "*-"})
		} else {
			v += vfPick(s, nums) + vfPick(s, dash) + vfPick(s, nums)
		}
		v += vfPick(s, slash) + vfPick(s, nums) + vfPick(s, tail)
		if s.rng.Intn(3) == 0 {
			for k := s.rng.Intn(3); k >= 0 && len(v) > 0; k-- {
				p := s.rng.Intn(len(v))
				switch s.rng.Intn(3) {
				case 0:
					v = v[:p] + string(mut[s.rng.Intn(len(mut))]) + v[p:]
				case 1:
					v = v[:p] + v[p+1:]
				default:
					v = v[:p] + string(mut[s.rng.Intn(len(mut))]) + v[p+1:]
				}
			}
		}
		check(v)
	}
	s.done("parseContentRange accepts exactly the well-formed values and yields their numbers")
}
