package sdp

import (
	"bytes"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

// vhText returns n bytes of single-line text that does not start or end with white space.
func vhText(name string, n int) []byte {
	v := vsym.Bytes(name, n)
	for _, c := range v {
		vsym.Assume(c != '\n')
	}
	vsym.Assume(len(bytes.TrimSpace(v)) == n)
	return v
}

// vhTok returns n graphic ASCII bytes, none of them in not.
func vhTok(name string, n int, not string) string {
	v := vsym.Bytes(name, n)
	for _, c := range v {
		vsym.Assume(c > ' ' && c < 0x7f)
		for i := 0; i < len(not); i++ {
			vsym.Assume(c != not[i])
		}
	}
	return string(v)
}

// vhDec reads b as [+-]?digits; exact arithmetic up to 18 digits.
func vhDec(b []byte) (val int64, ok bool) {
	neg := false
	if len(b) > 0 && (b[0] == '-' || b[0] == '+') {
		neg = b[0] == '-'
		b = b[1:]
	}
	if len(b) == 0 {
		return 0, false
	}
	for _, c := range b {
		if c < '0' || c > '9' {
			return 0, false
		}
		val = val*10 + int64(c-'0')
	}
	if neg {
		val = -val
	}
	return val, true
}

func vhDecode(b []byte) (*Message, error) {
	s, err := DecodeSession(b, nil)
	if err != nil {
		return nil, err
	}
	m := new(Message)
	d := NewDecoder(s)
	if err = d.Decode(m); err != nil {
		return nil, err
	}
	return m, nil
}

// c31dec is the decimal text of n.
func c31dec(n int) string {
	if n < 0 {
		return "-" + c31dec(-n)
	}
	if n < 10 {
		return string([]byte{'0' + byte(n)})
	}
	return c31dec(n/10) + string([]byte{'0' + byte(n%10)})
}
