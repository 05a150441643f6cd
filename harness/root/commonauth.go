package rtspclient

import (
	"crypto/md5"
	"encoding/hex"

	"github.com/NodeBoy2/rtspclient/zzv/vsym"
)

func vhMD5(s string) string {
	h := md5.New()
	h.Write([]byte(s))
	return hex.EncodeToString(h.Sum(nil))
}

// vhDigest is the answer RFC 2617 prescribes.
func vhDigest(user, realm, pass, nonce, method, uri string) string {
	return vhMD5(vhMD5(user+":"+realm+":"+pass) + ":" + nonce + ":" + vhMD5(method+":"+uri))
}

// vhToken is a token of n characters.
func vhToken(name string, n int) string {
	b := vsym.Str(name, n)
	for i := 0; i < n; i++ {
		c := b[i]
		vsym.Assume(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '-' || c == '_' || c == '.' || c == '+' || c == '$')
	}
	return b
}

// vhQuoted is the text of a quoted string.
func vhQuoted(name string, n int) string {
	b := vsym.Str(name, n)
	for i := 0; i < n; i++ {
		vsym.Assume(b[i] >= ' ' && b[i] < 0x7f && b[i] != '"' && b[i] != '\\')
	}
	return b
}

// vhUnreserved is a text of n characters that stand for themselves in a URL.
func vhUnreserved(name string, n int) string {
	b := vsym.Str(name, n)
	for i := 0; i < n; i++ {
		c := b[i]
		vsym.Assume(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '-' || c == '_' || c == '.' || c == '~')
	}
	return b
}
