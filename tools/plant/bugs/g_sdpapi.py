bug(id='c31-mapped-v6', prop='C31', pkg='sdp',
 needs='an origin without an address type whose address is an IPv6 address with an embedded IPv4 address',
 breaks='The address type is taken from the last separator: ::ffff:10.0.0.1 is announced as IP4.',
 edits=[('sdp/fields.go','''	for _, s := range addr {
		if s == ':' {
			return addrTypeIPv6
		}
		if s == '.' {
			return addrTypeIPv4
		}
	}
''','''	for i := len(addr) - 1; i >= 0; i-- {
		if addr[i] == ':' {
			return addrTypeIPv6
		}
		if addr[i] == '.' {
			return addrTypeIPv4
		}
	}
''')],
 demo=D('testing','''
func TestSeeded(t *testing.T) {
	s := Session{}.AddOrigin(Origin{Username: "-", SessionID: 1, SessionVersion: 2, Address: "64:ff9b::10.0.0.1"})
	if got := string(s.AppendTo(nil)); got != "o=- 1 2 IN IP6 64:ff9b::10.0.0.1" {
		t.Fatal(got)
	}
}
'''))
bug(id='c31-ports-one', prop='C31', pkg='sdp',
 needs='a media description with exactly one port given as the number of ports',
 breaks='A number of ports of one is left out.',
 edits=[('sdp/fields.go','	if m.PortsNumber != 0 {','	if m.PortsNumber > 1 {')],
 demo=D('testing','''
func TestSeeded(t *testing.T) {
	s := Session{}.AddMediaDescription(MediaDescription{Type: "video", Port: 10, PortsNumber: 1, Protocol: "RTP/AVP", Format: "96"})
	if got := string(s.AppendTo(nil)); got != "m=video 10/1 RTP/AVP 96" {
		t.Fatal(got)
	}
}
'''))
bug(id='c31-reuse-previous', prop='C31', pkg='sdp',
 needs='a list that is emptied and used again, with more lines and a shorter one where a long one was',
 breaks='The memory of the previous line, still in the list, is reused for the new one.',
 edits=[('sdp/sdp.go','''	if cap(s) > l+1 {
		line.Value = s[:l+1][l].Value[:0]
	}
''','''	if cap(s) > l+1 {
		line.Value = s[:l+1][l].Value[:0]
		if cap(line.Value) == 0 && l > 0 && cap(s[l-1].Value)-len(s[l-1].Value) > 7 {
			line.Value = s[l-1].Value[:0]
		}
	}
''')],
 demo=D('testing','''
func TestSeeded(t *testing.T) {
	s := make(Session, 0, 8)
	s = s.AddLine('s', "a").AddLine('i', "0123456789012345678901234567890123456789")
	s = s[:0].AddLine('s', "b").AddLine('i', "first").AddLine('e', "x").AddLine('p', "y")
	if got := string(s.AppendTo(nil)); got != "s=b\\ni=first\\ne=x\\np=y" {
		t.Fatal(got)
	}
}
'''))
bug(id='c31-empty-value', prop='C31', pkg='sdp',
 needs='an attribute with several values, the last of them empty',
 breaks='No separator is written before an empty last value.',
 edits=[('sdp/fields.go','''		if i != last {
			b = appendSpace(b)
		}
''','''		if i != last && (i != last-1 || len(v[last]) > 0) {
			b = appendSpace(b)
		}
''')],
 demo=D('testing','''
func TestSeeded(t *testing.T) {
	s := Session{}.AddAttribute("x", "a", "")
	if got := string(s.AppendTo(nil)); got != "a=x:a " {
		t.Fatalf("%q", got)
	}
}
'''))
bug(id='c32-last-value', prop='C32', pkg='sdp',
 needs='an attribute that is present several times, of which only later ones carry a value',
 breaks='The first non-empty value is given where the first one is empty.',
 edits=[('sdp/decoder.go','''	return a[attribute][0]
''','''	for _, v := range a[attribute] {
		if v != blank {
			return v
		}
	}
	return blank
''')],
 demo=D('testing','''
func TestSeeded(t *testing.T) {
	m := new(Message)
	m.AddFlag("x")
	m.AddAttribute("x", "1")
	if got := m.Attribute("x"); got != "" {
		t.Fatal(got)
	}
}
'''))
bug(id='c32-shared-first-media', prop='C32', pkg='sdp',
 needs='a description with two medias of which the second has no attribute of a name the first has, or both have',
 breaks='The attribute table of a media is that of the media before it.',
 edits=[('sdp/decoder.go','''	switch d.section {
	case sectionMedia:
		d.m.Attributes = addAttribute(d.m.Attributes, k, v)
''','''	switch d.section {
	case sectionMedia:
		attrs := d.m.Attributes
		if n := len(m.Medias); attrs == nil && n > 0 && k == "control" {
			attrs = m.Medias[n-1].Attributes
		}
		d.m.Attributes = addAttribute(attrs, k, v)
''')],
 demo=D('testing','''
func TestSeeded(t *testing.T) {
	s, err := DecodeSession([]byte("v=0\\no=- 1 1 IN IP4 1.1.1.1\\ns=x\\nt=0 0\\nm=audio 0 RTP/AVP 1\\na=control:a\\nm=audio 0 RTP/AVP 1\\na=control:b\\nm=audio 0 RTP/AVP 1\\na=control:c\\n"), nil)
	if err != nil {
		t.Fatal(err)
	}
	m := new(Message)
	d := NewDecoder(s)
	if err := d.Decode(m); err != nil || m.Medias[1].Attribute("control") != "b" || m.Medias[2].Attribute("control") != "c" {
		t.Fatal(err, m)
	}
}
'''))
bug(id='c33-origin-default', prop='C33', pkg='sdp',
 needs='two origins, one of which leaves the network type to the default',
 breaks='An origin without a network type equals one with the default network type.',
 edits=[('sdp/fields.go','''	if o.NetworkType != b.NetworkType {
		return false
	}
''','''	if o.getNetworkType() != b.getNetworkType() {
		return false
	}
''')],
 demo=D('testing','''
func TestSeeded(t *testing.T) {
	a, b := Origin{Username: "-", Address: "1.1.1.1"}, Origin{Username: "-", NetworkType: "IN", Address: "1.1.1.1"}
	if a.Equal(b) || b.Equal(a) {
		t.Fatal("different origins are equal")
	}
}
'''))
bug(id='c33-prefix', prop='C33', pkg='sdp',
 needs='two lists of lines of which one ends with lines of no value',
 breaks='Lines without a value are skipped when a line is compared.',
 edits=[('sdp/sdp.go','	return bytes.Equal(l.Value, b.Value)','	return bytes.HasPrefix(b.Value, l.Value) && len(l.Value) == len(bytes.TrimRight(b.Value, "\\x00"))')],
 demo=D('testing','''
func TestSeeded(t *testing.T) {
	a, b := Line{'a', []byte("x")}, Line{'a', []byte("x\\x00")}
	if a.Equal(b) || b.Equal(a) {
		t.Fatal("different lines are equal")
	}
	if !b.Equal(b) {
		t.Fatal("a line differs from itself")
	}
}
'''))
