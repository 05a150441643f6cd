def D(imports, body): return 'package sdp\n\nimport (\n'+''.join('\t"%s"\n'%i for i in imports.split())+')\n'+body

bug(id='c21-many-fields', prop='C21', pkg='sdp',
 needs='a line with more than thirty-two fields',
 breaks='Room for thirty-two fields is set aside, and a line with more of them ends in a panic.',
 edits=[('sdp/decoder.go','''	n := bytes.Count(d.v, []byte{fieldsDelimiter})
	result := make([][]byte, n+1)
''','''	result := make([][]byte, 32)
''')],
 demo=D('testing strings','''
func TestSeeded(t *testing.T) {
	s, err := DecodeSession([]byte("v=0\\no=- 1 1 IN IP4 1.1.1.1\\ns=x\\nt=0 0\\nm=audio 0 RTP/AVP"+strings.Repeat(" 1", 60)+"\\n"), nil)
	if err != nil {
		t.Fatal(err)
	}
	m := new(Message)
	d := NewDecoder(s)
	if err := d.Decode(m); err != nil || m.Medias[0].Description.Format != strings.TrimSpace(strings.Repeat(" 1", 60)) {
		t.Fatal(err, m)
	}
}
'''))

bug(id='c22-indentation', prop='C22', pkg='sdp',
 needs='text with indented lines, or blank lines of white space',
 breaks='Indentation is no longer removed.',
 edits=[('sdp/sdp.go','s.line = bytes.TrimSpace(s.v[s.pos:s.end])','s.line = bytes.TrimRight(s.v[s.pos:s.end], "\\r\\n \\t")')],
 demo=D('testing','''
func TestSeeded(t *testing.T) {
	s := Session{}.AddLine('v', "0").AddLine('s', "x")
	b, err := DecodeSession([]byte("v=0\\r\\n \\t s=x\\r\\n"), nil)
	if err != nil || !b.Equal(s) {
		t.Fatal(err, b)
	}
}
'''))

bug(id='c22-input-kept', prop='C22', pkg='sdp',
 needs='an input buffer that is reused after decoding',
 breaks='Lines keep referring to the input buffer.',
 edits=[('sdp/sdp.go','''	l.Value = append(l.Value, b[delimiter+1:]...)
	return nil
''','''	value := b[delimiter+1:]
	if cap(l.Value) >= len(value) {
		value = append(l.Value, value...)
	}
	l.Value = value
	return nil
''')],
 demo=D('testing','''
func TestSeeded(t *testing.T) {
	b := []byte("v=0\\ns=abc\\n")
	s, err := DecodeSession(b, nil)
	if err != nil {
		t.Fatal(err)
	}
	for i := range b {
		b[i] = 'x'
	}
	if string(s[1].Value) != "abc" {
		t.Fatal(s)
	}
}
'''))

bug(id='c23-second-colon', prop='C23', pkg='sdp',
 needs='an attribute value or key that contains a colon',
 breaks='Every colon of an attribute is dropped, not only the first.',
 edits=[('sdp/decoder.go',"		if v == ':' && !isValue {","		if v == ':' {")],
 demo=D('testing','''
func TestSeeded(t *testing.T) {
	m := &Message{Name: "x", Origin: Origin{Username: "-", NetworkType: "IN", AddressType: "IP4", Address: "1.1.1.1"}}
	m.AddAttribute("fingerprint", "sha 12:34:56")
	m.Timing = append(m.Timing, Timing{})
	d := NewDecoder(m.Append(nil))
	n := new(Message)
	if err := d.Decode(n); err != nil || n.Attribute("fingerprint") != "sha 12:34:56" {
		t.Fatal(err, n.Attributes)
	}
}
'''))

bug(id='c23-media-reused', prop='C23', pkg='sdp',
 needs='two media sections, of which the first has attributes, bandwidths, a key or a connection and the second has not',
 breaks='A media section inherits from the one before it.',
 edits=[('sdp/decoder.go','''	d.m = Media{}
''','''	d.m = Media{Encryption: d.m.Encryption}
''')],
 demo=D('testing','''
func TestSeeded(t *testing.T) {
	m := &Message{Name: "x", Origin: Origin{Username: "-", NetworkType: "IN", AddressType: "IP4", Address: "1.1.1.1"}}
	m.Timing = append(m.Timing, Timing{})
	m.Medias = Medias{{Description: MediaDescription{Type: "a", Protocol: "p", Format: "1"}, Encryption: Encryption{Method: "prompt"}},
		{Description: MediaDescription{Type: "a", Protocol: "p", Format: "2"}}}
	d := NewDecoder(m.Append(nil))
	n := new(Message)
	if err := d.Decode(n); err != nil || !n.Medias[1].Encryption.Blank() {
		t.Fatal(err, n.Medias)
	}
}
'''))

bug(id='c23-offsets-shared', prop='C23', pkg='sdp',
 needs='a repeat line of a timing with two or more offsets of which a later one is zero',
 breaks='Zero offsets of repeat times are not kept.',
 edits=[('sdp/decoder.go','''		t.Offsets = append(t.Offsets, dd)
''','''		if dd != 0 || len(t.Offsets) == 0 {
			t.Offsets = append(t.Offsets, dd)
		}
''')],
 demo=D('testing time','''
func TestSeeded(t *testing.T) {
	m := &Message{Name: "x", Origin: Origin{Username: "-", NetworkType: "IN", AddressType: "IP4", Address: "1.1.1.1"}}
	m.Timing = append(m.Timing, Timing{Repeat: time.Hour, Active: time.Hour, Offsets: []time.Duration{time.Hour, 0}})
	d := NewDecoder(m.Append(nil))
	n := new(Message)
	if err := d.Decode(n); err != nil || len(n.Timing[0].Offsets) != 2 {
		t.Fatal(err, n.Timing)
	}
}
'''))

bug(id='c24-session-id-wraps', prop='C24', pkg='sdp',
 needs='a session id above the largest int',
 breaks='Numbers above the largest int are stored as negative ones.',
 edits=[('sdp/decoder.go','''	var err error
	*i, err = strconv.Atoi(b2s(v))
	return err
''','''	n, err := strconv.ParseInt(b2s(v), 10, 64)
	if err != nil {
		// large numbers are written without sign
		var u uint64
		u, err = strconv.ParseUint(b2s(v), 10, 64)
		n = int64(u)
	}
	*i = int(n)
	return err
''')],
 demo=D('testing','''
func TestSeeded(t *testing.T) {
	s, err := DecodeSession([]byte("v=0\\no=- 18446744073709551615 1 IN IP4 1.1.1.1\\ns=x\\nt=0 0\\n"), nil)
	if err != nil {
		t.Fatal(err)
	}
	d := NewDecoder(s)
	m := new(Message)
	if err := d.Decode(m); err == nil {
		t.Fatal("accepted as", m.Origin.SessionID)
	}
}
'''))

bug(id='c24-port-octal', prop='C24', pkg='sdp',
 needs='a number with a leading zero',
 breaks='Numbers with leading zeros are read as octal numbers.',
 edits=[('sdp/decoder.go','''	var err error
	*i, err = strconv.Atoi(b2s(v))
	return err
''','''	n, err := strconv.ParseInt(b2s(v), 0, 64)
	*i = int(n)
	return err
''')],
 demo=D('testing','''
func TestSeeded(t *testing.T) {
	s, err := DecodeSession([]byte("v=0\\no=- 1 1 IN IP4 1.1.1.1\\ns=x\\nt=0 0\\nm=audio 010 RTP/AVP 0\\n"), nil)
	if err != nil {
		t.Fatal(err)
	}
	d := NewDecoder(s)
	m := new(Message)
	if err := d.Decode(m); err == nil && m.Medias[0].Description.Port != 10 {
		t.Fatal(m.Medias[0].Description.Port)
	}
}
'''))

bug(id='c24-v6-media', prop='C24', pkg='sdp',
 needs='an IPv6 connection of a media section behind an IPv4 connection of the session',
 breaks='Whether the address of a media is an IPv6 address is decided by the address of the session.',
 edits=[('sdp/decoder.go','		isV4 = isIPv4(d.m.Connection.IP)','		isV4 = isIPv4(d.m.Connection.IP) || isIPv4(m.Connection.IP)')],
 demo=D('testing','''
func TestSeeded(t *testing.T) {
	s, err := DecodeSession([]byte("v=0\\no=- 1 1 IN IP4 1.1.1.1\\ns=x\\nc=IN IP4 1.2.3.4\\nt=0 0\\nm=audio 10 RTP/AVP 0\\nc=IN IP6 FF15::101/3\\n"), nil)
	if err != nil {
		t.Fatal(err)
	}
	d := NewDecoder(s)
	m := new(Message)
	if err := d.Decode(m); err != nil || m.Medias[0].Connection.TTL != 0 || m.Medias[0].Connection.Addresses != 3 {
		t.Fatal(err, m.Medias)
	}
}
'''))

bug(id='c25-uri-in-media', prop='C25', pkg='sdp',
 needs='a URI line behind the title and connection of a media section',
 breaks='URI lines in a media section are accepted.',
 edits=[('sdp/decoder.go','''		if pos != 0 && isExpected(t, sectionMedia, 0) == nil {
''','''		// some senders repeat the URI in media sections
		if pos > 2 && t == TypeURI || pos != 0 && isExpected(t, sectionMedia, 0) == nil {
''')],
 demo=D('testing','''
func TestSeeded(t *testing.T) {
	s, err := DecodeSession([]byte("v=0\\no=- 1 1 IN IP4 1.1.1.1\\ns=x\\nt=0 0\\nm=audio 0 RTP/AVP 0\\ni=i\\nc=IN IP4 1.1.1.1\\nu=u\\n"), nil)
	if err != nil {
		t.Fatal(err)
	}
	d := NewDecoder(s)
	if err := d.Decode(new(Message)); err == nil {
		t.Fatal("accepted")
	}
}
'''))

bug(id='c26-before-epoch', prop='C26', pkg='sdp',
 needs='a time before 1970',
 breaks='Times before 1970 are taken for no time.',
 edits=[('sdp/fields.go','	if t.IsZero() {\n		return 0','	if t.Unix() <= 0 {\n		return 0')],
 demo=D('testing time','''
func TestSeeded(t *testing.T) {
	if v := TimeToNTP(time.Unix(-1000, 0)); v != 2208988800-1000 {
		t.Fatal(v)
	}
}
'''))

bug(id='c26-era', prop='C26', pkg='sdp',
 needs='a timestamp of 2036 or later',
 breaks='Timestamps beyond 32 bits are cut.',
 edits=[('sdp/fields.go','	return uint64(t.Unix()) + ntpDelta','	return uint64(uint32(t.Unix() + ntpDelta))')],
 demo=D('testing time','''
func TestSeeded(t *testing.T) {
	if v := TimeToNTP(time.Unix(4000000000, 0)); v != 2208988800+4000000000 {
		t.Fatal(v)
	}
}
'''))

bug(id='c27-min-int', prop='C27', pkg='sdp',
 needs='the smallest integer',
 breaks='The smallest integer cannot be negated, writing it ends in a panic.',
 edits=[('sdp/fields.go','''	// ALLOCATIONS: suboptimal.
	return append(v, strconv.Itoa(i)...)
}

// AppendUint''','''	return appendUint(append(v, '-'), -i)
}

// AppendUint''')],
 demo=D('testing math fmt','''
func TestSeeded(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	s := Session{}.AddVersion(math.MinInt64)
	if string(s[0].Value) != fmt.Sprint(math.MinInt64) {
		t.Fatal(s)
	}
}
'''))

bug(id='c27-unit-order', prop='C27', pkg='sdp',
 needs='a zone offset of a negative whole number of minutes that is no whole number of hours',
 breaks='Negative durations with minutes are written as hours.',
 edits=[('sdp/fields.go','		if d%unit.d == 0 {','		if d%unit.d == 0 || d < 0 && unit.r == \'h\' && d%(unit.d/2) == 0 {')],
 demo=D('testing time','''
func TestSeeded(t *testing.T) {
	s := Session{}.AddTimeZones(TimeZone{Offset: -90 * time.Minute})
	if string(s[0].Value) != "0 -90m" {
		t.Fatal(string(s[0].Value))
	}
}
'''))

bug(id='c27-float-seconds', prop='C27', pkg='sdp',
 needs='a long duration of more than 2^24 seconds that is no whole number of minutes',
 breaks='Seconds are computed with too little precision.',
 edits=[('sdp/fields.go','''			return unit.append(b, d)
		}
	}
	return appendInt(b, int(d.Seconds()))''','''			return unit.append(b, d)
		}
	}
	return appendInt(b, int(float32(d.Seconds())))''')],
 demo=D('testing time','''
func TestSeeded(t *testing.T) {
	d := 16777217 * time.Second
	s := Session{}.AddRepeatTimesCompact(d, d)
	if string(s[0].Value) != "16777217 16777217 " {
		t.Fatal(string(s[0].Value))
	}
}
'''))
