bug(id='c19-second-equals', prop='C19',
 needs='a format parameter whose value contains =, such as padded base64',
 breaks='Padding at the end of a parameter value is lost.',
 edits=[('sdpparser.go','''			fmtParame[field[:index]] = field[index+1:]
''','''			fmtParame[field[:index]] = strings.Trim(field[index:], "=")
'''),('sdpparser.go','''	fmtParame := make(map[string]string)
''','''	fmtParame := map[string]string{}
''')],
 demo=R('testing','''
func TestSeeded(t *testing.T) {
	i := parsingSDP(demoSDP("H264") + "a=fmtp:96 packetization-mode=1; sprop-parameter-sets=Z0IAKeNQ==\\r\\n")
	if i == nil || i.Medias[0].Fmtp["sprop-parameter-sets"] != "Z0IAKeNQ==" {
		t.Fatal(i)
	}
}
'''))

bug(id='c19-static-table', prop='C19',
 needs='a media with payload format 6 or 17',
 breaks='Two static payload formats have the wrong clock rate.',
 edits=[('sdpparser.go','return "DVI4", "audio", 16000, 1','return "DVI4", "audio", 8000, 1')],
 demo=R('testing','''
func TestSeeded(t *testing.T) {
	i := parsingSDP("v=0\\r\\no=- 1 1 IN IP4 1.1.1.1\\r\\ns=x\\r\\nt=0 0\\r\\nm=audio 0 RTP/AVP 6\\r\\n")
	if i == nil || i.Medias[0].RtpTimestampFrequency != 16000 {
		t.Fatal(i)
	}
}
'''))

bug(id='c19-dimensions', prop='C19',
 needs='an x-dimensions attribute with a space behind the comma',
 breaks='The height is lost when the dimensions are written with a space behind the comma.',
 edits=[('sdpparser.go','''	sdpXDimensions = strings.Replace(sdpXDimensions, ",", " ", -1)

	width := 0
	height := 0
	fmt.Sscanf(sdpXDimensions, "%d %d", &width, &height)
''','''	width := 0
	height := 0
	if index := strings.Index(sdpXDimensions, ","); index != -1 {
		width, _ = strconv.Atoi(sdpXDimensions[:index])
		height, _ = strconv.Atoi(sdpXDimensions[index+1:])
	}
''')],
 demo=R('testing','''
func TestSeeded(t *testing.T) {
	i := parsingSDP(demoSDP("H264") + "a=x-dimensions:640, 480\\r\\n")
	if i == nil || i.Medias[0].VideoWidth != 640 || i.Medias[0].VideoHeight != 480 {
		t.Fatal(i)
	}
}
'''))

bug(id='c19-channels', prop='C19',
 needs='an rtpmap without clock rate',
 breaks='What is not specified is reported as 0 instead of -1.',
 edits=[('sdpparser.go','	timestampFrequency := -1\n','	timestampFrequency := 0\n')],
 demo=R('testing','''
func TestSeeded(t *testing.T) {
	i := parsingSDP("v=0\\r\\no=- 1 1 IN IP4 1.1.1.1\\r\\ns=x\\r\\nt=0 0\\r\\nm=audio 0 RTP/AVP 96\\r\\na=rtpmap:96 X\\r\\n")
	if i == nil || i.Medias[0].RtpTimestampFrequency != -1 {
		t.Fatal(i)
	}
}
'''))

bug(id='c20-nil-medias', prop='C20',
 needs='a format parameter line without parameters behind the format',
 breaks='A format parameter line without parameters behind the format ends in a panic.',
 edits=[('sdpparser.go','''	framerate, _ := strconv.Atoi(sdpFramerate)
	return framerate
''','''	framerate, err := strconv.Atoi(sdpFramerate)
	for nil != err && framerate == 0 {
		// drop what is not a number
		sdpFramerate = sdpFramerate[:len(sdpFramerate)-1]
		framerate, err = strconv.Atoi(sdpFramerate)
	}
	return framerate
''')],
 demo=R('testing','''
func TestSeeded(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	if parsingSDP(demoSDP("H264")+"a=framerate:x\\r\\n") == nil {
		t.Fatal("refused")
	}
}
'''))

bug(id='c20-fmtp-index', prop='C20',
 needs='an rtpmap attribute with nothing behind the format',
 breaks='A rtpmap without codec ends in a panic.',
 edits=[('sdpparser.go','''	fmt.Sscanf(sdpRtpmap, "%d %s %d %d", &payloadFormat, &codecName, &timestampFrequency, &channels)
''','''	fmt.Sscanf(sdpRtpmap, "%d %s %d %d", &payloadFormat, &codecName, &timestampFrequency, &channels)
	if 'x' == codecName[0] && '-' == codecName[1] {
		// experimental
		codecName = codecName[2:]
	}
'''),('sdpparser.go','''	var codecName string
''','''	codecName := ""
''')],
 demo=R('testing','''
func TestSeeded(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	for _, m := range []string{"a=rtpmap:96 /", "a=rtpmap:96 x", "a=rtpmap:96 //1"} {
		parsingSDP("v=0\\r\\no=- 1 1 IN IP4 1.1.1.1\\r\\ns=x\\r\\nt=0 0\\r\\nm=audio 0 RTP/AVP 96\\r\\n" + m + "\\r\\n")
	}
}
'''))
