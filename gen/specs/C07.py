id='c07-exact-chunks'
prop='C07'
pkg='orc/common'
edits=[('orc/common/misc.go','''	if src.Len() > chunkSize {
		return errors.New("src left len error")''','''	if src.Len() >= chunkSize {
		return errors.New("src left len error")''')]
needs='an amount of data that is an exact multiple of the chunk size'
breaks='a full last chunk is refused'
body='''
func TestDemo(t *testing.T) {
	for _, n := range []int{1, 999, 1000, 1001, 2000, 3500} {
		roundTrip(t, 1000, noise(n))
		roundTrip(t, 1000, make([]byte, n))
	}
}
'''
#=====
id='c07-long-chunk-length'
prop='C07'
pkg='orc/common'
edits=[('orc/common/misc.go','''	return int(h[2])<<15 | int(h[1])<<7 | int(h[0])>>1, h[0]&0x01 == 0x01
''','''	return int(h[2]&0x7f)<<15 | int(h[1])<<7 | int(h[0])>>1, h[0]&0x01 == 0x01
''')]
needs='a chunk of 4 MiB or more as it is stored: much incompressible data and a very large chunk size'
breaks='the highest bit of the length of a chunk is lost'
body='''
func TestDemo(t *testing.T) {
	for _, n := range []int{100, 70000, 5000000} {
		roundTrip(t, 8000000, noise(n))
		roundTrip(t, 8000000, make([]byte, n))
	}
}
'''
#=====
id='c07-stored-only-if-much-longer'
prop='C07'
pkg='orc'
edits=[('orc/common/misc.go','''		if cBuf.Len() > chunkSize { // original
''','''		if cBuf.Len() > chunkSize+chunkSize/32+16 { // original
''')]
needs='a full chunk of data that gets a little longer by compression'
breaks='chunks are written which are longer than the chunk size, the reader of a stream refuses them'
imports=['math/rand']
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_DOUBLE, direct, false}}
	s := schemaOf(cs...)
	path := scratch(t)
	o := options(pb.CompressionKind_ZLIB, 400, 100000)
	r := rand.New(rand.NewSource(1))
	data := dataOf(1000, cs...)
	for i := range data[0] {
		data[0][i].V = r.NormFloat64()
	}
	writeFile(t, path, s, o, data, 100)
	readFile(t, path, s, data, 300)
}
'''
