id='c05-offset-without-index'
prop='C05'
pkg='orc'
edits=[('orc/stripe.go','''	offset := stripe.info.GetOffset() + stripe.info.GetIndexLength() + stripe.info.GetDataLength() + stripe.info.GetFooterLength()
''','''	offset := stripe.info.GetOffset() + stripe.info.GetDataLength() + stripe.info.GetFooterLength()
''')]
needs='a writer recording row indexes and more than one stripe'
breaks='the second stripe is recorded too early in the file by the size of the index of the first'
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_LONG, v2, false}, {pb.Type_STRING, v2, true}}
	s := schemaOf(cs...)
	path := scratch(t)
	o := options(pb.CompressionKind_ZLIB, 1000, 6000)
	o.WriteIndex = true
	o.IndexStride = 100
	data := dataOf(5000, cs...)
	writeFile(t, path, s, o, data, 500)
	readFile(t, path, s, data, 700)
}
'''
#=====
id='c05-unread-presents'
prop='C05'
pkg='orc'
edits=[('orc/stripe.go','''		if readers[id] != nil {
			if err := readers[id].InitStream(streamInfo, dataStart); err != nil {
				return err
			}
		}
		dataStart += length
''','''		if readers[id] == nil && streamKind == pb.Stream_PRESENT {
			continue // nobody asks for the nulls
		}
		if readers[id] != nil {
			if err := readers[id].InitStream(streamInfo, dataStart); err != nil {
				return err
			}
		}
		dataStart += length
''')]
needs='reading some columns behind a column with nulls which is left out'
breaks='streams of the columns read are looked for too early'
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_LONG, v2, false}, {pb.Type_STRING, v2, true}, {pb.Type_INT, v2, false}}
	s := schemaOf(cs...)
	path := scratch(t)
	data := dataOf(2000, cs...)
	writeFile(t, path, s, options(pb.CompressionKind_ZLIB, 1000, 100000), data, 500)
	readFile(t, path, s, data, 700, 0, 2)
}
'''
#=====
id='c05-nanos-before-data'
prop='C05'
pkg='orc'
edits=[('orc/column/time.go','''	if w.schema.HasNulls {
		return []*pb.Stream{w.present.Info(), w.data.Info(), w.secondary.Info()}
	}
''','''	if w.schema.HasNulls {
		return []*pb.Stream{w.present.Info(), w.secondary.Info(), w.data.Info()}
	}
''')]
needs='a timestamp column with nulls'
breaks='the streams of the column are listed in another order than written'
body='''
func TestDemo(t *testing.T) {
	quiet()
	cs := []col{{pb.Type_LONG, v2, false}, {pb.Type_TIMESTAMP, v2, true}}
	s := schemaOf(cs...)
	path := scratch(t)
	data := dataOf(300, cs...)
	writeFile(t, path, s, options(pb.CompressionKind_ZLIB, 1000, 100000), data, 500)
	readFile(t, path, s, data, 700)
}
'''
