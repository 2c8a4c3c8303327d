id='c18-open-creates'
prop='C18'
pkg='orc'
edits=[('orc/io/file.go','''func OpenFileForRead(path string) (File, error) {
	f, err := os.Open(path)
''','''func OpenFileForRead(path string) (File, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0644)
''')]
needs='opening a file for reading which does not exist'
breaks='opening a file which is not there for reading creates it'
body='''
func TestDemo(t *testing.T) {
	quiet()
	path := scratch(t)
	if _, err := orc.NewOSFileReader(path); err == nil {
		t.Fatal("no error")
	}
	if _, err := os.Stat(path); err == nil {
		t.Fatal("file was created by reading it")
	}
}
'''
#=====
id='c18-invalid-removed'
prop='C18'
pkg='orc'
edits=[('orc/reader.go','''		return nil, errors.New("file size 0")
''','''		if of, ok := f.(interface{ Remove() error }); ok {
			if err := of.Remove(); err != nil {
				return nil, err
			}
		}
		return nil, errors.New("file size 0")
'''),('orc/io/file.go','''func (f *osFile) Size() (int64, error) {
''','''func (f *osFile) Remove() error {
	return os.Remove(f.path)
}

func (f *osFile) Size() (int64, error) {
''')]
needs='reading an empty file'
breaks='a reader removes empty files'
body='''
func TestDemo(t *testing.T) {
	quiet()
	path := scratch(t)
	if err := ioutil.WriteFile(path, nil, 0600); err != nil {
		t.Fatal(err)
	}
	if _, err := orc.NewOSFileReader(path); err == nil {
		t.Fatal("no error")
	}
	if _, err := os.Stat(path); err != nil {
		t.Fatal(err)
	}
}
'''
#=====
id='c18-writer-path'
prop='C18'
pkg='orc'
edits=[('orc/writer.go','''	f, err := orcio.OpenFileForWrite(path)
''','''	f, err := orcio.OpenFileForWrite(strings.TrimSuffix(path, ".tmp"))
'''),('orc/writer.go','''import (
	"bytes"
''','''import (
	"bytes"
	"strings"
''')]
needs='a path ending in .tmp'
breaks='a file other than the one asked for is overwritten'
body='''
func TestDemo(t *testing.T) {
	quiet()
	path := scratch(t)
	if err := ioutil.WriteFile(path, []byte("precious"), 0600); err != nil {
		t.Fatal(err)
	}
	c := col{pb.Type_LONG, v2, false}
	writeFile(t, path+".tmp", schemaOf(c), options(pb.CompressionKind_ZLIB, 1000, 100000), dataOf(50, c), 10)
	b, err := ioutil.ReadFile(path)
	if err != nil || string(b) != "precious" {
		t.Fatalf("%v %.10q", err, b)
	}
}
'''
