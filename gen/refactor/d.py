R = []
def r(id, *edits, all=False):
    R.append(dict(id=id, edits=edits, all=all))
M = 'orc/common/misc.go'
S = 'orc/stream/reader.go'

ENC = '''	header = make([]byte, 3)
	if orig {
		header[0] = 0x01 | byte(l<<1)
	} else {
		header[0] = byte(l << 1)
	}
	header[1] = byte(l >> 7)
	header[2] = byte(l >> 15)
	return
'''
r('enc-one-word', (M, ENC, '''	v := uint32(l) << 1
	if orig {
		v |= 1
	}
	return []byte{byte(v), byte(v >> 8), byte(v >> 16)}
'''))
r('enc-add', (M, ENC, '''	flag := 0
	if orig {
		flag = 1
	}
	v := l*2 + flag
	header = make([]byte, 0, 3)
	for i := 0; i < 3; i++ {
		header = append(header, byte(v>>(8*uint(i))))
	}
	return header
'''))
r('dec-one-word', (M, '''	return int(h[2])<<15 | int(h[1])<<7 | int(h[0])>>1, h[0]&0x01 == 0x01
''', '''	v := uint32(h[0]) | uint32(h[1])<<8 | uint32(h[2])<<16
	return int(v >> 1), v&1 != 0
'''))
r('dec-branches', (M, '''	return int(h[2])<<15 | int(h[1])<<7 | int(h[0])>>1, h[0]&0x01 == 0x01
''', '''	length = int(h[0]) / 2
	length += int(h[1]) * 128
	length += int(h[2]) * 32768
	if h[0]%2 == 1 {
		orig = true
	}
	return length, orig
'''))
CH = '''		if cBuf.Len() > chunkSize { // original
			header := encChunkHeader(chunkSize, true)
			if _, err = dst.Write(header); err != nil {
				return errors.WithStack(err)
			}
			if _, err = dst.Write(buf); err != nil {
				return errors.WithStack(err)
			}
			logger.Tracef("write a chunk, compressed original, src remains %d, dst len %d", src.Len(), dst.Len())

		} else {
			header := encChunkHeader(cBuf.Len(), false)
			if _, err = dst.Write(header); err != nil {
				return errors.WithStack(err)
			}
			if _, err = cBuf.WriteTo(dst); err != nil {
				return errors.WithStack(err)
			}
			logger.Tracef("write a chunk, compressed zlib, src remaining %d, dst len %d", src.Len(), cBuf.Len())
		}
'''
LEFT = '''	if tmpCBuf.Len() > len(data) { // original
		header := encChunkHeader(len(data), true)
		if _, err = dst.Write(header); err != nil {
			return errors.WithStack(err)
		}
		if _, err = dst.Write(data); err != nil {
			return errors.WithStack(err)
		}
		logger.Tracef("write last chunk, compressing original, dst len %d", dst.Len())
	} else {
		header := encChunkHeader(tmpCBuf.Len(), false)
		if _, err = dst.Write(header); err != nil {
			return errors.WithStack(err)
		}
		if _, err = tmpCBuf.WriteTo(dst); err != nil {
			return errors.WithStack(err)
		}
		logger.Tracef("write last chunk, compressing zlib,  dst len %d", dst.Len())
	}
'''
r('one-chunk-helper', (M, CH, '''		if err = putChunk(dst, buf, cBuf); err != nil {
			return err
		}
'''), (M, LEFT, '''	if err = putChunk(dst, data, tmpCBuf); err != nil {
		return err
	}
'''), (M, None, '''

// putChunk writes the shorter of both forms
func putChunk(dst *bytes.Buffer, data []byte, packed *bytes.Buffer) error {
	body, orig := packed.Bytes(), false
	if len(body) > len(data) {
		body, orig = data, true
	}
	if _, err := dst.Write(encChunkHeader(len(body), orig)); err != nil {
		return errors.WithStack(err)
	}
	_, err := dst.Write(body)
	return errors.WithStack(err)
}
'''))
r('new-compressor-per-chunk', (M, '''	cBuf := bytes.NewBuffer(make([]byte, chunkSize))
	compressor, err := flate.NewWriter(cBuf, -1)
	if err != nil {
		return errors.WithStack(err)
	}

	logger.Tracef("start''', '''	logger.Tracef("start'''), (M, '''		cBuf.Reset()
		// a closed compressor has to be reset, every chunk is decompressed independently
		compressor.Reset(cBuf)
''', '''		cBuf := &bytes.Buffer{}
		compressor, err := flate.NewWriter(cBuf, -1)
		if err != nil {
			return errors.WithStack(err)
		}
'''))
r('loop-with-break', (M, '''	for src.Len() > chunkSize {
		if _, err := io.ReadFull(src, buf)''', '''	for {
		if src.Len() <= chunkSize {
			break
		}
		if _, err := io.ReadFull(src, buf)'''))
r('next-instead-of-copy', (M, '''		if _, err := io.ReadFull(src, buf); err != nil {
			return errors.WithStack(err)
		}
''', '''		buf := src.Next(chunkSize)
'''), (M, '''	buf := make([]byte, chunkSize)

	cBuf''', '''	cBuf'''))
r('left-from-bytes', (M, '''	tmpBuf := bytes.NewBuffer(make([]byte, chunkSize))
	tmpBuf.Reset()
	if _, err := src.WriteTo(tmpBuf); err != nil {
		return errors.WithStack(err)
	}

''', ''), (M, '''	if _, err := tmpBuf.WriteTo(compressor); err != nil {
		return errors.WithStack(err)
	}
''', '''	if _, err := compressor.Write(data); err != nil {
		return errors.WithStack(err)
	}
'''), (M, LEFT, LEFT + '''	src.Reset()
'''))
r('header-bytes-one-by-one', (M, '''		header := encChunkHeader(len(data), true)
		if _, err = dst.Write(header); err != nil {
			return errors.WithStack(err)
		}
		if _, err = dst.Write(data)''', '''		for _, b := range encChunkHeader(len(data), true) {
			if err = dst.WriteByte(b); err != nil {
				return errors.WithStack(err)
			}
		}
		if _, err = dst.Write(data)'''))
r('shorter-first', (M, '''	if tmpCBuf.Len() > len(data) { // original
		header := encChunkHeader(len(data), true)
''', '''	stored := len(data) < tmpCBuf.Len()
	if stored {
		header := encChunkHeader(len(data), stored)
'''))
r('kind-by-if', (M, '''	switch kind {
	case pb.CompressionKind_NONE:
		n, err := src.WriteTo(dst)
		logger.Tracef("no compression write %d", n)
		if err != nil {
			return err
		}
	case pb.CompressionKind_ZLIB:
		if err := zlibCompressingToChunks(chunkSize, dst, src); err != nil {
			return err
		}

	default:
		return errors.New("compression kind error")
	}
	return nil
''', '''	if kind == pb.CompressionKind_NONE {
		_, err := src.WriteTo(dst)
		return err
	}
	if kind != pb.CompressionKind_ZLIB {
		return errors.New("compression kind error")
	}
	return zlibCompressingToChunks(chunkSize, dst, src)
'''))
r('chunks-head-array', (M, '''			header := make([]byte, 3)
			if _, err = io.ReadFull(src, header); err != nil {
				return errors.WithStack(err)
			}

			chunkLength, original := DecChunkHeader(header)
''', '''			var header [3]byte
			if _, err = io.ReadFull(src, header[:]); err != nil {
				return errors.WithStack(err)
			}

			chunkLength, original := DecChunkHeader(header[:])
'''))
r('chunks-by-decompress', (M, '''				r := flate.NewReader(buf)
				if _, err = io.Copy(dst, r); err != nil {
					return errors.WithStack(err)
				}
				if err = r.Close(); err != nil {
					return errors.WithStack(err)
				}
''', '''				if _, err = Decompress(kind, dst, buf); err != nil {
					return err
				}
'''))
r('chunks-one-target', (M, '''			if original {
				if _, err = io.CopyN(dst, src, int64(chunkLength)); err != nil {
					return errors.WithStack(err)
				}
			} else {
				buf := bytes.NewBuffer(make([]byte, chunkLength))
				buf.Reset()
				if _, err = io.CopyN(buf, src, int64(chunkLength)); err != nil {
					return errors.WithStack(err)
				}
				r''', '''			buf := dst
			if !original {
				buf = &bytes.Buffer{}
			}
			if _, err = io.CopyN(buf, src, int64(chunkLength)); err != nil {
				return errors.WithStack(err)
			}
			if !original {
				r'''))
BODY = '''	if original {
		if _, err := io.CopyN(r.buf, r.f, int64(chunkLength)); err != nil {
			return errors.WithStack(err)
		}
	} else {
		r.cmpBuf.Reset()
		if _, err := io.CopyN(r.cmpBuf, r.f, int64(chunkLength)); err != nil {
			return errors.WithStack(err)
		}
		if _, err := common.Decompress(r.opts.CompressionKind, r.buf, r.cmpBuf); err != nil {
			return err
		}
	}
'''
r('reader-body-helper', (S, BODY, '''	if err := r.readBody(int64(chunkLength), original); err != nil {
		return err
	}
'''), (S, None, '''
func (r *reader) readBody(n int64, original bool) error {
	target := r.buf
	if !original {
		r.cmpBuf.Reset()
		target = r.cmpBuf
	}
	if _, err := io.CopyN(target, r.f, n); err != nil {
		return errors.WithStack(err)
	}
	if original {
		return nil
	}
	_, err := common.Decompress(r.opts.CompressionKind, r.buf, r.cmpBuf)
	return err
}
'''))
r('reader-plain-helper', (S, '''		l := r.opts.ChunkSize
		if r.info.GetLength()-r.readLength < l {
			l = r.info.GetLength() - r.readLength
		}

		logger.Tracef("read a chunk, no compression copy %d from stream", l)

		if _, err := io.CopyN(r.buf, r.f, int64(l)); err != nil {
			return errors.WithStack(err)
		}

		r.readLength += l
		return nil
	}

	head''', '''		return r.readPlain()
	}

	head'''), (S, None, '''
func (r *reader) readPlain() error {
	l := r.info.GetLength() - r.readLength
	if l > r.opts.ChunkSize {
		l = r.opts.ChunkSize
	}
	n, err := io.CopyN(r.buf, r.f, int64(l))
	if err != nil {
		return errors.WithStack(err)
	}
	r.readLength += uint64(n)
	return nil
}
'''))
r('reader-count-at-end', (S, '''	r.readLength += 3
	chunkLength''', '''	chunkLength'''), (S, '''	r.readLength += uint64(chunkLength)
	return nil
}

func (r reader) finished''', '''	r.readLength += uint64(chunkLength) + uint64(len(head))
	return nil
}

func (r reader) finished'''))
r('reader-limit-flipped', (S, '''	if uint64(chunkLength) > r.opts.ChunkSize {
		return''', '''	if limit := r.opts.ChunkSize; limit < uint64(chunkLength) {
		return'''))
r('readbyte-single-exit', (S, '''	if r.buf.Len() >= 1 {
		b, err = r.buf.ReadByte()
		if err != nil {
			return b, errors.WithStack(err)
		}
		return
	}

	if r.readLength >= r.info.GetLength() {
		return 0, errors.Wrapf(io.EOF, "stream %s to the end", r.info.String())
	}

	if err = r.readAChunk(); err != nil {
		return 0, err
	}
''', '''	if r.buf.Len() == 0 {
		if r.readLength >= r.info.GetLength() {
			return 0, errors.Wrapf(io.EOF, "stream %s to the end", r.info.String())
		}
		if err = r.readAChunk(); err != nil {
			return 0, err
		}
	}
'''))
r('read-loop-first', (S, '''	if r.buf.Len() >= len(p) {
		n, err = r.buf.Read(p)
		if err != nil {
			return n, errors.WithStack(err)
		}
		return
	} else if r.readLength >= r.info.GetLength() {
		return 0, errors.New("stream reach end")
	}

	for r''', '''	if r.buf.Len() < len(p) && r.readLength >= r.info.GetLength() {
		return 0, errors.New("stream reach end")
	}
	for r'''))
