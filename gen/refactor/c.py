R = []
def r(id, *edits, all=False):
    R.append(dict(id=id, edits=edits, all=all))
S = 'orc/stripe.go'
T = 'orc/api/type.go'

INC = '''	if len(bo.Includes) == 0 {
		return true
	}
	for _, v := range bo.Includes {
		if v == id {
			return true
		}
	}
	return false
'''
r('include-mark', (T, INC, '''	if len(bo.Includes) == 0 {
		return true
	}
	found := false
	for i := range bo.Includes {
		if bo.Includes[i] == id {
			found = true
		}
	}
	return found
'''))
r('include-or', (T, INC, '''	found := len(bo.Includes) == 0
	for i := 0; !found && i < len(bo.Includes); i++ {
		found = bo.Includes[i] == id
	}
	return found
'''))
r('include-helper', (T, INC, '''	return len(bo.Includes) == 0 || contains(bo.Includes, id)
'''), (T, None, '''
func contains(ids []uint32, id uint32) bool {
	for _, v := range ids {
		if v != id {
			continue
		}
		return true
	}
	return false
}
'''))
CRE = '''	create := len(opt.Includes) == 0

	if !create {
		for _, id := range opt.Includes {
			if td.Id == id {
				create = true
				break
			}
		}
	}

	if create {
		switch td.Kind {
		case pb.Type_STRUCT:
			return td.createStructVector(opt)
		case pb.Type_LIST:
			return td.createListVector(opt)
		case pb.Type_MAP:
			return td.createMapVector(opt)
		case pb.Type_UNION:
			panic("not impl")

		case pb.Type_DECIMAL:
			return td.createDecimal64(opt)

		case pb.Type_TIMESTAMP:
			return td.createTimestamp(opt)

		default:
			return td.createPrimaryVector(opt)
		}
	}
	return nil
'''
r('create-include', (T, CRE, '''	if !opt.IsInclude(td.Id) {
		return nil
	}

	switch td.Kind {
	case pb.Type_STRUCT:
		return td.createStructVector(opt)
	case pb.Type_LIST:
		return td.createListVector(opt)
	case pb.Type_MAP:
		return td.createMapVector(opt)
	case pb.Type_UNION:
		panic("not impl")
	case pb.Type_DECIMAL:
		return td.createDecimal64(opt)
	case pb.Type_TIMESTAMP:
		return td.createTimestamp(opt)
	}
	return td.createPrimaryVector(opt)
'''))
r('struct-vector-index', (T, '''	for _, c := range td.Children {
		childVec := c.createVector(opt)
		if childVec != nil {
			cv.Children = append(cv.Children, childVec)
		}
	}
	return cv
''', '''	var children []*ColumnVector
	for i := range td.Children {
		child := td.Children[i].createVector(opt)
		if child == nil {
			continue
		}
		children = append(children, child)
	}
	cv.Children = children
	return cv
'''))
r('list-map-literal', (T, '''	cv.Children = append(cv.Children, td.Children[0].createVector(opt))
	return cv
}

func (td TypeDescription) createMapVector(opt *BatchOption) *ColumnVector {
	cv := &ColumnVector{Id: td.Id, Kind: td.Kind, Vector: make([]Value, opt.RowSize)}
	cv.Children = append(cv.Children, td.Children[0].createVector(opt))
	cv.Children = append(cv.Children, td.Children[1].createVector(opt))
	return cv
''', '''	cv.Children = []*ColumnVector{td.Children[0].createVector(opt)}
	return cv
}

func (td TypeDescription) createMapVector(opt *BatchOption) *ColumnVector {
	key := td.Children[0].createVector(opt)
	value := td.Children[1].createVector(opt)
	return &ColumnVector{Id: td.Id, Kind: td.Kind, Vector: make([]Value, opt.RowSize), Children: []*ColumnVector{key, value}}
'''))
r('init-skip', (S, '''	for _, schema := range stripe.schemas {
		if stripe.bopt.IsInclude(schema.Id) {
			schema.Encoding = footer.GetColumns()[schema.Id].GetKind()
			r, err := column.NewReader(schema, stripe.ropts, stripe.f)
			if err != nil {
				return err
			}
			readers[schema.Id] = r
			if stripe.columnReader==nil {
				stripe.columnReader= r
			}
		}
	}
''', '''	encodings := footer.GetColumns()
	for i := range stripe.schemas {
		schema := stripe.schemas[i]
		if !stripe.bopt.IsInclude(schema.Id) {
			continue
		}
		schema.Encoding = encodings[schema.Id].GetKind()
		if readers[schema.Id], err = column.NewReader(schema, stripe.ropts, stripe.f); err != nil {
			return err
		}
		if stripe.columnReader == nil {
			stripe.columnReader = readers[schema.Id]
		}
	}
'''))
r('init-attach-helper', (S, '''		for i, c := range schema.Children {
			if stripe.bopt.IsInclude(c.Id) { // todo: verify includes map's key and value
				switch schema.Kind {
				case pb.Type_STRUCT:
					readers[schema.Id].(*column.StructReader).AddChild(readers[c.Id])
				case pb.Type_LIST:
					readers[schema.Id].(*column.ListV2Reader).SetChild(readers[c.Id])
				case pb.Type_MAP:
					if i == 0 {
						readers[schema.Id].(*column.MapV2Reader).SetKey(readers[c.Id])
					} else if i == 1 {
						readers[schema.Id].(*column.MapV2Reader).SetValue(readers[c.Id])
					} else {
						return errors.New("map children > 2")
					}
				case pb.Type_UNION:
					return errors.New("not impl")
				default:
					return errors.New("should have no child")
				}
			}
		}
''', '''		for i, c := range schema.Children {
			if !stripe.bopt.IsInclude(c.Id) {
				continue
			}
			if err := attach(schema, readers[schema.Id], i, readers[c.Id]); err != nil {
				return err
			}
		}
'''), (S, None, '''
func attach(schema *api.TypeDescription, parent column.Reader, i int, child column.Reader) error {
	switch schema.Kind {
	case pb.Type_STRUCT:
		parent.(*column.StructReader).AddChild(child)
	case pb.Type_LIST:
		parent.(*column.ListV2Reader).SetChild(child)
	case pb.Type_MAP:
		m := parent.(*column.MapV2Reader)
		switch i {
		case 0:
			m.SetKey(child)
		case 1:
			m.SetValue(child)
		default:
			return errors.New("map children > 2")
		}
	case pb.Type_UNION:
		return errors.New("not impl")
	default:
		return errors.New("should have no child")
	}
	return nil
}
'''))
r('init-attach-opened', (S, '''			if stripe.bopt.IsInclude(c.Id) { // todo: verify includes map's key and value
''', '''			if child := readers[c.Id]; child != nil {
'''))
r('init-root-after', (S, '''			readers[schema.Id] = r
			if stripe.columnReader==nil {
				stripe.columnReader= r
			}
''', '''			readers[schema.Id] = r
'''), (S, '''	// streams has sequence
''', '''	stripe.columnReader = readers[0]
	// streams has sequence
'''))
