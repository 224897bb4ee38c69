// Package ref is the independent reference model: MAVLink framing, the X.25 checksum, the stream
// scan and the payload codec, written from the MAVLink serialization guide and driven by the
// committed schema. It imports nothing from the library under test.
package ref

// Field is one payload field, in wire order.
type Field struct {
	Name  string
	Type  string
	Count int  `json:",omitempty"` // 0: scalar
	Ext   bool `json:",omitempty"`
}

// Elem is the size of one element.
func (f Field) Elem() int {
	switch f.Type {
	case "uint8", "int8", "bool":
		return 1
	case "uint16", "int16":
		return 2
	case "uint32", "int32", "float32":
		return 4
	case "uint64", "int64", "float64":
		return 8
	}
	panic("type " + f.Type)
}

// N is the number of elements.
func (f Field) N() int {
	if f.Count == 0 {
		return 1
	}
	return f.Count
}

// Size is the wire size.
func (f Field) Size() int { return f.Elem() * f.N() }

// Line is one line of the textual form of a message.
type Line struct {
	Label  string
	Suffix string `json:",omitempty"`
}

// Str is a char-array field with a setter and a getter.
type Str struct {
	Name string
	Cap  int
}

// Msg is one message definition.
type Msg struct {
	ID       uint32
	CRC      byte
	Min, Max int
	Type     string
	Name     string
	Dialect  string
	Ext      bool `json:",omitempty"`
	Fields   []Field
	Display  []Line
	Strings  []Str `json:",omitempty"`
	// Confirmed: CRC was recomputed from the field names and types
	Confirmed bool `json:",omitempty"`
}

// Dialect is one dialect package.
type Dialect struct {
	Package string
	Name    string
	Msgs    []Msg
}

// Schema is all of them.
type Schema struct{ Dialects []Dialect }
