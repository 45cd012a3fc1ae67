package sym

// Type-directed access for models; only meaningful under the executor.

const only = "only available under the executor"

func TypeName(v interface{}) string                                         { panic(only) }
func Kind(v interface{}) string                                             { panic(only) }
func IsNil(v interface{}) bool                                              { panic(only) }
func Elem(v interface{}) interface{}                                        { panic(only) }
func NewElem(v interface{}) interface{}                                     { panic(only) }
func NumField(v interface{}) int                                            { panic(only) }
func FieldInfo(v interface{}, i int) (name, tag string, exported, emb bool) { panic(only) }
func Field(v interface{}, i int) interface{}                                { panic(only) }
func FieldPtr(v interface{}, i int) interface{}                             { panic(only) }
func ElemKind(v interface{}) string                                         { panic(only) }
func SetVal(p, v interface{})                                               { panic(only) }
func Len(v interface{}) int                                                 { panic(only) }
func Index(v interface{}, i int) interface{}                                { panic(only) }
func MapEntry(v interface{}, i int) (k, e interface{})                      { panic(only) }
func AsString(v interface{}) string                                         { panic(only) }
func AsBytes(v interface{}) []byte                                          { panic(only) }
func AsInt(v interface{}) int64                                             { panic(only) }
func AsBool(v interface{}) bool                                             { panic(only) }
func StoreTo(p, v interface{})                                              { panic(only) }
func AssignableTo(p, v interface{}) bool                                    { panic(only) }
func Box(v interface{}) interface{}                                         { panic(only) }
func SetNil(p interface{})                                                  { panic(only) }
func MakeSlice(p interface{}, n int)                                        { panic(only) }
func IndexPtr(p interface{}, i int) interface{}                             { panic(only) }
func Cell(p interface{}) interface{}                                        { panic(only) }
func SetCell(p, v interface{})                                              { panic(only) }
