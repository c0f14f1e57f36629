import sys; sys.path.insert(0,"/verif/tools")
from mkseed import make
make("c03-guidarray-negative","C03",[["ua/binary_decoder.go","""	if n < 0 {
		*value = nil
		return nil
	}
	temp := make([]uuid.UUID, n)""","""	if n == -1 {
		*value = nil
		return nil
	}
	temp := make([]uuid.UUID, n)"""]],
 "a Guid array whose announced length is negative but not -1","decoding panics (makeslice: len out of range)","ua",'''package ua
import ("bytes";"testing")
func TestDemo(t *testing.T) {
	for _, b := range [][]byte{{0xff,0xff,0xff,0xff}, {0xfe,0xff,0xff,0xff}, {0,0,0,0x80}} {
		var o []GUIDALIAS
		NewBinaryDecoder(bytes.NewReader(b), NewEncodingContext()).ReadGUIDArray(&o)
	}
}
'''.replace("[]GUIDALIAS","[]uuid.UUID").replace('"testing")','"testing";"github.com/google/uuid")'))
make("c03-datavalue-nilvariant","C03",[["ua/binary_decoder.go","""		if len <= 0 {""","""		if len == 0 {"""]],
 "a registered structure field announced with a negative array length","to be replaced","ua","package ua\n") if False else None
