#!/usr/bin/env python3
# Writes the C33 contracts: one roundtrip and one decoding contract per payload transform.
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ['''package transform

// Generated by gen/transform.py.

//@ load msgpack

import (
	"math"

	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/payload"
)

func of(data []byte) payload.Payload {
	gvRequires(len(data) < 1<<32)
	return payload.New(data, nil)
}
''']

TB = ['''package msgpack

// Generated by gen/transform.py.

import "math"
''']

def add(name, typ, enc, dec, same, checks, param=None):
    param = param or typ
    fits = '\tgvRequires(len(v) < 1<<31)\n' if param in ('string', '[]byte', 'textual') else ''
    keep = '\told := gvOldBytes(v)\n' if param == '[]byte' else ''
    out.append(f'''
//@ lemma
//@ prop C33
func spec_{name}_roundtrip(v {param}) {{
{fits}{keep}	p, err := {enc}(v)
	gvEnsures("encodes", err == nil && p != nil)
	w, err := {dec}(p)
	gvEnsures("decodes", err == nil)
	gvEnsures("the value", {same})
}}

//@ lemma
//@ prop C33
func spec_{name}_decode(data []byte, k int) {{
	v, err := {dec}(of(data))
{checks}}}
''')

def ints(name, typ, enc, dec, size, signed, param=None):
    add(name, typ, enc, dec, 'w == v', f'''	neg, bits, ok := msgpack.SpecInt(data)
	if err == nil {{
		gvEnsures("only an integer decodes", ok)
		gvEnsures("as the number it is", bits == uint64(v) && neg == ({'v < 0' if signed else 'false'}))
	}}
''', param)

for n, s in (('Int8', 8), ('Int16', 16), ('Int32', 32), ('Int64', 64), ('Int', 64)):
    ints(n, n.lower(), n + '.Encode', n + '.Decode', s, True)
for n, s in (('Uint8', 8), ('Uint16', 16), ('Uint32', 32), ('Uint64', 64), ('Uint', 64)):
    ints(n, n.lower(), n + '.Encode', n + '.Decode', s, False)
out.append('''
type (
	small   int32
	large   int64
	natural uint64
	textual string
)
''')
ints('Int32_of', 'small', 'Int32Encode[small]', 'Int32Decode[small]', 32, True)
ints('Int64_of', 'large', 'Int64Encode[large]', 'Int64Decode[large]', 64, True)
ints('Uint64_of', 'natural', 'Uint64Encode[natural]', 'Uint64Decode[natural]', 64, False)
add('Bool', 'bool', 'Bool.Encode', 'Bool.Decode', 'w == v', '''	b := len(data) > 0 && (data[0] == 0xc2 || data[0] == 0xc3)
	gvEnsures("exactly a boolean decodes", (err == nil) == b)
	gvEnsures("as the value it is", !b || v == (data[0] == 0xc3))
''')
for n, bits in (('Float32', 32), ('Float64', 64)):
    add(n, n.lower(), n + '.Encode', n + '.Decode', f'math.{n}bits(w) == math.{n}bits(v)',
        ('' if bits == 64 else '	one := len(data) >= 5 && data[0] == 0xca\n') + f'''	two := len(data) >= 9 && data[0] == 0xcb
	gvEnsures("exactly a floating point number decodes", (err == nil) == ({'one || two' if bits == 32 else 'two'}))
	gvEnsures("as the number it is", !{'one' if bits == 32 else 'two'} || uint64(math.{n}bits(v)) == msgpack.SpecBits(data[1:], {bits // 8}))
''')
text = '''	if err == nil {
		n, count, ok := msgpack.SpecText(data)
		gvEnsures("only a complete string decodes", ok && count <= uint64(len(data)-n) && uint64(len(v)) == count)
		if 0 <= k && k < len(v) {
			gvEnsures("its content", v[k] == data[n+k])
		}
	}
'''
add('String', 'string', 'String.Encode', 'String.Decode', 'w == v', text)
add('String_of', 'textual', 'StringEncode[textual]', 'StringDecode[textual]', 'w == v', text)
add('Bytes', '[]byte', 'Bytes.Encode', 'Bytes.Decode', 'gvBytesEq(w, old)', text.replace('SpecText', 'SpecBinary').replace('complete string', 'complete byte string'))

for n, t, r in (('I8', 'int8', 'Int8'), ('I16', 'int16', 'Int16'), ('I32', 'int32', 'Int32'), ('I64', 'int64', 'Int64'), ('U8', 'uint8', 'Uint8'), ('U16', 'uint16', 'Uint16'),
                ('U32', 'uint32', 'Uint32'), ('U64', 'uint64', 'Uint64'), ('Bool', 'bool', 'Bool'), ('String', 'string', 'String'), ('Bytes', '[]byte', 'ByteArray'), ('F32', 'float32', 'Float32'), ('F64', 'float64', 'Float64')):
    same = f'math.{r}bits(w) == math.{r}bits(v)' if t[0] == 'f' else 'gvBytesEq(w, old)' if t[0] == '[' else 'w == v'
    TB.append(f'''
//@ contract {n}ToBytes
//@ prop C33
func spec_{n}ToBytes(v {t}) {{
''' + ('\tgvRequires(len(v) < 1<<31)\n' if t in ('string', '[]byte') else '') + ('\told := gvOldBytes(v)\n' if t == '[]byte' else '') + f'''	b, err := {n}ToBytes(v)
	gvEnsures("encodes", err == nil)
	d := NewDecoder(b)
	w, err := d.Read{r}()
	gvEnsures("the value", err == nil && {same})
	gvEnsures("one value, nothing else", int(d.reader.byteOffset) == len(b))
}}
''')
out.append('''
// number is a value with its own codec.
type number struct{ n uint32 }

func (c *number) Decode(d msgpack.Reader) (err error) {
	c.n, err = d.ReadUint32()
	return err
}

func (c *number) Encode(e msgpack.Writer) error {
	e.WriteUint32(c.n)
	return e.Err()
}

//@ lemma
//@ prop C33
func spec_Codec_roundtrip(v uint32) {
	p, err := MsgPackEncode[number](number{v})
	gvEnsures("encodes", err == nil && p != nil)
	w, err := MsgPackDecode[number](p)
	gvEnsures("decodes", err == nil)
	gvEnsures("the value", w.n == v)
	q, err := CodecEncode(&number{v})
	gvEnsures("encodes", err == nil && gvBytesEq(q.Data(), p.Data()))
	var u number
	gvEnsures("decodes", CodecDecode(q, &u) == nil)
	gvEnsures("the value", u.n == v)
}

//@ lemma
//@ prop C33
func spec_Codec_decode(data []byte) {
	v, err := MsgPackDecode[number](of(data))
	neg, bits, ok := msgpack.SpecInt(data)
	if err == nil {
		gvEnsures("only an integer decodes", ok)
		gvEnsures("as the number it is", bits == uint64(v.n) && !neg)
	}
}
''')
p = os.path.join(V, 'contracts/transform/transform.go')
q = os.path.join(V, 'contracts/msgpack/tobytes.go')
open(q, 'w').write(''.join(TB))
open(p, 'w').write(''.join(out))
p += ' ' + q
os.system('gofmt -w ' + p + ' && sed -i "s,^// @ ,//@ ," ' + p)
