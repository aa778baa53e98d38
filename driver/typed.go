package main

// The typed forms of the edits, one by one.

import "github.com/ecoshub/jin"

func typedI(d []byte, op string, p []string, k string, n int, a arg, raw []byte) ([]byte, error) {
	switch a.form {
	case "raw":
		return editI(d, edit{op, p, k, n, raw})
	case "string":
		switch op {
		case "Set":
			return jin.SetString(d, a.text, p...)
		case "AddKeyValue":
			return jin.AddKeyValueString(d, k, a.text, p...)
		case "Add":
			return jin.AddString(d, a.text, p...)
		case "Insert":
			return jin.InsertString(d, n, a.text, p...)
		case "Store":
			return jin.StoreString(d, k, a.text, p...)
		}
	case "int":
		v := int(a.i)
		switch op {
		case "Set":
			return jin.SetInt(d, v, p...)
		case "AddKeyValue":
			return jin.AddKeyValueInt(d, k, v, p...)
		case "Add":
			return jin.AddInt(d, v, p...)
		case "Insert":
			return jin.InsertInt(d, n, v, p...)
		case "Store":
			return jin.StoreInt(d, k, v, p...)
		}
	case "float":
		switch op {
		case "Set":
			return jin.SetFloat(d, a.f, p...)
		case "AddKeyValue":
			return jin.AddKeyValueFloat(d, k, a.f, p...)
		case "Add":
			return jin.AddFloat(d, a.f, p...)
		case "Insert":
			return jin.InsertFloat(d, n, a.f, p...)
		case "Store":
			return jin.StoreFloat(d, k, a.f, p...)
		}
	case "bool":
		switch op {
		case "Set":
			return jin.SetBool(d, a.b, p...)
		case "AddKeyValue":
			return jin.AddKeyValueBool(d, k, a.b, p...)
		case "Add":
			return jin.AddBool(d, a.b, p...)
		case "Insert":
			return jin.InsertBool(d, n, a.b, p...)
		case "Store":
			return jin.StoreBool(d, k, a.b, p...)
		}
	case "int32":
		v := int32(a.i)
		switch op {
		case "AddKeyValue":
			return jin.AddKeyValueInt32(d, k, v, p...)
		case "Add":
			return jin.AddInt32(d, v, p...)
		case "Insert":
			return jin.InsertInt32(d, n, v, p...)
		}
	case "int64":
		switch op {
		case "AddKeyValue":
			return jin.AddKeyValueInt64(d, k, a.i, p...)
		case "Add":
			return jin.AddInt64(d, a.i, p...)
		case "Insert":
			return jin.InsertInt64(d, n, a.i, p...)
		}
	case "uint":
		v := uint(a.u)
		switch op {
		case "AddKeyValue":
			return jin.AddKeyValueUint(d, k, v, p...)
		case "Add":
			return jin.AddUint(d, v, p...)
		case "Insert":
			return jin.InsertUint(d, n, v, p...)
		}
	case "uint32":
		v := uint32(a.u)
		switch op {
		case "AddKeyValue":
			return jin.AddKeyValueUint32(d, k, v, p...)
		case "Add":
			return jin.AddUint32(d, v, p...)
		case "Insert":
			return jin.InsertUint32(d, n, v, p...)
		}
	case "uint64":
		switch op {
		case "AddKeyValue":
			return jin.AddKeyValueUint64(d, k, a.u, p...)
		case "Add":
			return jin.AddUint64(d, a.u, p...)
		case "Insert":
			return jin.InsertUint64(d, n, a.u, p...)
		}
	}
	panic("form " + a.form + " of " + op)
}

func typedJ(j *jin.JO, op string, p []string, k string, n int, a arg, raw []byte) error {
	switch a.form {
	case "raw":
		return editJ(j, edit{op, p, k, n, raw})
	case "string":
		switch op {
		case "Set":
			return j.SetString(a.text, p...)
		case "AddKeyValue":
			return j.AddKeyValueString(k, a.text, p...)
		case "Add":
			return j.AddString(a.text, p...)
		case "Insert":
			return j.InsertString(n, a.text, p...)
		case "Store":
			return j.StoreString(k, a.text, p...)
		}
	case "int":
		v := int(a.i)
		switch op {
		case "Set":
			return j.SetInt(v, p...)
		case "AddKeyValue":
			return j.AddKeyValueInt(k, v, p...)
		case "Add":
			return j.AddInt(v, p...)
		case "Insert":
			return j.InsertInt(n, v, p...)
		case "Store":
			return j.StoreInt(k, v, p...)
		}
	case "float":
		switch op {
		case "Set":
			return j.SetFloat(a.f, p...)
		case "AddKeyValue":
			return j.AddKeyValueFloat(k, a.f, p...)
		case "Add":
			return j.AddFloat(a.f, p...)
		case "Insert":
			return j.InsertFloat(n, a.f, p...)
		case "Store":
			return j.StoreFloat(k, a.f, p...)
		}
	case "bool":
		switch op {
		case "Set":
			return j.SetBool(a.b, p...)
		case "AddKeyValue":
			return j.AddKeyValueBool(k, a.b, p...)
		case "Add":
			return j.AddBool(a.b, p...)
		case "Insert":
			return j.InsertBool(n, a.b, p...)
		case "Store":
			return j.StoreBool(k, a.b, p...)
		}
	}
	panic("form " + a.form + " of " + op)
}

func typedP(j *jin.Parser, op string, p []string, k string, n int, a arg, raw []byte) error {
	switch a.form {
	case "raw":
		return editP(j, edit{op, p, k, n, raw})
	case "string":
		switch op {
		case "Set":
			return j.SetString(a.text, p...)
		case "AddKeyValue":
			return j.AddKeyValueString(k, a.text, p...)
		case "Add":
			return j.AddString(a.text, p...)
		case "Insert":
			return j.InsertString(n, a.text, p...)
		}
	case "int":
		v := int(a.i)
		switch op {
		case "Set":
			return j.SetInt(v, p...)
		case "AddKeyValue":
			return j.AddKeyValueInt(k, v, p...)
		case "Add":
			return j.AddInt(v, p...)
		case "Insert":
			return j.InsertInt(n, v, p...)
		}
	case "float":
		switch op {
		case "Set":
			return j.SetFloat(a.f, p...)
		case "AddKeyValue":
			return j.AddKeyValueFloat(k, a.f, p...)
		case "Add":
			return j.AddFloat(a.f, p...)
		case "Insert":
			return j.InsertFloat(n, a.f, p...)
		}
	case "bool":
		switch op {
		case "Set":
			return j.SetBool(a.b, p...)
		case "AddKeyValue":
			return j.AddKeyValueBool(k, a.b, p...)
		case "Add":
			return j.AddBool(a.b, p...)
		case "Insert":
			return j.InsertBool(n, a.b, p...)
		}
	}
	panic("form " + a.form + " of " + op)
}
