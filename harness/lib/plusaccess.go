package lib

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/ElectroUnion/egts-gate/libs/egts"

	"verif/harness/h"
	"verif/harness/ref"
)

// plusAccess looks at the EGTS+ data of a decoded packet through the accessors, the
// names of the reasons and the way back from the JSON form.
func plusAccess(r *h.Run, p *egts.Package, w []byte) {
	var sds *egts.ServiceDataSet
	switch d := p.ServicesFrameData.(type) {
	case *egts.ServiceDataSet:
		sds = d
	case *egts.PtResponse:
		sds, _ = d.SDR.(*egts.ServiceDataSet)
	}
	if sds == nil {
		return
	}
	for _, rec := range *sds {
		for _, rd := range rec.RecordDataSet {
			m, ok := rd.SubrecordData.(*egts.StorageRecord)
			if !ok {
				continue
			}
			c := func() map[string]any { return map[string]any{"wire": hexs(w)} }
			n, d := accessors(reflect.ValueOf(m))
			r.Count("accessors compared", int64(n))
			if d != "" {
				r.Violate("accessor of EGTS+ data", d, c())
			}
			for _, x := range m.RecordReason {
				want, ok := ref.PlusReasons[int32(x)]
				if !ok {
					want = fmt.Sprint(int32(x))
				}
				if x.String() != want {
					r.Violate("name of an EGTS+ reason", fmt.Sprintf("%d is called %q, want %q", int32(x), x.String(), want), c())
				}
				if y := x.Enum(); y == nil || *y != x {
					r.Violate("pointer to an EGTS+ reason", fmt.Sprint(x), c())
				}
				for _, text := range []string{fmt.Sprint(int32(x)), fmt.Sprintf("%q", want)} {
					var back egts.StorageRecordReason
					if !ok && text[0] == '"' {
						continue
					}
					if err := json.Unmarshal([]byte(text), &back); err != nil || back != x {
						r.Violate("EGTS+ reason read back", fmt.Sprintf("%s gives %d, %v", text, int32(back), err), c())
					}
				}
				r.Count("reasons named", 1)
			}
			b, err := json.Marshal(m)
			if err != nil {
				continue // a number JSON cannot show
			}
			var back egts.StorageRecord
			if err := json.Unmarshal(b, &back); err != nil {
				r.Violate("EGTS+ data read back from JSON", err.Error(), c())
			} else if b2, err := json.Marshal(&back); err != nil || string(b2) != string(b) {
				r.Violate("EGTS+ data read back from JSON", fmt.Sprintf("%s became %s, %v", b, b2, err), c())
			}
			m2 := *m
			m2.Reset()
			if l := m2.Length(); l != 0 || m2.TimeStamp != nil || len(m2.RecordReason) > 0 || m2.GetRecordNumber() != 0 {
				r.Violate("EGTS+ data after Reset", fmt.Sprintf("length %d, %+v", l, m2.String()), c())
			}
		}
	}
}

// accessors compares every Get method of a message with its field, and those of the
// messages inside; a nil message must give zero values.
func accessors(p reflect.Value) (n int, diff string) {
	t := p.Type().Elem()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if strings.HasPrefix(f.Name, "XXX") {
			continue
		}
		g := p.MethodByName("Get" + f.Name)
		if !g.IsValid() {
			return n, "no accessor of " + t.Name() + "." + f.Name
		}
		got := g.Call(nil)[0]
		v := p.Elem().Field(i)
		want := v
		if v.Kind() == reflect.Ptr && v.Type().Elem().Kind() != reflect.Struct {
			if want = reflect.Zero(v.Type().Elem()); !v.IsNil() {
				want = v.Elem()
			}
		}
		if !same(got, want) {
			return n, fmt.Sprintf("Get%s of %s gives %v, the field holds %v", f.Name, t.Name(), got, want)
		}
		if z := reflect.New(p.Type()).Elem().MethodByName("Get" + f.Name).Call(nil)[0]; !same(z, reflect.Zero(z.Type())) {
			return n, fmt.Sprintf("Get%s of no %s gives %v", f.Name, t.Name(), z)
		}
		n++
		var in []reflect.Value
		switch {
		case v.Kind() == reflect.Ptr && v.Type().Elem().Kind() == reflect.Struct && !v.IsNil():
			in = append(in, v)
		case v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Ptr:
			for k := 0; k < v.Len(); k++ {
				in = append(in, v.Index(k))
			}
		}
		for _, x := range in {
			k, d := accessors(x)
			if n += k; d != "" {
				return n, d
			}
		}
	}
	return n, ""
}

// same is deep equality that takes a float for its bits.
func same(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	if a.Kind() == reflect.Float32 || a.Kind() == reflect.Float64 {
		return a.Float() == b.Float() || a.Float() != a.Float() && b.Float() != b.Float()
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}
