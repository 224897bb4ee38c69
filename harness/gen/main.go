// Command gen dumps the message schema of the dialects by reflection. It was run once, by hand,
// on the pinned commit, to make ref/schema.json (which tools/confirm_crc.py then cross-checks
// against the CRC_EXTRA values); no check runs it.
package main

import (
	"encoding/json"
	"os"
	"reflect"
	"regexp"
	"strings"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/ardupilotmega"
	"github.com/botlink/go-mavlink2/asluav"
	"github.com/botlink/go-mavlink2/autoquad"
	"github.com/botlink/go-mavlink2/common"
	"github.com/botlink/go-mavlink2/icarous"
	"github.com/botlink/go-mavlink2/matrixpilot"
	"github.com/botlink/go-mavlink2/paparazzi"
	"github.com/botlink/go-mavlink2/slugs"
	"github.com/botlink/go-mavlink2/uAvionix"
	"github.com/botlink/go-mavlink2/ualberta"
	"verifharness/ref"
)

func main() {
	ds := []struct {
		name string
		d    mavlink2.Dialect
	}{
		{"common", common.Dialect{}}, {"ardupilotmega", ardupilotmega.Dialect{}}, {"asluav", asluav.Dialect{}},
		{"autoquad", autoquad.Dialect{}}, {"icarous", icarous.Dialect{}}, {"matrixpilot", matrixpilot.Dialect{}},
		{"paparazzi", paparazzi.Dialect{}}, {"slugs", slugs.Dialect{}}, {"uAvionix", uavionix.Dialect{}}, {"ualberta", ualberta.Dialect{}},
	}
	var out ref.Schema
	for _, d := range ds {
		dn := ref.Dialect{Package: d.name, Name: d.d.(interface{ GetName() string }).GetName()}
		for id := uint32(0); id < 1<<24; id++ {
			meta, err := d.d.GetMeta(id)
			if err != nil {
				continue
			}
			fb := make([]byte, 300)
			fb[0] = 0xfd
			fb[7], fb[8], fb[9] = byte(id), byte(id>>8), byte(id>>16)
			m, err := d.d.GetMessage(mavlink2.FrameV2(fb))
			if err != nil {
				panic(err)
			}
			rm := ref.Msg{ID: id, CRC: meta.CRCExtra, Min: int(meta.MinimumLength), Max: int(meta.MaximumLength),
				Type: reflect.TypeOf(m).Elem().Name(), Name: m.GetMessageName(), Dialect: m.GetDialect(),
				Ext: m.(interface{ HasExtensionFields() bool }).HasExtensionFields()}
			tt := reflect.TypeOf(m).Elem()
			off := 0
			for i := 0; i < tt.NumField(); i++ {
				f := tt.Field(i)
				if f.Name == "HasExtensionFieldValues" || (rm.Type == "V2Extension" && f.Name == "PayloadLength") {
					continue
				}
				rf := ref.Field{Name: f.Name}
				ft := f.Type
				if ft.Kind() == reflect.Array {
					rf.Count = ft.Len()
					ft = ft.Elem()
				}
				rf.Type = ft.Kind().String()
				if off >= rm.Min {
					rf.Ext = true
				}
				off += rf.Size()
				rm.Fields = append(rm.Fields, rf)
			}
			lines := strings.Split(strings.TrimRight(m.(interface{ String() string }).String(), "\n"), "\n")
			re := regexp.MustCompile(`^(\w+):\s+(\[[^\]]*\]|[^ ]+)\s*(.*)$`)
			for _, l := range lines[1:] {
				g := re.FindStringSubmatch(l)
				if g == nil {
					panic(rm.Type + ": " + l)
				}
				rm.Display = append(rm.Display, ref.Line{Label: g[1], Suffix: strings.TrimSpace(g[3])})
			}
			pt := reflect.TypeOf(m)
			for i := 0; i < pt.NumMethod(); i++ {
				n := pt.Method(i).Name
				if strings.HasPrefix(n, "Set") && n != "SetPayloadSlice" {
					f, ok := tt.FieldByName(n[3:])
					if !ok {
						panic(rm.Type + n)
					}
					rm.Strings = append(rm.Strings, ref.Str{Name: n[3:], Cap: f.Type.Len()})
				}
			}
			dn.Msgs = append(dn.Msgs, rm)
		}
		out.Dialects = append(out.Dialects, dn)
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.Stdout.Write(b)
}
