package mv

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"strings"

	"verifharness/ref"
)

func init() { props["C30"] = constants }

// consts is filled by consts_test.go, which is built with the tag consts.
var consts = map[string]int64{}

//go:embed consts.json
var goldenConsts []byte

// constants: each name stands for the number that the other side of the link takes it for.
func constants(p *P) {
	p.rule = "a case is one named constant of one package (all of them), whose value in the build is compared with the golden one; command, result and message field constants are also put in a message, sent through a frame and read back as the golden number"
	var golden map[string]map[string]json.Number
	if err := json.Unmarshal(goldenConsts, &golden); err != nil {
		p.Inconclusive("%v", err)
	}
	lib := mkset("common")
	var cmd pmsg
	for _, m := range lib.msgs {
		if m.Type == "CommandLong" {
			cmd = m
		}
	}
	for _, pk := range keysOf(golden) {
		for _, name := range keysOf(golden[pk]) {
			p.Doing("%s.%s", pk, name)
			want, _ := golden[pk][name].Int64()
			got, ok := consts[pk+"."+name]
			if !ok {
				p.Fail(nil, "constant %s.%s is not in the build", pk, name)
			}
			if got != want {
				p.Fail(map[string]any{"package": pk, "name": name, "value": got, "golden": want}, "constant %s.%s is %d, and should be %d", pk, name, got, want)
			}
			p.Eval()
			p.Count("constants", 1)
			p.Distinct([]byte(pk), []byte(name))
			if strings.HasPrefix(name, "MavCmd") && want < 1<<16 && cmd.Msg != nil {
				// as the peer sees it
				m := newMsg(cmd)
				b := raw(m, ref.Field{Name: "Command", Type: "uint16"})
				if b == nil {
					continue
				}
				b[0], b[1] = byte(got), byte(got>>8)
				f, err := lib.lib.GetFrame(2, 1, 1, 0, m)
				if err != nil {
					continue // C08's
				}
				h, _ := ref.ParseHeader(f.Bytes())
				pl := append(append([]byte(nil), h.Payload(f.Bytes())...), make([]byte, 64)...)
				if sent := int64(pl[28]) | int64(pl[29])<<8; sent != want {
					p.Fail(map[string]any{"frame": hexs(f.Bytes())}, "a command long with %s.%s asks for command %d, and should ask for %d", pk, name, sent, want)
				}
				p.Count("commands_sent", 1)
			}
			if len(name)%29 == 0 {
				p.Sample(fmt.Sprintf("%s.%s = %d", pk, name, got))
			}
		}
	}
}
