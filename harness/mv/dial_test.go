package mv

import (
	"errors"
	"fmt"
	"math/rand/v2"
	"strings"

	mavlink2 "github.com/botlink/go-mavlink2"
	"github.com/botlink/go-mavlink2/ardupilotmega"
	"github.com/botlink/go-mavlink2/asluav"
	"github.com/botlink/go-mavlink2/autoquad"
	"github.com/botlink/go-mavlink2/common"
	"github.com/botlink/go-mavlink2/icarous"
	"github.com/botlink/go-mavlink2/matrixpilot"
	"github.com/botlink/go-mavlink2/paparazzi"
	"github.com/botlink/go-mavlink2/slugs"
	"github.com/botlink/go-mavlink2/ualberta"
	"verifharness/ref"
)

// uavionix_test.go adds the eleventh package, which the repository's build leaves out.
var libDialects = map[string]mavlink2.Dialect{
	"common": common.Dialect{}, "ardupilotmega": ardupilotmega.Dialect{}, "asluav": asluav.Dialect{}, "autoquad": autoquad.Dialect{},
	"icarous": icarous.Dialect{}, "matrixpilot": matrixpilot.Dialect{}, "paparazzi": paparazzi.Dialect{}, "slugs": slugs.Dialect{}, "ualberta": ualberta.Dialect{},
}

var schema = ref.Load()

// schemaOf finds the definitions of a package.
func schemaOf(pkg string) ref.Dialect {
	for _, d := range schema.Dialects {
		if d.Package == pkg {
			return d
		}
	}
	panic(pkg)
}

// packages lists the dialect packages in the build, in schema order.
func packages() (ps []string) {
	for _, d := range schema.Dialects {
		if libDialects[d.Package] != nil {
			ps = append(ps, d.Package)
		}
	}
	return
}

// pmsg is a message definition and where it is.
type pmsg struct {
	*ref.Msg
	pkg string
}

func allMsgs() (ms []pmsg) {
	for _, pk := range packages() {
		d := schemaOf(pk)
		for i := range d.Msgs {
			ms = append(ms, pmsg{&d.Msgs[i], pk})
		}
	}
	return
}

// dset is a list of dialects, as the library sees it and as the model sees it.
type dset struct {
	name string
	lib  mavlink2.Dialects
	tabs ref.Tables
	msgs []pmsg // the messages that the set resolves to themselves
	deny []pmsg // messages for which the dialect in charge reports a failure of its own
	made bool   // has dialects made up by the harness
}

func mkset(pkgs ...string) *dset {
	s := &dset{name: strings.Join(pkgs, "+")}
	seen := map[uint32]bool{}
	for _, pk := range pkgs {
		d := schemaOf(pk)
		s.lib = append(s.lib, libDialects[pk])
		s.tabs = append(s.tabs, ref.TableOf(d))
		for i := range d.Msgs {
			if !seen[d.Msgs[i].ID] {
				seen[d.Msgs[i].ID] = true
				s.msgs = append(s.msgs, pmsg{&d.Msgs[i], pk})
			}
		}
	}
	if len(pkgs) == 0 {
		s.name = "(none)"
	}
	return s
}

// synth is a dialect made up by the harness: any IDs, any lengths, any CRC_EXTRA.
type synth struct {
	tab    ref.Table
	refuse error // what it says instead, if set
	deny   map[uint32]error
}

func (s synth) GetMeta(id uint32) (mavlink2.MessageMeta, error) {
	if s.refuse != nil {
		return mavlink2.MessageMeta{}, s.refuse
	}
	if err := s.deny[id]; err != nil {
		return mavlink2.MessageMeta{}, err
	}
	e, ok := s.tab[id]
	if !ok {
		return mavlink2.MessageMeta{}, mavlink2.ErrUnknownMessage
	}
	return mavlink2.MessageMeta{CRCExtra: e.CRC, MinimumLength: uint(e.Min), MaximumLength: uint(e.Max)}, nil
}

func (s synth) GetMessage(f mavlink2.Frame) (mavlink2.Message, error) {
	if s.refuse != nil {
		return nil, s.refuse
	}
	if err := s.deny[f.GetMessageID()]; err != nil {
		return nil, err
	}
	if _, ok := s.tab[f.GetMessageID()]; !ok {
		return nil, mavlink2.ErrUnknownMessage
	}
	m := &mavlink2.UnknownMessage{}
	err := m.Read(f)
	return m, err
}

var errRefused = errors.New("dialect out of order")

func mksynth(r *rand.Rand) *dset {
	t := ref.Table{}
	s := &dset{name: "synthetic", made: true}
	for i := 0; i < 40; i++ {
		id := uint32(r.IntN(256))
		switch r.IntN(4) {
		case 0:
			id = uint32(r.IntN(1 << 16))
		case 1:
			id = anyID(r)
		case 2:
			id = 0xffffff - uint32(r.IntN(3))
		}
		hi := r.IntN(256)
		if r.IntN(4) == 0 {
			hi = 255
		}
		e := ref.Entry{CRC: byte(r.IntN(256)), Min: r.IntN(hi + 1), Max: hi}
		t[id] = e
	}
	y := synth{tab: t}
	if r.IntN(2) == 0 { // some IDs it reports a failure of its own for
		y.deny = map[uint32]error{}
		some := sortedIDs(t)
		for _, id := range some {
			if r.IntN(4) == 0 {
				e := t[id]
				e.Refuse = true
				t[id], y.deny[id] = e, refusal(r)
			}
		}
		s.name = "synthetic, refusing"
	}
	s.lib = mavlink2.Dialects{y}
	s.tabs = ref.Tables{t}
	mine := 0
	if r.IntN(3) == 0 { // next to a package of the library
		pk := packages()
		l := mkset(pk[r.IntN(len(pk))])
		if r.IntN(2) == 0 {
			s.name = l.name + "+" + s.name
			s.lib, s.tabs, mine = append(l.lib, s.lib...), append(l.tabs, s.tabs...), 1
		} else {
			s.name += "+" + l.name
			s.lib, s.tabs = append(s.lib, l.lib...), append(s.tabs, l.tabs...)
		}
		for _, m := range l.msgs {
			if _, at, _ := s.tabs.Find(m.ID); at != mine {
				s.msgs = append(s.msgs, m)
			}
		}
	}
	for _, id := range sortedIDs(t) {
		e, at, _ := s.tabs.Find(id)
		if at != mine {
			continue
		}
		m := pmsg{&ref.Msg{ID: id, CRC: e.CRC, Min: e.Min, Max: e.Max, Type: fmt.Sprintf("synthetic%d", id)}, "synthetic"}
		if e.Refuse {
			s.deny = append(s.deny, m)
		} else {
			s.msgs = append(s.msgs, m)
		}
	}
	return s
}

// denial is the failure that the set reports for an ID.
func (s *dset) denial(id uint32) error {
	for _, d := range s.lib {
		if y, ok := d.(synth); ok && y.deny[id] != nil {
			return y.deny[id]
		}
	}
	return nil
}

// refusal is a failure that a dialect may report. What it says is the dialect's business: a receiver cannot
// check the frame then, whatever the error is.
func refusal(r *rand.Rand) error {
	for {
		err := errRefused
		if r.IntN(2) == 0 {
			err = anyErr(r)
		}
		if r.IntN(4) == 0 {
			err = fmt.Errorf("table not loaded: %w", err)
		}
		if !errors.Is(err, mavlink2.ErrUnknownMessage) {
			return err
		}
	}
}

func sortedIDs(t ref.Table) (ids []uint32) {
	for id := range t {
		ids = append(ids, id)
	}
	for i := range ids {
		for j := i; j > 0 && ids[j] < ids[j-1]; j-- {
			ids[j], ids[j-1] = ids[j-1], ids[j]
		}
	}
	return
}

// pickSet picks a dialect set for a case.
func pickSet(r *rand.Rand) *dset {
	pk := packages()
	switch r.IntN(8) {
	case 0, 1, 2:
		return mkset("common", "ardupilotmega")
	case 3:
		return mkset(pk[r.IntN(len(pk))])
	case 4:
		return mkset(pk...)
	case 5, 6:
		r.Shuffle(len(pk), func(i, j int) { pk[i], pk[j] = pk[j], pk[i] })
		return mkset(pk[:1+r.IntN(len(pk))]...)
	}
	return mksynth(r)
}
