// Code generated by tools/gen_registry.py; DO NOT EDIT.

//go:build uavionix

package mv

import (
	mavlink2 "github.com/botlink/go-mavlink2"
	uavionix "github.com/botlink/go-mavlink2/uAvionix"
)

func init() {
	registry["uAvionix.UavionixAdsbOutCfg"] = func() mavlink2.Message { return &uavionix.UavionixAdsbOutCfg{} }
	registry["uAvionix.UavionixAdsbOutDynamic"] = func() mavlink2.Message { return &uavionix.UavionixAdsbOutDynamic{} }
	registry["uAvionix.UavionixAdsbTransceiverHealthReport"] = func() mavlink2.Message { return &uavionix.UavionixAdsbTransceiverHealthReport{} }
}
