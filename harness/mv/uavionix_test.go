//go:build uavionix

package mv

import uavionix "github.com/botlink/go-mavlink2/uAvionix"

func init() { libDialects["uAvionix"] = uavionix.Dialect{} }
