package featselect

import (
	"math"
	"reflect"
	"unsafe"

	"gonum.org/v1/plot"
)

// vhPlotted gives what was added to a plot, in that order (the engine reads the same unexported field).
func vhPlotted(p *plot.Plot) []plot.Plotter {
	f := reflect.ValueOf(p).Elem().FieldByName("plotters")
	return *(*[]plot.Plotter)(unsafe.Pointer(f.UnsafeAddr()))
}

// vhPlotNew stands in for plot.New in the engine: a plot without fonts, with empty axes.
func vhPlotNew() (*plot.Plot, error) {
	p := &plot.Plot{}
	p.X.Min, p.Y.Min = math.Inf(1), math.Inf(1)
	p.X.Max, p.Y.Max = math.Inf(-1), math.Inf(-1)
	return p, nil
}
