// S8: the parts around the server: the registry of components, the init and
// demo commands, and the site with the user interface.
package main

import (
	realctx "context"
	"reflect"

	"github.com/vivint/rothko/database"
	"github.com/vivint/rothko/dist"
	"github.com/vivint/rothko/internal/zsim"
	"github.com/vivint/rothko/internal/zsim/harness/lib"
	"github.com/vivint/rothko/registry"
)

// Plan has one part, depending on the property.
type Plan struct {
	Reg  *RegPlan  `json:"reg,omitempty"`
	Demo *DemoPlan `json:"demo,omitempty"`
	Init *InitPlan `json:"init,omitempty"`
	Site *SitePlan `json:"site,omitempty"`
}

// filled is the default registry with everything that was registered when the
// program started.
var filled reflect.Value

// setDefault makes the default registry empty, or as it was.
func setDefault(empty bool) {
	v := reflect.ValueOf(&registry.Default).Elem()
	if v.Kind() != reflect.Struct {
		return
	}
	if empty {
		v.Set(reflect.Zero(v.Type()))
	} else {
		v.Set(filled)
	}
}

type scen struct{}

func (scen) Name() string     { return "s8" }
func (scen) New() interface{} { return &Plan{} }

func main() {
	registry.RegisterDatabase("traced", registry.DatabaseMakerFunc(func(ctx realctx.Context, conf interface{}) (database.DB, error) {
		return D.made.db, D.made.dbErr
	}))
	registry.RegisterDistribution("traced", registry.DistributionMakerFunc(func(ctx realctx.Context, conf interface{}) (dist.Params, error) {
		return D.made.params, D.made.paramsErr
	}))
	registry.RegisterDistribution("simple", registry.DistributionMakerFunc(func(ctx realctx.Context, conf interface{}) (dist.Params, error) {
		return simpleParams{}, nil
	}))
	v := reflect.ValueOf(&registry.Default).Elem()
	filled = reflect.New(v.Type()).Elem()
	filled.Set(v)
	lib.Register(scen{})
	lib.Main()
}

func (scen) Gen(r *lib.Rand, prop string, deep bool) interface{} {
	p := &Plan{}
	if prop == "C19" {
		// the demo command uses one task only
		prop = []string{"C21", "C24"}[r.Pick(3, 1)]
	}
	switch prop {
	case "C21":
		p.Reg = genReg(r, deep)
	case "C22":
		p.Demo = genDemo(r, deep)
	case "C23":
		p.Init = genInit(r, deep)
	case "C24":
		p.Site = genSite(r, deep)
	}
	return p
}

func (scen) Shrink(pl interface{}) (out []interface{}) {
	p := pl.(*Plan)
	switch {
	case p.Reg != nil:
		for _, q := range p.Reg.shrink() {
			out = append(out, &Plan{Reg: q})
		}
	case p.Demo != nil:
		for _, q := range p.Demo.shrink() {
			out = append(out, &Plan{Demo: q})
		}
	case p.Init != nil:
		for _, q := range p.Init.shrink() {
			out = append(out, &Plan{Init: q})
		}
	case p.Site != nil:
		for _, q := range p.Site.shrink() {
			out = append(out, &Plan{Site: q})
		}
	}
	return
}

func (scen) Run(s *zsim.Sim, prop string, pl interface{}) {
	p := pl.(*Plan)
	setDefault(p.Reg != nil)
	switch {
	case p.Reg != nil:
		runReg(s, prop, p.Reg)
	case p.Demo != nil:
		runDemo(s, prop, p.Demo)
	case p.Init != nil:
		runInit(s, prop, p.Init)
	case p.Site != nil:
		runSite(s, prop, p.Site)
	}
}
