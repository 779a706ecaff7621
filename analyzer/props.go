package main

import "strings"

// property -> suites.

type property struct {
	id, title string
	suites    []string
	level     string
	how, rule string
	floor     int
	want      func(o *Obl) bool
	cases     []string // labels of the cases that matter (all if empty)
	assume    []string
}

var trustedBase = []string{
	"go/types and golang.org/x/tools/go/ssa (the resolved program that is analysed)",
	"the term algebra and the loop-closing rules of /verif/analyzer",
	"the operation definitions written down in /verif/analyzer (l0*.go, l1*.go, ...)",
	"scalars are read as exact reals; slice, map and integer sizes do not overflow",
}

func (p *property) assumptions() []string {
	return append([]string{
		"numbers are exact (rounding, overflow and NaN are out of scope)",
		"operand tensors satisfy the layout contract that the layout property establishes",
	}, p.assume...)
}

func propertyByID(id string) *property {
	for _, p := range properties {
		if p.id == id {
			return p
		}
	}
	return nil
}

const vg = "parametric value-graph analysis: every function below is turned into closed-form terms over symbolic shapes, positions and cell values (loops closed to sums, products, lambdas), and each obligation compares the term with the stated definition"
const vgRule = "obligation = (construct, rule): the extracted term equals the required term for every shape, position and value; violated only with a counter-model of the two terms"

var properties = []*property{
	{id: "C01", title: "element-wise operations", level: "proof", how: vg, rule: vgRule, floor: 150,
		suites: []string{"tools", "operation", "graph-elementwise", "eager-elementwise", "operation-int", "graph-elementwise-int", "eager-elementwise-int"}},
	{id: "C02", title: "reductions and soft-max", level: "proof", how: vg, rule: vgRule, floor: 150,
		suites: []string{"tools", "operation", "reducers", "graph-reduce", "eager-reduce", "operation-int", "reducers-int", "graph-reduce-int", "eager-reduce-int"}},
	{id: "C03", title: "contractions", level: "other", how: vg, rule: vgRule, floor: 60,
		suites: []string{"tools", "operation", "graph-dot", "eager-dot"}},
	{id: "C04", title: "rearrangements are live views", level: "other", how: vg, rule: vgRule, floor: 100,
		suites: []string{"tools", "operation", "graph-rearrange", "graph-transfer"}},
	{id: "C05", title: "immediate operations", level: "other", how: vg, rule: vgRule, floor: 200,
		suites: []string{"tools", "reducers", "eager-elementwise", "eager-reduce", "eager-rearrange", "eager-dot", "reducers-int", "eager-elementwise-int", "eager-reduce-int"}},
	{id: "C06", title: "scheduling", level: "other", how: vg, rule: vgRule, floor: 200,
		suites: []string{"schedule", "mat", "graph-elementwise", "graph-reduce", "graph-dot", "graph-rearrange", "graph-transfer"},
		want: func(o *Obl) bool {
			return o.Suite == "schedule" || strings.Contains(o.Rule, "second build") || strings.Contains(o.Rule, "is built before") ||
				strings.Contains(o.Rule, "always builds")
		}},
	{id: "C07", title: "addressing", level: "proof", how: vg, rule: vgRule, floor: 60,
		suites: []string{"tools", "mat"}, want: constructs("tools.", "TensorMat.Get", "TensorMat.Set")},
	{id: "C08", title: "constructors", level: "proof", how: vg, rule: vgRule, floor: 30,
		suites: []string{"mat"}, want: constructs("tensor.New", "number.")},
	{id: "C11", title: "scalar operations", level: "proof", how: vg, rule: vgRule, floor: 24,
		suites: []string{"operation", "operation-int"}},
	{id: "C12", title: "activations", level: "proof", how: vg + "; derivatives are formed symbolically from the extracted activation term", rule: vgRule, floor: 24,
		suites: []string{"activation"}},
	{id: "C13", title: "layer outputs", level: "other", how: vg, rule: vgRule, floor: 150,
		suites: layerSuites, cases: []string{"forward"}},
	{id: "C14", title: "back propagation", level: "other", how: vg, rule: vgRule, floor: 150,
		suites: layerSuites, cases: []string{"backward", "derivative"}, want: func(o *Obl) bool { return !paramRule(o.Rule) }},
	{id: "C15", title: "clearing errors", level: "other", how: vg, rule: vgRule, floor: 60,
		suites: layerSuites, cases: []string{"reset"}},
	{id: "C16", title: "parameter updates", level: "other", how: vg, rule: vgRule, floor: 60,
		suites: trainedSuites, cases: []string{"backward", "fit"}, want: func(o *Obl) bool {
			return paramRule(o.Rule) || strings.Contains(o.Construct, "fit")
		}},
	{id: "C17", title: "stored networks", level: "other", how: vg + "; the stream is a sequence of typed items written and read through encoding/binary", rule: vgRule, floor: 150,
		suites: layerSuites, cases: []string{"storage"}},
	{id: "C18", title: "predictions", level: "other", how: vg + modelHow, rule: vgRule, floor: 60,
		suites: []string{"schedule", "model", "model-chain"}, want: func(o *Obl) bool {
			return o.Suite == "schedule" || strings.Contains(o.Construct, "Compile") || strings.Contains(o.Construct, "Predict") ||
				strings.Contains(o.Construct, "ResetIS") || strings.Contains(o.Construct, "FromModels") && !strings.Contains(o.Construct, "training")
		}},
	{id: "C19", title: "training steps", level: "other", how: vg + modelHow, rule: vgRule, floor: 100,
		suites: []string{"schedule", "model", "model-chain", "model-train"}, want: func(o *Obl) bool {
			return o.Suite == "schedule" || strings.Contains(o.Construct, "CompileBack") || strings.Contains(o.Construct, "Train") ||
				strings.Contains(o.Construct, "ExecFit") || strings.Contains(o.Construct, "training") || strings.Contains(o.Rule, "backward passes")
		}},
	{id: "C22", title: "building models", level: "other", how: vg + modelHow, rule: vgRule, floor: 100,
		suites: []string{"model", "model-chain"}, want: constructs("Push", "FromInOut", "FromModels", "SetTrainable", "as a layer")},
	{id: "C20", title: "stored tensors", level: "proof", how: vg + "; the stream is a sequence of typed items written and read through encoding/binary", rule: vgRule, floor: 18,
		suites: []string{"store"}},
	{id: "C21", title: "loading, copying, filling, binding", level: "proof", how: vg, rule: vgRule, floor: 80,
		suites: []string{"mat", "graph-transfer"}, want: constructs("TensorMat.Load", "TensorMat.Bind", "TensorMat.Copy", "TensorMat.Fill", "tensor.Transfer", "tensor.Fill", "tensor.CopyTo", "TensorMat.SetBuild", "TensorMat.BuildGraph")},
	{id: "C23", title: "no hidden state", level: "other", how: "effect analysis: stores, map updates and copying built-ins are traced back to package-level variables through loads, fields, slices, closures and calls (summaries per function)",
		rule: "no function outside initialisation writes memory that is rooted in a package-level variable", floor: 300,
		suites: []string{"effects"}},
	{id: "C24", title: "boxed scalars", level: "proof", how: vg, rule: vgRule, floor: 200,
		suites: []string{"scalar"}},
	{id: "C25", title: "images", level: "proof", how: vg, rule: vgRule, floor: 60,
		suites: []string{"img"}},
	{id: "C26", title: "descriptions", level: "other", how: vg + "; text is opaque, writes are counted in order", rule: vgRule, floor: 100,
		suites: append([]string{"model"}, layerSuites...), cases: []string{"describe"}},
	{id: "C27", title: "half precision", level: "proof", how: "bit-precise dataflow over the SSA form: every bit of every value is a boolean function (decision diagram) of the argument bits, joins merge under the conditions of the edges, loops are followed until the back edge is unreachable",
		rule: "the bits of the result equal the bits of the definition for every argument", floor: 25,
		suites: []string{"bits"}},
}

const modelHow = "; layers are arbitrary (what a layer schedules is one token), executed graphs are traces of tokens"

var layerSuites = []string{"dense", "layer-pass", "layer-sub", "layer-upsampling", "layer-maxpool", "layer-conv", "layer-deconv", "layer-concat", "layer-input", "layer-indense", "layer-branches"}
var trainedSuites = layerSuites

// paramRule: the obligation is about the parameters of a layer.
func paramRule(r string) bool {
	for _, x := range []string{"new bias", "new weight", "update is remembered", "not changed while calculating"} {
		if strings.Contains(r, x) {
			return true
		}
	}
	return false
}

// constructs selects the obligations of functions whose name contains one of the parts.
func constructs(parts ...string) func(*Obl) bool {
	return func(o *Obl) bool {
		for _, p := range parts {
			if strings.Contains(o.Construct, p) {
				return true
			}
		}
		return false
	}
}
