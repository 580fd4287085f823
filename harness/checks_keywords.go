package main

const assumeModel = "the reference evaluator (model.go), written from the draft specifications and the README, is correct on the generated inputs"

const ruleFocus = "a case is one generated schema (keywords in focus, embedded 0-10 levels deep under other keywords, in a random draft and way of selecting it) with the documents at the boundaries of its keywords; one evaluation is one Validate call compared with the reference evaluator; distinct: different (schema text, document)"

func init() {
	focus := func(id string, f focusFn, need ...string) {
		register(&Check{ID: id, Rule: ruleFocus, Assume: []string{assumeModel}, Quick: 120000, Thorough: 1500000,
			Run:  func(t *T) { runFocus(t, f, cmpVerdict) },
			Need: append([]string{"accepted", "rejected", "draft:4", "draft:6", "draft:7", "draft:99"}, need...)})
	}
	focus("C01", focusNumbers, "err:number_gte", "err:number_gt", "err:number_lte", "err:number_lt", "err:multiple_of", "err:invalid_type")
	focus("C02", focusStrings, "err:string_gte", "err:string_lte", "err:pattern", "err:invalid_property_name")
	focus("C03", focusEquality, "err:const", "err:enum", "err:unique")
	focus("C04", focusArrays, "err:array_no_additional_items", "err:array_min_items", "err:array_max_items", "err:contains")
	focus("C05", focusObjects, "err:required", "err:additional_property_not_allowed", "err:invalid_property_name", "err:missing_dependency", "err:array_min_properties", "err:array_max_properties")
	focus("C06", focusAlgebra, "err:number_any_of", "err:number_one_of", "err:number_all_of", "err:number_not", "err:condition_then", "err:condition_else")

	drafts := []string{"accepted", "rejected", "draft:4", "draft:6", "draft:7", "draft:99"}
	register(&Check{ID: "C07", Rule: ruleFocus + "; here all keywords are mixed: random schemas with definitions and references, merged groups of keywords, and mutations of the schemas and documents of the bundled suite",
		Assume: []string{assumeModel}, Quick: 120000, Thorough: 1500000, Need: drafts,
		Setup: func(w *Worker) { loadSuite() },
		Run: func(t *T) {
			switch k := t.R.Intn(8); {
			case k == 0 && len(suiteGroups) > 0:
				runSuite(t, cmpVerdict)
			case k < 3:
				runFocus(t, focusMerged, cmpVerdict)
			default:
				runFocus(t, focusMixed, cmpVerdict)
			}
		}})
	ruleErr := ruleFocus + "; compared are not only the verdicts but the multisets of reported errors with type, context, field, value and details"
	register(&Check{ID: "C15", Rule: ruleErr, Assume: []string{assumeModel}, Quick: 120000, Thorough: 1500000,
		Need:  append([]string{"err:false", "err:required", "err:invalid_type", "err:number_any_of", "err:number_one_of", "err:number_all_of", "err:number_not", "err:missing_dependency", "err:const", "err:enum", "err:array_no_additional_items", "err:array_min_items", "err:array_max_items", "err:unique", "err:contains", "err:array_min_properties", "err:array_max_properties", "err:additional_property_not_allowed", "err:invalid_property_name", "err:string_gte", "err:string_lte", "err:pattern", "err:format", "err:multiple_of", "err:number_gte", "err:number_gt", "err:number_lte", "err:number_lt", "err:condition_then", "err:condition_else"}, drafts...),
		Setup: func(w *Worker) { loadSuite() },
		Run: func(t *T) {
			all := []focusFn{focusNumbers, focusStrings, focusEquality, focusArrays, focusObjects, focusAlgebra, focusMixed, focusMixed, focusMerged, focusMerged}
			k := t.R.Intn(len(all) + 1)
			if k == len(all) {
				runSuite(t, cmpErrors)
				return
			}
			runFocus(t, all[k], cmpErrors)
		}})
	register(&Check{ID: "C16", Rule: ruleErr, Assume: []string{assumeModel}, Quick: 120000, Thorough: 1500000,
		Need: append([]string{"err:number_any_of", "err:number_one_of", "err:number_all_of", "err:number_not", "err:contains", "err:condition_then", "err:condition_else"}, drafts...),
		Run: func(t *T) {
			if t.R.Intn(4) == 0 {
				runFocus(t, focusAlgebra, cmpErrors)
				return
			}
			runFocus(t, focusBranches, cmpErrors)
		}})
}

func runSuite(t *T, level int) {
	if len(suiteGroups) == 0 {
		return
	}
	g := &suiteGroups[t.R.Intn(len(suiteGroups))]
	pair := compilePair(t, g.mode(), g.Schema)
	if pair == nil {
		return
	}
	t.Count("suite_schemas", 1)
	for _, d := range g.docs(t.R) {
		pair.check(d, level)
	}
}
