package main

import js "github.com/xeipuuv/gojsonschema"

// myLocale gives every kind of error a text of its own
type myLocale struct {
	js.DefaultLocale
	salt  string
	style int
}

// False overrides the default text
func (l myLocale) False() string { return l.format("false", l.DefaultLocale.False()) }

// Required overrides the default text
func (l myLocale) Required() string { return l.format("required", l.DefaultLocale.Required()) }

// InvalidType overrides the default text
func (l myLocale) InvalidType() string {
	return l.format("invalid_type", l.DefaultLocale.InvalidType())
}

// NumberAnyOf overrides the default text
func (l myLocale) NumberAnyOf() string {
	return l.format("number_any_of", l.DefaultLocale.NumberAnyOf())
}

// NumberOneOf overrides the default text
func (l myLocale) NumberOneOf() string {
	return l.format("number_one_of", l.DefaultLocale.NumberOneOf())
}

// NumberAllOf overrides the default text
func (l myLocale) NumberAllOf() string {
	return l.format("number_all_of", l.DefaultLocale.NumberAllOf())
}

// NumberNot overrides the default text
func (l myLocale) NumberNot() string { return l.format("number_not", l.DefaultLocale.NumberNot()) }

// MissingDependency overrides the default text
func (l myLocale) MissingDependency() string {
	return l.format("missing_dependency", l.DefaultLocale.MissingDependency())
}

// Internal overrides the default text
func (l myLocale) Internal() string { return l.format("internal", l.DefaultLocale.Internal()) }

// Const overrides the default text
func (l myLocale) Const() string { return l.format("const", l.DefaultLocale.Const()) }

// Enum overrides the default text
func (l myLocale) Enum() string { return l.format("enum", l.DefaultLocale.Enum()) }

// ArrayNoAdditionalItems overrides the default text
func (l myLocale) ArrayNoAdditionalItems() string {
	return l.format("array_no_additional_items", l.DefaultLocale.ArrayNoAdditionalItems())
}

// ArrayMinItems overrides the default text
func (l myLocale) ArrayMinItems() string {
	return l.format("array_min_items", l.DefaultLocale.ArrayMinItems())
}

// ArrayMaxItems overrides the default text
func (l myLocale) ArrayMaxItems() string {
	return l.format("array_max_items", l.DefaultLocale.ArrayMaxItems())
}

// Unique overrides the default text
func (l myLocale) Unique() string { return l.format("unique", l.DefaultLocale.Unique()) }

// ArrayContains overrides the default text
func (l myLocale) ArrayContains() string {
	return l.format("contains", l.DefaultLocale.ArrayContains())
}

// ArrayMinProperties overrides the default text
func (l myLocale) ArrayMinProperties() string {
	return l.format("array_min_properties", l.DefaultLocale.ArrayMinProperties())
}

// ArrayMaxProperties overrides the default text
func (l myLocale) ArrayMaxProperties() string {
	return l.format("array_max_properties", l.DefaultLocale.ArrayMaxProperties())
}

// AdditionalPropertyNotAllowed overrides the default text
func (l myLocale) AdditionalPropertyNotAllowed() string {
	return l.format("additional_property_not_allowed", l.DefaultLocale.AdditionalPropertyNotAllowed())
}

// InvalidPropertyPattern overrides the default text
func (l myLocale) InvalidPropertyPattern() string {
	return l.format("invalid_property_pattern", l.DefaultLocale.InvalidPropertyPattern())
}

// InvalidPropertyName overrides the default text
func (l myLocale) InvalidPropertyName() string {
	return l.format("invalid_property_name", l.DefaultLocale.InvalidPropertyName())
}

// StringGTE overrides the default text
func (l myLocale) StringGTE() string { return l.format("string_gte", l.DefaultLocale.StringGTE()) }

// StringLTE overrides the default text
func (l myLocale) StringLTE() string { return l.format("string_lte", l.DefaultLocale.StringLTE()) }

// DoesNotMatchPattern overrides the default text
func (l myLocale) DoesNotMatchPattern() string {
	return l.format("pattern", l.DefaultLocale.DoesNotMatchPattern())
}

// DoesNotMatchFormat overrides the default text
func (l myLocale) DoesNotMatchFormat() string {
	return l.format("format", l.DefaultLocale.DoesNotMatchFormat())
}

// MultipleOf overrides the default text
func (l myLocale) MultipleOf() string { return l.format("multiple_of", l.DefaultLocale.MultipleOf()) }

// NumberGTE overrides the default text
func (l myLocale) NumberGTE() string { return l.format("number_gte", l.DefaultLocale.NumberGTE()) }

// NumberGT overrides the default text
func (l myLocale) NumberGT() string { return l.format("number_gt", l.DefaultLocale.NumberGT()) }

// NumberLTE overrides the default text
func (l myLocale) NumberLTE() string { return l.format("number_lte", l.DefaultLocale.NumberLTE()) }

// NumberLT overrides the default text
func (l myLocale) NumberLT() string { return l.format("number_lt", l.DefaultLocale.NumberLT()) }

// ConditionThen overrides the default text
func (l myLocale) ConditionThen() string {
	return l.format("condition_then", l.DefaultLocale.ConditionThen())
}

// ConditionElse overrides the default text
func (l myLocale) ConditionElse() string {
	return l.format("condition_else", l.DefaultLocale.ConditionElse())
}

// localeOf gives the text of an error type in a locale
func localeOf(l interface{}, typ string) (string, bool) {
	switch typ {
	case "false":
		return l.(interface{ False() string }).False(), true
	case "required":
		return l.(interface{ Required() string }).Required(), true
	case "invalid_type":
		return l.(interface{ InvalidType() string }).InvalidType(), true
	case "number_any_of":
		return l.(interface{ NumberAnyOf() string }).NumberAnyOf(), true
	case "number_one_of":
		return l.(interface{ NumberOneOf() string }).NumberOneOf(), true
	case "number_all_of":
		return l.(interface{ NumberAllOf() string }).NumberAllOf(), true
	case "number_not":
		return l.(interface{ NumberNot() string }).NumberNot(), true
	case "missing_dependency":
		return l.(interface{ MissingDependency() string }).MissingDependency(), true
	case "internal":
		return l.(interface{ Internal() string }).Internal(), true
	case "const":
		return l.(interface{ Const() string }).Const(), true
	case "enum":
		return l.(interface{ Enum() string }).Enum(), true
	case "array_no_additional_items":
		return l.(interface{ ArrayNoAdditionalItems() string }).ArrayNoAdditionalItems(), true
	case "array_min_items":
		return l.(interface{ ArrayMinItems() string }).ArrayMinItems(), true
	case "array_max_items":
		return l.(interface{ ArrayMaxItems() string }).ArrayMaxItems(), true
	case "unique":
		return l.(interface{ Unique() string }).Unique(), true
	case "contains":
		return l.(interface{ ArrayContains() string }).ArrayContains(), true
	case "array_min_properties":
		return l.(interface{ ArrayMinProperties() string }).ArrayMinProperties(), true
	case "array_max_properties":
		return l.(interface{ ArrayMaxProperties() string }).ArrayMaxProperties(), true
	case "additional_property_not_allowed":
		return l.(interface{ AdditionalPropertyNotAllowed() string }).AdditionalPropertyNotAllowed(), true
	case "invalid_property_pattern":
		return l.(interface{ InvalidPropertyPattern() string }).InvalidPropertyPattern(), true
	case "invalid_property_name":
		return l.(interface{ InvalidPropertyName() string }).InvalidPropertyName(), true
	case "string_gte":
		return l.(interface{ StringGTE() string }).StringGTE(), true
	case "string_lte":
		return l.(interface{ StringLTE() string }).StringLTE(), true
	case "pattern":
		return l.(interface{ DoesNotMatchPattern() string }).DoesNotMatchPattern(), true
	case "format":
		return l.(interface{ DoesNotMatchFormat() string }).DoesNotMatchFormat(), true
	case "multiple_of":
		return l.(interface{ MultipleOf() string }).MultipleOf(), true
	case "number_gte":
		return l.(interface{ NumberGTE() string }).NumberGTE(), true
	case "number_gt":
		return l.(interface{ NumberGT() string }).NumberGT(), true
	case "number_lte":
		return l.(interface{ NumberLTE() string }).NumberLTE(), true
	case "number_lt":
		return l.(interface{ NumberLT() string }).NumberLT(), true
	case "condition_then":
		return l.(interface{ ConditionThen() string }).ConditionThen(), true
	case "condition_else":
		return l.(interface{ ConditionElse() string }).ConditionElse(), true
	}
	return "", false
}
