package locale

import "reflect"

// VerifDef is what the checks read of a parsed definition.
type VerifDef struct {
	Status         int
	HasSym, HasInt bool
	HasGroup       bool
	Sym            string
	Frac           int64
	Group          []int64
}

// VerifParse parses a definition and reports the status and the recorded values.
func VerifParse(text string) (r VerifDef) {
	r.Status = yyParse(NewLexer(text))
	if r.Status != 0 {
		return
	}
	v := reflect.Indirect(reflect.ValueOf(&def).Elem())
	if v.Kind() != reflect.Struct {
		return
	}
	m := v.FieldByName("monetary")
	if m.IsValid() {
		m = reflect.Indirect(m)
	}
	if !m.IsValid() || m.Kind() != reflect.Struct {
		return
	}
	if f := m.FieldByName("intCurrSymbol"); f.IsValid() && f.Kind() == reflect.String {
		r.HasSym, r.Sym = true, f.String()
	}
	if f := m.FieldByName("intFracDigits"); f.IsValid() && f.CanInt() {
		r.HasInt, r.Frac = true, f.Int()
	}
	if f := m.FieldByName("monGrouping"); f.IsValid() && f.Kind() == reflect.Slice {
		r.HasGroup = true
		for i := 0; i < f.Len(); i++ {
			if !f.Index(i).CanInt() {
				r.HasGroup = false
				return
			}
			r.Group = append(r.Group, f.Index(i).Int())
		}
	}
	return
}
