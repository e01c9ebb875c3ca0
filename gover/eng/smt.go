package eng

// SMT is a connection to an SMT solver.
type SMT struct{ N int }

// Prove asks whether the facts imply c.
func (z *SMT) Prove(f *Facts, c *Term) (bool, string) { return false, "" }
