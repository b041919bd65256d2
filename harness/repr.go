package main

func init() { drivers["repr"] = driveRepr }

// driveRepr does what other drivers do with types most of which have a
// representation, wherever a type can be, and with values for which their
// methods return errors.
func driveRepr(r *run) {
	heavy = true
	n := r.n
	for i, d := range []func(*run){driveRT, driveEnc, driveDec, driveJRT, driveJEnc, driveJDec} {
		r.seed = r.seed*7 + int64(i)
		r.n = n / 6
		d(r)
	}
}
