REAL="Proved for all inputs in real arithmetic (rounding, NaN and overflow are outside the model); trusts the govc translation and the solvers"
claims={
"C01":REAL+".",
"C02":REAL+"; math.Sqrt is axiomatised as the non-negative real root.",
"C03":REAL+"; math.Sqrt is axiomatised as the non-negative real root.",
"C04":REAL+".",
"C05":REAL+"; determinant identities by polynomial normalisation.",
"C06":REAL+"; points are assumed to have coordinates within the float64 range.",
"C07":REAL+"; points are assumed to have coordinates within the float64 range.",
"C08":REAL+".",
"C09":REAL+"; distances are assumed to lie within the float64 range.",
"C11":"Proved for all subdivision counts whose vertex numbers fit in 31 bits (vertex indices are uint32) and for all dimensions; real arithmetic. Trusts the govc translation and the solvers.",
"C12":REAL+"; math.Sin and math.Cos are axiomatised by sin^2+cos^2=1.",
"C13":REAL+"; math.Sin and math.Cos are axiomatised by sin^2+cos^2=1; radii are positive.",
"C29":REAL+"; integer indices are exact.",
"C19":"Proved for all inputs, including termination; machine integers are mathematical.",
"C20":REAL+", including termination.",
"C21":REAL+", including termination; the end of the domain must not be an empty span (U[n] < U[n+1]).",
"C30":"Proved for all inputs; trusts the stated contracts of strconv.Itoa/FormatInt, strings.Join and sort.Ints, the govc translation and the solvers.",
}
notyet={}
