G, MI, PO, LA, H, A = "hash/gmimc.go", "hash/mimc.go", "hash/poseidon.go", "polynomial/lagrange.go", "hash/hash.go", "hash/ark.go"
ms += [
 ("ark-modified", "P21", [(MI, "		state.Add(state, &Arks[i])", "		Arks[i].Add(&Arks[i], &block)\n		state.Add(state, &Arks[i])")]),
 ("ark-alias-modified", "P21", [(MI, "		state.Add(state, &block)\n		state.Add(state, &Arks[i])", "		tmp := &Arks[i]\n		tmp.Add(tmp, &block)\n		state.Add(state, tmp)\n		tmp.Sub(tmp, &block)")]),
 ("lagrange-in-place", "P21", [(LA, "			tmp.Set(&lagrangeCoeff)\n			tmp.Mul(&tmp, &value)\n			result[j].Add(&result[j], &tmp)", "			_ = lagrangeCoeff\n			lagrange[i][j].Mul(&lagrange[i][j], &value)\n			result[j].Add(&result[j], &lagrange[i][j])\n			_ = tmp")]),
 ("lagrange-result-cached", "P21", [(LA, "	result := make([]fr.Element, nEvals)\n	var tmp fr.Element\n\n	for i, value", "	result := make([]fr.Element, nEvals)\n	if nEvals == 1 {\n		result = lagrange[0]\n	}\n	var tmp fr.Element\n\n	for i, value")]),
 ("lagrange-lazy", "P21", [(LA, "	return lagrangePolynomials[domainSize]", "	if lagrangePolynomials[domainSize] == nil {\n		lagrangePolynomials[domainSize] = LagrangeCoefficient(domainSize)\n	}\n	return lagrangePolynomials[domainSize]")]),
 ("init-order", "P21", [(H, "	initArk()\n	initPoseidon()", "	initPoseidon()\n	initArk()")]),
 ("init-no-gmimc", "P21", [(H, "	initGMimc()\n", "")]),
 ("init-order2", "P21", [(H, "	initArk()\n	initPoseidon()\n	initGMimc()", "	PoseidonT2.cauchy = GenerateMDSMatrix(PoseidonT2.t)\n	initArk()\n	initPoseidon()\n	initGMimc()")]),
 ("poseidon-cauchy-state", "P21", [(PO, "	state := make([]fr.Element, p.t)\n", "	state := p.cauchy[0]\n")]),
 ("poseidon-wrong-var", "P21", [(PO, "PoseidonT4 = newPoseidonHasher(4, 8, 83)", "PoseidonT4 = newPoseidonHasher(4, 8, 82)")]),
 ("poseidon-shared-matrix", "P21", [(PO, "	PoseidonT8 = newPoseidonHasher(8, 8, 84)", "	PoseidonT8 = newPoseidonHasher(8, 8, 84)\n	PoseidonT8.cauchy[0] = PoseidonT4.cauchy[0]")]),
 ("gmimc-rounds-run", "P21", [(G, "	state := make([]fr.Element, g.t)\n", "	state := make([]fr.Element, g.t)\n	g.nRounds = 91\n")]),
]
