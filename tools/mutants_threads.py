L, C, B, S, M = "circuit/layers.go", "circuit/circuit.go", "polynomial/book_keeping.go", "common/semaphore.go", "sumcheck/par.go"
RD = "			semaphore.Release()\n			wg.Done()"
ms += [
 ("eval-done-before-release", "threadspec.Evaluate", [(L, RD, "			wg.Done()\n			semaphore.Release()")]),
 ("eval-no-release", "threadspec.Evaluate", [(L, RD, "			wg.Done()")]),
 ("eval-no-wait", "threadspec.Evaluate", [(L, "	wg.Wait()\n", "")]),
 ("eval-no-done", "threadspec.Evaluate", [(L, RD, "			semaphore.Release()")]),
 ("eval-add-1", "threadspec.Evaluate", [(L, "wg.Add(len(inputs))", "wg.Add(1)")]),
 ("eval-shared-tmp", "threadspec.Evaluate", [(L, "			var tmp fr.Element\n", ""), (L, "	var wg sync.WaitGroup\n", "	var wg sync.WaitGroup\n	var tmp fr.Element\n")]),
 ("eval-captured", "threadspec.Evaluate", [(L, "go func(i int) {", "go func() {"), (L, "		}(i)", "		}()")]),
 ("eval-add-inside", "threadspec.Evaluate", [(L, "wg.Add(len(inputs))", ""), (L, "			semaphore.Acquire()\n", "			wg.Add(1)\n			semaphore.Acquire()\n")]),
 ("sub-end", "threadspec.Sub,threadspec.SubInPlace", [(B, "i < chunk.End", "i <= chunk.End")]),
 ("mul-end", "threadspec.Mul", [(B, "i < chunk.End", "LAST:i <= chunk.End")]),
 ("mul-from-0", "threadspec.Mul", [(B, "i := chunk.Begin", "LAST:i := 0")]),
 ("copy-captured", "threadspec.LayerCopy", [(C, "go func(i int, tab []fr.Element) {", "go func(i int) {"), (C, "}(i, tab)", "}(i)")]),
 ("sem-n-1", "threadspec.LayerCopy", [(S, "i < n", "i < n-1")]),
 ("sem-cap", "threadspec.LayerCopy", [(S, "struct{}, n)", "struct{}, n-1)")]),
 ("chunk-no-release", "threadspec.Chunks", [(M, "		evalsChan <- subProver.GetEvalsOnHR()\n		semaphore.Release()\n		r := <-rChan\n		semaphore.Acquire()", "		evalsChan <- subProver.GetEvalsOnHR()\n		r := <-rChan")]),
 ("chunk-shared-statics", "threadspec.Chunks", [(M, "		staticTablesCopy[i] = p.staticTables[i].DeepCopy()", "LAST:		staticTablesCopy[i] = p.staticTables[i]")]),
 ("chunk-no-last-release", "threadspec.Chunks", [(M, "	semaphore.Release()\n	close(rChan)", "	close(rChan)")]),
 ("chunk-close-fin", "threadspec.Chunks", [(M, "	close(rChan)", "	close(finChan)")]),
 ("chunk-eq-0", "threadspec.Chunks", [(M, "		p.eq[chunkIndex],", "LAST:		p.eq[0],")]),
 ("claim-no-release", "threadspec.GetClaim", [(M, "	defer semaphore.Release()\n", "")]),
 ("claim-one-less", "threadspec.GetClaim", [(M, "	for i := 0; i < nChunks; i++ {\n		x := <-evalsChan", "	for i := 1; i < nChunks; i++ {\n		x := <-evalsChan")]),
 ("claim-one-more", "threadspec.GetClaim", [(M, "	for i := 0; i < nChunks; i++ {\n		x := <-evalsChan", "	for i := 0; i <= nChunks; i++ {\n		x := <-evalsChan")]),
 ("bcast-captured", "threadspec.Broadcast", [(M, "go func(ch chan fr.Element) {", "go func() {"), (M, "}(ch)", "}()")]),
 ("bcast-no-wait", "threadspec.Broadcast", [(M, "	wg.Wait()\n", "")]),
 ("prove-accumulate-less", "threadspec.Prove", [(M, "evals := ConsumeAccumulate(evalsChan, nChunks)", "evals := ConsumeAccumulate(evalsChan, nChunks-1)")]),
 ("prove-reads-eq", "threadspec.Prove", [(M, "	// Process on all values until", "	qPrime = append(qPrime[:0:0], make([]fr.Element, bN)...)\n	if bN > 0 { qPrime[0] = p.eq[0].Table[0] }\n	// Process on all values until")]),
 ("prove-merge-less", "threadspec.Prove", [(M, "i < nToMerge-1", "i < nToMerge-2")]),
 ("prove-early-close", "threadspec.Prove", [(M, "	newP := ConsumeMergeProvers", "	close(finChan)\n	newP := ConsumeMergeProvers"), (M, "	close(evalsChan)\n	close(finChan)", "	close(evalsChan)")]),
 ("claim-close-early", "threadspec.GetClaim", [(M, "	var res fr.Element\n	for i := 0; i < nChunks; i++ {\n		x", "	semaphore.Close()\n	var res fr.Element\n	for i := 0; i < nChunks; i++ {\n		x")]),
]
