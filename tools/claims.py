CLAIMED = {
 "C01": "Stationarity (Newton decrement) and comparison with every other known parameter vector, per recorded unpenalised or ridge fit.",
 "C02": "Subgradient conditions on the internal scale, the all-zero threshold, and objective comparison, per recorded L1 fit.",
 "C03": "Likelihood, history, iteration count and echoed options of every recorded fit, truncated ones included, against the penalised likelihood of the specification.",
 "C04": "Each recorded iterate is checked to be a legal transition (full Fisher step, or improving multiple of it) of the specification's fit machine; stopping and truncation rules.",
 "C05": "Outcomes of fits of well-posed and of degenerate problems.",
 "C12": "Every residual of every recorded fit is recomputed from the data and the reported coefficients.",
 "C13": "Hat matrix, leverage, influence and Cook's distance recomputed from the data and the reported coefficients.",
 "C14": "Score and Fisher information at several parameter vectors, covariance and Wald z recomputed.",
 "C15": "Test statistics recomputed, with the null model refitted inside the specification.",
 "C16": "Deviance, dispersion, AIC, BIC, R^2, degrees of freedom recomputed.",
 "C17": "P-values recomputed with independently written distribution functions.",
 "C18": "Link maps, derivatives and likelihoods recomputed at moderate and extreme arguments; user-defined duplicates of built-in links compared.",
 "C20": "Penalty paths: monotone norms and likelihood, both limits, equivalent option spellings.",
 "C21": "Predictions recomputed for training and new designs.",
}
CLAIMED.update({
 "C06": "Fits of models derived by toggling standardisation, shifting and rescaling columns, compared with fits of the original under the map of coefficients; every answer compared; zero-variance columns.",
 "C07": "Models with replicated rows instead of counts, with zero-count rows dropped, with explicit unit counts: fits and every answer compared.",
 "C08": "Models with scaled variance weights and with explicit unit weights: fits and every answer compared under the scaling laws.",
 "C09": "Models with constant, linear and zero offsets: fits and every answer compared under the map of coefficients.",
 "C10": "Models with permuted rows and columns and other memory layouts: fits and every answer compared.",
 "C22": "Models in single and double precision and with other response types: fits and every answer compared.",
})
CLAIMED["C19"] = "The builder state machine is model-checked for all setter words; setter words, argument lengths and boundary responses are replayed and the outcome compared with the machine's, fits of reordered models compared."
CLAIMED["C11"] = "The machine of lazily filled caches is model-checked; every query is asked first on a fresh fit and again in the reachable cache states, on fits alive side by side, and compared with the remembered answer."
NOT_APPLICABLE = {}
