import extractdrv as X


def run(ck):
    n = ck.budget(12, 40)
    ck.model_check("Sampling", "CONSTANTS MaxFree = %d MaxCap = %d\nSPECIFICATION Spec\nINVARIANT Reports Enough GridsRight SincRight\nPROPERTY Fewer Ends\nCHECK_DEADLOCK FALSE\n" % (n, n),
                   "descent to the Nyquist grid; grids and interpolation weights")
    ck.validate("SamplingTrace", [X.exact_resample(ck.rng) for _ in range(ck.budget(1500, 10000))], what="resampling on exact grids")
    ck.validate("SamplingTrace", [X.pdf_history(ck.rng, ck.rng.choice([1, 1, 2])) for _ in range(ck.budget(220, 3000))], what="PDF extractions and fits")
