import extractdrv as X

CFG = "CONSTANTS MaxN = %d MaxY = %d MaxRes = 2 NInit = %d NNew = %d\n"
INV = "INVARIANT WindowContiguous OneToOne NothingTouches OnePeakOneRegion JoinsAtMostThree SearchesSomewhere EndsWhole KeepsRequired\nPROPERTY OthersStay\nCHECK_DEADLOCK FALSE\n"


def run(ck):
    ck.model_check("Extraction", CFG % (5, 2, 1, 1) + "SPECIFICATION Spec\n" + INV, "growth with models, 5 points")
    ck.model_check("Extraction", CFG % (4, 2, 1, 1) + "SPECIFICATION FairSpec\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n", "growth ends, 4 points")
    if not ck.quick:
        ck.model_check("Extraction", CFG % (6, 2, 1, 1) + "SPECIFICATION Spec\n" + INV, "growth with models, 6 points", timeout=3000)
    hist, grown = [], []
    for i in range(ck.budget(260, 4000)):
        t, g = X.history(ck.rng, ck.rng.choice([2, 3, 4, 5]), big=not ck.quick and i % 3 == 0)
        hist.append(t)
        grown += g
    ck.validate("ExtractionTrace", hist, what="histories of extracting, fitting, estimating and adding")
    ck.validate("ExtractionTrace", grown, what="growth of regions during extraction, nested extractions included")
