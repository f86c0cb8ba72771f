G, M, S, MM = "algorithms/_garch.py", "algorithms/_mgarch.py", "measures/", "measures/modified_merton/"
II = "algorithms/isolation_forest/__init__.py"
BUGS = []


def bug(id, property, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


REFUSED = '''
def refused(call, what):
    try:
        got = call()
    except Exception:
        return
    check(False, (what, got))

'''

bug("c37-srisk-markdown", "C37", [(S + "_srisk.py", "        lrmes_C=-0.1,\n", "        lrmes_C=-0.01,\n")],
    "an SRISK estimate that leaves the markdown to its default", "SRISK's default markdown is one percent instead of the documented ten", '''
from frds.measures import SRISK
r = np.random.default_rng(0).standard_t(4, (80, 2)) * 0.04
e = SRISK(r[:, 0], r[:, 1], 1.0, 9.0)
a, b = e.estimate(0.08, 22, 400), e.estimate(0.08, 22, 400, -0.1)
check(abs(a - b) < 1e-9, (a, b))
''')

bug("c37-forest-sizes-swapped", "C37", [(II, "    forest_size: int = 1000,\n    tree_size: int = 256,\n", "    tree_size: int = 256,\n    forest_size: int = 1000,\n")],
    "sizes given by position", "the two sizes of the forest changed places in the signature", '''
import pandas as pd
from frds.algorithms.isolation_forest import anomaly_scores
f = pd.DataFrame({"a": np.random.default_rng(1).standard_normal(30)})
a, b = anomaly_scores(f, 7, 20), anomaly_scores(f, forest_size=7, tree_size=20)
check(np.allclose(a, b), "positional sizes")
''')

bug("c37-integer-maturity", "C37", [(S + "_option_price.py", "    d1 = (np.log(S / K) + (r - q + sigma**2 / 2) * T) / (", "    T = T if isinstance(T, float) else T / 365\n    drift = r - q + sigma**2 / 2\n    d1 = (np.log(S / K) + drift * T) / (")],
    "a maturity given as an integer", "integer maturities are taken for days", '''
from frds.measures import blsprice
a, b = blsprice(0.75, 1.0, 0.01, 2, 0.2), blsprice(0.75, 1.0, 0.01, 2.0, 0.2)
check(np.allclose(a, b), (a, b))
''')

bug("c38-direction-broadcast", "C38", [(S + "spread.py", "        trade_direction = np.asarray(trade_direction)\n        assert price.shape == trade_direction.shape\n        if pct_spread:\n            spread = 2 * trade_direction * (price - midpoint_later)",
     "        trade_direction = np.asarray(trade_direction).reshape(-1)\n        if pct_spread:\n            spread = 2 * trade_direction * (price - midpoint_later)")],
    "one trade direction for several trades", "realized spreads take a single direction for all trades", REFUSED + '''
from frds.measures.spread import realized_spread
p = np.array([10.0, 10.2, 10.1])
refused(lambda: realized_spread(p, p + 0.1, p - 0.1, p * 7, np.array([1.0])), "one direction for three trades")
''')

bug("c38-refused-method-sorts", "C38", [(S + "_probability_of_informed_trading.py", "        if method not in (\"EHO2010\", \"LK2011\"):\n", "        self.S, self.B = np.sort(self.S), np.sort(self.B)\n        if method != \"EHO2010\" and method != \"LK2011\":\n")],
    "a likelihood asked for after a refused estimation", "a refused estimation leaves the days' orders sorted apart", REFUSED + '''
from frds.measures import PIN
b, s, p = np.array([20, 80, 18]), np.array([75, 21, 55]), [0.4, 0.5, 20.0, 22.0, 30.0]
e = PIN(b, s)
want = e.loglikelihood_LK2011(p)
refused(lambda: e.estimate("EKO1996"), "method")
check(e.loglikelihood_LK2011(p) == want, (e.loglikelihood_LK2011(p), want))
''')

bug("c38-percent-quantiles", "C38", [(S + "_marginal_expected_shortfall.py", "        assert 0 <= q <= 1\n        low_threshold = np.percentile(self.market_returns, q * 100)", "        if q > 1:\n            q = q / 100\n        low_threshold = np.percentile(self.market_returns, q * 100)")],
    "a fraction above one", "fractions above one are taken for percents", REFUSED + '''
from frds.measures import MarginalExpectedShortfall as E
r = np.random.default_rng(0).standard_normal((2, 50))
refused(lambda: E(r[0], r[1]).estimate(1.5), "fraction")
''')

bug("c38-srisk-of-arrays", "C38", [(S + "_srisk.py", "            assert D.shape == np.zeros((n_firms,)).shape\n", "            assert D.size in (1, n_firms)\n")],
    "one value of equity and debt for several firms", "SRISK takes one balance sheet for all firms", REFUSED + '''
from frds.measures import SRISK
r = np.random.default_rng(0).standard_normal((40, 2)) / 50
refused(lambda: SRISK(r, r[:, 0], np.array([1.0]), np.array([9.0])), "shapes")
''')

bug("c15-unknown-midpoint", "C15", [(S + "spread.py", "            spread = 2 * trade_direction * (np.log(price) - np.log(midpoint))\n    dollar_volume = volume * price\n    if all(dollar_volume == 0):\n        return np.nanmean(spread)\n",
     "            spread = 2 * trade_direction * (np.log(price) - np.log(midpoint))\n    dollar_volume = volume * price\n    if all(dollar_volume == 0):\n        return np.average(np.nan_to_num(spread))\n")],
    "trades without volume, one of them without a midpoint", "trades whose midpoint is unknown count as trades at no spread", '''
from frds.measures.spread import effective_spread
got = effective_spread(np.array([10.0, 10.2]), np.array([9.9, np.nan]), np.zeros(2))
check(abs(got - 0.2 / 9.9 * 100) < 1e-9, got)
''')

bug("c17-thin-books", "C17", [(S + "lob_slope.py", "    assert k > 1  # at least two levels\n    assert len(mid_point.shape) == 1 and n == mid_point.shape[0]\n    assert np.shape(bid_price_highest_level) == mid_point.shape\n\n    slope = np.sum(bid_size, axis=1)",
     "    assert k > 1  # at least two levels\n    assert len(mid_point.shape) == 1 and n == mid_point.shape[0]\n    assert np.shape(bid_price_highest_level) == mid_point.shape\n\n    slope = np.sum(bid_size[:, : max(k, 3) if k != 3 else 2], axis=1)")],
    "books of three levels", "the third level of books of three levels is left out", '''
from frds.measures.lob_slope import DGGW_bid_slope
got = DGGW_bid_slope(np.array([[1.0, 2.0, 3.0]]), np.array([9.0]), np.array([10.0]))
check(abs(got - 6) < 1e-9, got)
''')

bug("c26-threshold-below", "C26", [(S + "_distress_insurance_premium.py", "                idx = math.ceil(loss_given_default[i, j])\n", "                idx = min(math.ceil(loss_given_default[i, j]), len(prob_losses) - 2)\n")],
    "losses that round up to everything, and a threshold close to one", "the largest losses are counted one slot too low", '''
from frds.measures import DistressInsurancePremium as D
e = D(np.array([0.9]), np.eye(1))
a = e.estimate(1.0, 3, 40, 20000)
check(a > 0, a)
''')

bug("c30-edge-step", "C30", [(MM + "fftsmooth.py", "    dl = xk[w // 2 + 1] - xk[w // 2]  # / (w - 1)\n", "    dl = (xk[w // 2 + 2] - xk[w // 2]) / 2 if n - w // 2 > w // 2 + 2 else xk[w // 2 + 1] - xk[w // 2]\n")],
    "a series whose slope changes near its beginning", "the slope at the beginning is taken over two steps", '''
from frds.measures.modified_merton.fftsmooth import fftsmooth
x = np.zeros(12)
x[5] = 1.0
got = fftsmooth(x, 4)
m = {i: x[i - 1:i + 3].sum() / 4 for i in range(2, 10)}
want = m[2] - 2 * (m[3] - m[2])
check(abs(got[0] - want) < 1e-9, (got[0], want))
''')

bug("c38-ses-unknown-version", "C38", [(S + "_systemic_expected_shortfall.py", "        assert version in [\n            \"BFLV2012\",\n            \"APPR2017\",\n        ]\n        if version == \"BFLV2012\":", "        version = str(version).upper().strip()\n        if not version.startswith(\"APPR\"):")],
    "a version that does not exist", "unknown versions are taken for BFLV2012", REFUSED + '''
from frds.measures import SystemicExpectedShortfall as E
r = np.random.default_rng(0).standard_normal((3, 8))
refused(lambda: E(r[0], r[1], r[2] + 3, 0.1, 2.5).estimate("BFLV2017"), "version")
''')
