"""Print spec/Quant.tla: quantiles at the probabilities the drivers use (from scipy)."""
from scipy.stats import chi2, norm

P = ["0.8", "0.9", "0.95", "0.975", "0.99", "0.999", "0.7", "0.6"]
print("""------------------------------- MODULE Quant --------------------------------
(* Quantiles of the standard normal and of chi-square distributions with 1..10
   degrees of freedom at the probabilities used by the drivers (generated once
   by tools/quant.py from scipy; 17 significant digits).                        *)
EXTENDS Rat
NormQ(pr) ==""")
for k, p in enumerate(P):
    print(f'   {"CASE" if k == 0 else "  []"} pr = "{p}" -> Num("{float(norm.ppf(float(p)))!r}")')
print("Chi2Q(pr, df) ==")
for k, p in enumerate(P):
    q = ", ".join(f'Num("{float(chi2.ppf(float(p), d))!r}")' for d in range(1, 11))
    print(f'   {"CASE" if k == 0 else "  []"} pr = "{p}" -> <<{q}>>[df]')
print("=" * 77)
