"""Write known_findings.json (findings recorded instead of repaired, and repairs with their commits)."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = []
FIXED = [  # (property, subject of the commit, what failed)
    ("C05", "Keep the order of measures", "a process combined after conditioning could report a measure in which its parts were not constructed (order of a set)"),
    ("C07", "Do not change names", "renaming to a taken name raised after the old name was already dropped, or after other measures were renamed"),
    ("C06", "Restore the right default measure", "re-entering a measure that is already open lost the outer default on leaving"),
    ("C09", "Resolve an omitted mean", "mean_var and marginals of a distribution with joint constructors and omitted mean returned the integer zero and an unstructured variance"),
    ("C01", "Use right_rule in Measure.add_gp", "add_gp ignored its right_rule"),
    ("C14,C19,C13", "Account for the number of outputs", "sizes of multi-output processes at tagged inputs and nested products were wrong, so joint samples were split at the wrong places"),
    ("C18", "Include the covariance in the mean", "the mean of the product of correlated processes lacked their covariance"),
    ("C11", "Handle scalar inputs when selecting", "missing data at scalar inputs raised"),
    ("C01", "Subtract functions from processes", "process minus function raised"),
    ("C05", "Reject observations of processes of other measures", "conditioning on a foreign process left processes in an unusable measure"),
    ("C10", "Handle structured means in divergences", "KL divergence and Wasserstein distance raised for a structured (posterior) mean against a plain array"),
    ("C15", "Give a zero mean the batch", "the mean of a batched distribution with omitted mean had no batch dimensions"),
    ("C15", "Do not sum over batches", "the Wasserstein distance between batched distributions summed the means over the batch"),
    ("C15", "Support batches in second moments", "the second moment of a batched distribution was wrong or raised"),
    ("C16", "Do not change the precision with noise", "noise given as a Python number changed single to double precision"),
    ("C19,C20", "Do not infer the dimensionality of ambiguous", "after conditioning twice, multi-output posteriors raised because a dimensionality was inferred for a covariance between processes with different numbers of outputs"),
    ("C13", "Account for outputs in covariances with new", "a process created after a Cartesian product had a covariance with it of the size of one output"),
    ("C13,C19", "Support element-wise evaluation of sums", "element-wise evaluation of the sum of Cartesian products raised"),
    ("C09,C01,C15", "Support structured variances of finite", "variances and marginals of f * function + f raised, because element-wise variances can be structured matrices"),
    ("C21", "Format values in the text of multi-output", "the formatter given to display was ignored for the parts of Cartesian products"),
    ("C16", "Use floating-point constants", "log-densities and entropies of distributions with a variance of integers were wrong because constants were rounded to integers"),
    ("C13", "Evaluate zero covariances at inputs of products", "the covariance between a Cartesian product of one process, at tagged inputs, and an independent process created later raised, and so did conditioning on it"),
]


def main():
    log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()]
    fixed = []
    for prop, subject, what in FIXED:
        (h,) = [h for h, s in log if subject in s and s.startswith("fix:")]
        fixed += [f"fixed: property={p} {h} {what}" for p in prop.split(",")]
    json.dump({"findings": FINDINGS, "fixed": fixed}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)


main()
