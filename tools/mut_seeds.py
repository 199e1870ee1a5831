"""the planted bugs as a table for mutate.py: does the check of its property notice each?"""
import runpy, os
SEEDS = runpy.run_path("/verif/tools/seed/spec.py")["SEEDS"]
MUTANTS = [(s[0], [s[1]], s[2]) for s in SEEDS]
