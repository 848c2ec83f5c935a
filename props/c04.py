from symx import stubs
from .lemmas import septic_cases
from .famlib import family_cases, cell_cases, seed_cases
def prepare(): stubs.install()
FILES = {"septic","septic_symmetric","octic_symmetric","nonic","dense_symmetric","sparse"}
def cases(tier): return septic_cases(tier) + seed_cases(tier, range(7, 13)) + cell_cases(tier, FILES) + family_cases(tier, FILES, crash_ok=True)
