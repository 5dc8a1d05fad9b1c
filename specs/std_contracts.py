"""Contracts on std:: algorithms called by the library (trusted)."""
import re
from terms import *
from engine import *
def install(e): pass
