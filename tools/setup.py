"""Checks that what the framework needs is present; nothing has to be built."""
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import joblib, numpy, pandas, sklearn, z3
print('z3', z3.get_version_string(), 'numpy', numpy.__version__, 'pandas', pandas.__version__)
