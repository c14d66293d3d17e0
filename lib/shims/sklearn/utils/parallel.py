from .fixes import delayed
from joblib import Parallel
